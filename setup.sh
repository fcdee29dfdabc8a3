#!/bin/bash
# Builds everything once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" && exec ./build.sh mon huff asan tsan miri
