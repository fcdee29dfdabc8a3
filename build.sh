#!/bin/bash
# Builds what a check needs from the harness and from /repo's current working tree.
# build.sh TARGET...   (mon: the harness; huff: the huff binaries and the fault shim;
#                       san: the harness's sanitizer driver, under ASan, TSan and Miri)
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET LD_PRELOAD
STABLE=+stable-x86_64-unknown-linux-gnu
NIGHTLY=+nightly
R=${VMON_REPO:-/repo}
B=$V/build
mkdir -p "$B" || exit 2
exec 9>"$B/.lock"; flock 9

# cargo decides by file times whether to rebuild; decide by content instead
hash=$(cd "$R" && find . -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 |
       sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
fresh() { # fresh DIR: forget what was built in DIR from other sources of /repo
    if [ "$(cat "$B/$1.hash" 2>/dev/null)" != "$hash" ]; then
        rm -f "$B/$1.hash"
        find "$B/$1" -type d \( -path '*/.fingerprint/huff*' -o -path '*/incremental/huff*' \) -prune -exec rm -rf {} + 2>/dev/null
    fi
}
done_() { echo "$hash" > "$B/$1.hash"; }
quiet() { # run, show the output only on failure
    local o; o=$(mktemp "$B/log.XXXXXX")
    if "$@" >"$o" 2>&1; then rm -f "$o"; return 0; fi
    tail -n 40 "$o"; rm -f "$o"; echo "BUILD FAILED: $*"; exit 2
}

for t in "$@"; do
    case $t in
    mon)
        fresh mon
        (cd harness && quiet env CARGO_TARGET_DIR="$B/mon" cargo $STABLE build --offline --release --bin vmon) || exit 2
        done_ mon ;;
    huff)
        # opt2: for speed; opt0: the plain debug build, with its much larger stack frames
        fresh huff2; fresh huff0
        (cd "$R" && quiet env CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
            cargo $STABLE build --offline -p huff --bin huff --target-dir "$B/huff2") || exit 2
        (cd "$R" && quiet env CARGO_PROFILE_DEV_DEBUG=line-tables-only \
            cargo $STABLE build --offline -p huff --bin huff --target-dir "$B/huff0") || exit 2
        if [ shim/fault.c -nt "$B/fault.so" ] || [ ! -e "$B/fault.so" ]; then
            quiet gcc -O1 -Wall -shared -fPIC -o "$B/fault.so.tmp" shim/fault.c -ldl && mv "$B/fault.so.tmp" "$B/fault.so" || exit 2
        fi
        done_ huff2; done_ huff0 ;;
    asan)
        fresh asan
        (cd harness && quiet env CARGO_TARGET_DIR="$B/asan" RUSTFLAGS="-Zsanitizer=address" \
            cargo $NIGHTLY build --offline --release --bin san --target x86_64-unknown-linux-gnu) || exit 2
        done_ asan ;;
    tsan)
        fresh tsan
        (cd harness && quiet env CARGO_TARGET_DIR="$B/tsan" RUSTFLAGS="-Zsanitizer=thread" \
            cargo $NIGHTLY build --offline --release --bin san --target x86_64-unknown-linux-gnu -Zbuild-std) || exit 2
        done_ tsan ;;
    miri)
        fresh miri
        (cd harness && quiet env CARGO_TARGET_DIR="$B/miri" MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-disable-isolation" \
            cargo $NIGHTLY miri run --offline --bin san -- none) || exit 2
        done_ miri ;;
    esac
done
