#!/bin/bash
# check.sh ID [--case N]: decide one property on /repo's working tree. Exit 0 held, 1 violated, 2 no verdict.
cd "$(dirname "$0")" || exit 2
id=$1
case $id in
C13) need="mon asan tsan miri" ;;
C14|C15|C16|C17|C18|C19|C20|C21|C22|C23|C27) need="mon huff" ;;
*) need="mon" ;;
esac
./build.sh $need || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
exec 9<&- 
exec build/mon/release/vmon check "$@"
