#!/bin/bash
# check.sh <property> <quick|thorough>   decides one property against /repo's current tree
# check.sh replay <file>                 repeats the calls recorded in a replay file
# check.sh build                         builds only
V="$(cd "$(dirname "$0")" && pwd)"
B="$V/.build"
mkdir -p "$B" "$V/evidence"
export CARGO_NET_OFFLINE=true
build() {
    (cd "$V/fpv" && CARGO_TARGET_DIR="$B/fpv" cargo build --offline --release >"$B/fpv.log" 2>&1) &
    local p=$!
    # the harness with /repo's crate compiled into it, its optimised LLVM IR beside it
    (cd "$V/harness" && RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C overflow-checks=on" \
        CARGO_TARGET_DIR="$B/h" cargo build --offline --release >"$B/h.log" 2>&1)
    local r=$?
    wait $p || { cat "$B/fpv.log"; return 1; }
    [ $r = 0 ] || { cat "$B/h.log"; return 1; }
}
# from scratch: stale IR of an earlier tree must not be read
rm -rf "$B/h"
build || { echo "build failed"; exit 2; }
case "$1" in
build) exit 0 ;;
C01 | C21) exec python3 "$V/kani.py" "$@" ;;
replay)
    head -1 "$2" | grep -q "^kani " && exec "$B/kn/release/pkani" one "$(head -1 "$2" | cut -c6-)"
    exec "$B/fpv/release/fpv" "$V" "$B/h/release/deps" replay "$2" ;;
*) exec "$B/fpv/release/fpv" "$V" "$B/h/release/deps" "$1" "${2:-quick}" ;;
esac
