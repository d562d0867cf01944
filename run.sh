#!/bin/bash
# Builds the checker against /repo's working tree and runs it.
#   ./run.sh C05            check one property (VERIF_TIER=thorough: deeper bounds)
#   ./run.sh replay FILE    run one recorded case again
#   ./run.sh build          build only
set -u
cd "$(dirname "$0")" || exit 2
# (REPO: a copy of it, to try planted bugs)
REPO=${REPO:-/repo}
export ASG_DIR=$REPO/asg
export MC_HOME="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
build() {
    local log
    log=$(mktemp)
    if ! (cd "$1" && shift && cargo build --offline --release "$@") >"$log" 2>&1; then
        cat "$log"
        rm -f "$log"
        exit 2
    fi
    rm -f "$log"
}
what=${1:-}
[ "$what" = replay ] && what=$(grep -oE '"property": *"C[0-9]+"' "$2" | grep -oE 'C[0-9]+')
case "$what" in
C34)
    [ "$1" = replay ] || shift
    exec node asg/check.mjs "$@"
    ;;
C35)
    build "$REPO/sdd" --locked
    [ "$1" = replay ] || shift
    exec python3 sdd/check.py "$@"
    ;;
esac
build harness
if [ "$what" = build ]; then
    build "$REPO/sdd" --locked
    exit 0
fi
exec target/release/mc "$@"
