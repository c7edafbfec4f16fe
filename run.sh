#!/bin/bash
# run.sh CHECK PROPERTY: builds checks/CHECK from the current tree of /repo and decides PROPERTY.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
python3 sync.py || exit 2
bin=$1; shift
( cd build/ws && cargo build -q --offline -p "$bin" ) > build/$bin.log 2>&1 || { grep -E "^error" -A5 build/$bin.log; echo "ERROR: the check does not build"; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
