#!/bin/sh
# build one package of the generated workspace and show the first errors
export VERIF_DIR=/verif; . /verif/env.sh; python3 /verif/sync.py >/dev/null; cd /verif/build/ws
cargo build --offline --message-format short -p ${1:-sdk} 2>&1 | grep -E "error" | head -${2:-60}
