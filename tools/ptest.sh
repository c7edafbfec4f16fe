#!/bin/sh
# run the upstream unit tests of a package over the shim
export VERIF_DIR=/verif; . /verif/env.sh; python3 /verif/sync.py >/dev/null; cd /verif/build/ws
cargo test --offline --message-format short -p $1 --lib 2>&1 | grep -E "error|^test .*FAILED|panicked|test result|^thread" | head ${2:--60}
