#!/bin/bash
# tools/demotest.sh ID [main|dev] [extra]: the demonstration on the unchanged tree and on the patched one (scratch worktree /tmp/w)
ID=$1
python3 /verif/tools/mkdemo.py "$@"
git -C /tmp/w checkout -q -- .
cd /tmp/w
bash /verif/seeded/$ID/demo.sh; echo "clean: $?"
git apply /verif/seeded/$ID/patch.diff || exit 1
bash /verif/seeded/$ID/demo.sh; echo "patched: $?"
git checkout -q -- .
