#!/bin/bash
# tools/wbug.sh ID [CHECK]: the property's check on the patched scratch worktree /tmp/w
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /tmp/w checkout -q -- . ; git -C /tmp/w apply $D/patch.diff || exit 3
cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$P': print(c['quick_cmd'])")
cd /verif; s=$(date +%s); REPO_DIR=/tmp/w bash -c "$cmd" 2>&1 | grep -aE 'VIOLATION|KNOWN|error' | cut -c1-300 | head -5; echo "$ID: $cmd exit ${PIPESTATUS[0]} ($(( $(date +%s)-s )) s)"
git -C /tmp/w checkout -q -- .
