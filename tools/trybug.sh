#!/bin/bash
# tools/trybug.sh ID [CHECK]: demo on clean and patched tree, stable tests on the patched tree, and the check.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 3; }
bash $D/demo.sh >/tmp/demo.log 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 3
bash $D/demo.sh >/tmp/demo2.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo2.log
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1; echo "build: $?"; bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log; fi
cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$P': print(c['quick_cmd'])" 2>/dev/null)
if [ -n "$cmd" ]; then cd /verif && bash -c "$cmd" 2>&1 | grep -E 'VIOLATION|KNOWN|error' | head -5; echo "check exit ${PIPESTATUS[0]}"; fi
git -C /repo checkout -- .
