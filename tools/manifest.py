#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "exhaustive enumeration of a bounded input space on the real code against an independent oracle"
BFS = "explicit-state model checking of the real pallet (breadth-first over storage states) against a reference model"
CHECKS = {}
def claim(ids, bin, technique, note):
    for i in ids.split():
        CHECKS[i] = (bin, technique, note)
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        b, t, n = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./run.sh {b} {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {b} {i}", technique=t, level="model_checking", level_note=n))
na = [dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not")
