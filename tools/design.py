"""Not needed by any check: rewrites the generated tables of DESIGN.md (planted bugs)."""
import glob, json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | property | needs | check |", "|---|---|---|---|"]
import sys
sys.path.insert(0, os.path.join(root, "tools"))
man = {c["property"]: c["quick_cmd"].split("./run.sh ")[1].split()[0] for c in json.load(open(root + "/MANIFEST.json"))["checks"]}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {man[m['property']]} |")
p = root + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- planted bugs -->", "<!-- end -->"
t = b + "\n" + "\n".join(rows) + "\n" + e
s = s.replace("SEEDED_TABLE", t) if "SEEDED_TABLE" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
