#!/usr/bin/env python3
"""tools/mkdemo.py ID [main|dev] [EXTRA dependency lines]: (re)writes seeded/ID/kit and demo.sh around seeded/ID/main.rs"""
import os, shutil, sys
V = "/verif"
ID = sys.argv[1]
rtname = sys.argv[2] if len(sys.argv) > 2 else "main"
extra = "\n".join(sys.argv[3:])
d = f"{V}/seeded/{ID}"
k = f"{d}/kit"
shutil.rmtree(k, ignore_errors=True)
os.makedirs(k + "/checks/demo/src")
shutil.copytree(V + "/shim", k + "/shim", ignore=shutil.ignore_patterns("__pycache__", "target"))
for f in ("sync.py", "rt.py"):
    shutil.copy(f"{V}/{f}", k)
for c in ("mc", "fr"):
    shutil.copytree(f"{V}/checks/{c}", f"{k}/checks/{c}")
t = open(V + "/tools/demokit/Cargo.toml").read().replace("RUNTIME", rtname).replace("EXTRA", extra)
open(k + "/checks/demo/Cargo.toml", "w").write(t)
base = open(V + "/checks/rt/src/base.rs").read()
open(k + "/checks/demo/src/base.rs", "w").write(base)
shutil.copy(V + "/tools/demokit/demo.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
