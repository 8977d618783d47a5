#!/usr/bin/env python3
"""Development: records the names of parameters and locals of every function of /repo (contracts/names.CFG.tsv)."""
import os, sys, importlib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/bin")
import check
from deductive import run as dr
t = dr.Tools(check.REPO, check.BUILD, check.sh); t.prepare()
for c in dr.SOURCES:
    src = t.source(c)
    rc, o, r = check.sh([t.vx, "names", src], 60)
    open(f"{V}/contracts/names.{c}.tsv", "w").write(o)
    os.makedirs("/tmp/x2", exist_ok=True)
    open(f"/tmp/x2/{c}.rs", "w").write(open(src).read())
    print(c, rc, len(o.splitlines()))
t.clean()
