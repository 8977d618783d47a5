#!/usr/bin/env python3
"""Development: the vacuity check of the named units (all by default)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/bin")
import check
from deductive import run as dr
t = dr.Tools(check.REPO, check.BUILD, check.sh); t.prepare()
for u in dr.UNITS:
    if sys.argv[1:] and u["name"] not in sys.argv[1:]: continue
    x = dr.Unit(u, t); x.go(True)
    print(x.name, x.error, x.vac, x.notes, [f["function"] for f in x.failed], round(x.wall), flush=True)
t.clean()
