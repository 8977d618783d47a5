#!/usr/bin/env python3
"""Development: the deductive part on an edited copy of /repo.
refac.py FILE.py UNIT... : FILE.py defines EDITS = {name: [(path, old, new), ...]} (all behaviour-preserving)."""
import os, sys, shutil, subprocess, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/bin")
import check
from deductive import run as dr
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = os.environ.get("ONLY", "").split()
R, B = "/tmp/rf/repo", "/tmp/rf/build"
os.makedirs(R, exist_ok=True)
for name, (units, edits) in ns["EDITS"].items():
    if only and name not in only: continue
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", R + "/"], check=True) if shutil.which("rsync") else (shutil.rmtree(R), shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("target", ".git")))
    bad = None
    for path, old, new in edits:
        p = os.path.join(R, path); s = open(p).read()
        if s.count(old) < 1:
            # Without comment lines.
            import re
            s = re.sub(r"(?m)^[ \t]+//(?![/!#]).*\n", "", s); s = re.sub(r"(?m)(?<=[^ \t/!])[ \t]+// .*$", "", s); s = re.sub(r"\n\n+", "\n\n", s)
            old = re.sub(r"(?m)(?<=[^ \t/!])[ \t]+// .*$", "", old)
        if s.count(old) < 1: bad = f"edit does not apply: {path}: {old[:60]!r}"; break
        open(p, "w").write(s.replace(old, new, 1))
    if bad: print(name, bad, flush=True); continue
    t = dr.Tools(R, B, check.sh); t.prepare()
    us = [dr.Unit(u, t) for u in dr.UNITS if u["name"] in units.split()]
    ths = [threading.Thread(target=u.go) for u in us]
    [x.start() for x in ths]; [x.join() for x in ths]
    for u in us:
        print(f"{name}: {u.name}: {'ERROR ' + u.error[:1500] if u.error else 'ok' if not u.failed and not u.notes else ''} {round(u.wall)} s", flush=True)
        for f in u.failed: print("   FAILED", f["function"], f["message"][:900])
        for n in u.notes: print("   note", n[:400])
    t.clean()
