#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
try:
    from deductive.table import CLAIMS
except ImportError:
    CLAIMS = {}
NA = {
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA: continue
    c = CLAIMS.get(p, {"level": "exploration", "technique": "randomised and enumerated search on the real code (deductive part under construction)", "note": "Concrete search only so far."})
    checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p} --thorough",
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the concrete search uses the public API, the deductive part extracts the macro-expanded source (for C20 the macros themselves) on every run. Every check is self-contained (it builds what it needs under /verif/.build)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
