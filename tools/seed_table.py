#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs'].rstrip('.')} |\n")
p = root / "DESIGN.md"
t = p.read_text()
head = "| bug | property | needs |\n|---|---|---|\n"
i = t.index(head) + len(head)
j = i
while t.startswith("| ", j): j = t.index("\n", j) + 1
p.write_text(t[:i] + "".join(rows) + t[j:])
