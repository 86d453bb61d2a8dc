#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f"{V}/DESIGN.md").read()
i = d.index("| id | what it breaks |")
rows = ["| id | what it breaks | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    c = m.get("caught", m["property"])
    rows.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {c} |")
open(f"{V}/DESIGN.md", "w").write(d[:i] + "\n".join(rows) + "\n")
