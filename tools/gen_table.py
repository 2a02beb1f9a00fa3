#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from catches.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cs = json.load(open(f"{R}/tools/catches.json"))
d = open(f"{R}/DESIGN.md").read().split("<!-- table -->")[0]
rows = []; ok = 0
names = sorted(n for n in os.listdir(f"{R}/seeded"))
for n in names:
    m = json.load(open(f"{R}/seeded/{n}/meta.json")); p = m["property"]
    r = cs.get(n, {}).get(p)
    how = "not run" if r is None else (r[1] or "caught") if r[0] == 1 else "**missed**"
    ok += bool(r and r[0] == 1)
    rows.append(f"| {n} | {p} | {m['needs'].replace('|', '/')} | {how} |")
d += f"<!-- table -->\n\nAll planted bugs ({ok} of {len(names)} caught by the quick check of their property; last column: the unit that reports first).\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(f"{R}/DESIGN.md", "w").write(d)
print(ok, len(names))
