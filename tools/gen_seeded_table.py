#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(H + "/tools/caught.json"))
rows = ["| bug | breaks | needs | caught by (quick) |", "|---|---|---|---|"]
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {c.get(i, '?')} |")
s = open(H + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
s = s[: s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(H + "/DESIGN.md", "w").write(s)
