#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(B + "/seeded")):
    m = json.load(open(f"{B}/seeded/{i}/meta.json"))
    c = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append(f"| {i} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
d = open(B + "/DESIGN.md").read()
h = "| id | caught by | what it breaks | needs |\n|---|---|---|---|\n"
a = d.index(h) + len(h)
e = d.index("\n\n", a)
open(B + "/DESIGN.md", "w").write(d[:a] + "\n".join(rows) + d[e:])
