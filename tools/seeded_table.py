#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.

Documentation only: no check runs this or reads /verif/seeded."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    one = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append(f"| {d} | {one(m['needs'])} | {one(m['what_it_breaks'])} | {m.get('caught_by', m['property'])} |")
text = open(f"{root}/DESIGN.md").read()
head, _, _ = text.partition("<!-- table -->")
open(f"{root}/DESIGN.md", "w").write(head + "<!-- table -->\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows))
