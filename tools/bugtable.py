#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property, caught by its check | what it needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{here}/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} |")
text = open(f"{here}/DESIGN.md").read()
begin, end = "<!-- bugs -->", "<!-- /bugs -->"
table = begin + "\n" + "\n".join(rows) + "\n" + end
if begin in text:
    text = text[:text.index(begin)] + table + text[text.index(end) + len(end):]
else:
    text = text.replace("@@BUGS@@", table)
open(f"{here}/DESIGN.md", "w").write(text)
