#!/usr/bin/env python3
"""Renew the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    m = json.load(open(p))
    rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["needs"]))
table = "| property | bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
start, end = "<!-- planted -->\n", "<!-- end planted -->"
a, b = text.index(start) + len(start), text.index(end)
with open(path, "w") as f:
    f.write(text[:a] + table + text[b:])
