#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, "DESIGN.md")
s = open(d).read()
head = s.split("<!-- planted -->")[0].replace("CATCH_TABLE\n", "")
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m.get('caught', 'yes')} | {m['what_it_breaks']} |")
open(d, "w").write(head + "<!-- planted -->\n| bug | check | caught | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
