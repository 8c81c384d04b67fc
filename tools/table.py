#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | caught by | what it breaks |", "|---|---|---|---|"]
results = {}
if os.path.exists(f"{here}/tools/caught.json"):
    results = json.load(open(f"{here}/tools/caught.json"))
for f in sorted(glob.glob(f"{here}/seeded/*/meta.json") + glob.glob(f"{here}/tried/*/meta.json")):
    name = f.split("/")[-2]
    d = json.load(open(f))
    rows.append(f"| {name} | {d['property']} | {results.get(name, '?')} | {d['what_it_breaks']} |")
text = open(f"{here}/DESIGN.md").read()
head = text.split("<!-- table -->")[0]
open(f"{here}/DESIGN.md", "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n")
