"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json (documentation only)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded: written by tools/mkseeded.py -->\n"
head = open(V + "/DESIGN.md").read().split(MARK)[0]
rows = ["| bug | needs | caught by |", "|-----|-------|-----------|"]
for b in sorted(os.listdir(V + "/seeded")):
    d = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s |" % (b, d["needs"].replace("|", "/"), d["property"]))
open(V + "/DESIGN.md", "w").write(head + MARK + "\n" + "\n".join(rows) + "\n")
