"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| bug | property | needs |", "|---|---|---|"]
for p in sorted(glob.glob("seeded*/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (p.split("/")[1], m["property"], m["needs"].replace("|", "/")))
s = open("DESIGN.md").read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open("DESIGN.md", "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])
