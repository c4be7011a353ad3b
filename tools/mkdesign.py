#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|----|----|----|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m.get("missed") and "missed: " + m["missed"] or m["property"], m["needs"].replace("|", "/")))
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
d = open(V + "/DESIGN.md").read()
d = re.sub(r"^SEEDED$|<!-- seeded -->.*<!-- /seeded -->", lambda _: t, d, flags=re.S | re.M)
open(V + "/DESIGN.md", "w").write(d)
