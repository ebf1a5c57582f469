#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
rows = ["| planted bug | breaks | needs | caught by (quick) | |", "|---|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["needs"].replace("|", "/"), d.get("caught_by", d["property"]), d.get("history", "")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
