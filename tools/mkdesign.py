#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, "seeded")
rows = ["<!-- planted -->", "| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
notes = {}
q = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(q):
    notes = json.load(open(q))
for n in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, n, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], notes.get(n, m["property"])))
rows.append("<!-- end -->")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
if "@@SEEDED@@" in s:
    s = s.replace("@@SEEDED@@", "\n".join(rows))
else:
    s = re.sub(r"<!-- planted -->.*<!-- end -->", lambda _: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
