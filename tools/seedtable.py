#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append("| %s | %s | %s |" % (d, m["needs"].strip().rstrip(".").replace("|", "/"), m.get("caught_by", m["property"])))
s = open(V + "/DESIGN.md").read()
t = "<!-- seedtable -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seedtable -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
