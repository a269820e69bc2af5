#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(V + "/notes/DESIGN.in.md").read()
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s | `check.py %s` |" % (d, m["property"], m["what_it_breaks"], m["needs"], m["property"]))
icpp = V + "/notes/icpp_mutants.md"
s = s.replace("SEEDTABLE", "\n".join(rows)).replace("`ICPPTABLE`", open(icpp).read() if os.path.exists(icpp) else "")
open(V + "/DESIGN.md", "w").write(s)
