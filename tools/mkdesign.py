#!/usr/bin/env python3
"""fills the tables of notes/DESIGN.in.md into DESIGN.md"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "notes", "DESIGN.in.md")).read()
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s: %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"], m["property"], m.get("caught_by", m["property"])))
na = ["* **%s**: %s" % (x["property"], x["reason"]) for x in json.load(open(os.path.join(V, "MANIFEST.json")))["not_applicable"]]
t = t.replace("@@SEEDED@@", "\n".join(rows)).replace("@@NA@@", "\n".join(na) or "None.").replace("@@ROWS@@\n", "").replace("@@CORR@@\n", "")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
