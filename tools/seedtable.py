#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md from /verif/seeded/*/meta.json"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s: %s | %s | %s |" % (i, d["what_it_breaks"], d["property"], d.get("caught_by", d["property"] + " quick")))
p = here + "/DESIGN.md"; s = open(p).read()
tab = "| planted bug | property | caught by |\n|---|---|---|\n"
a = s.index(tab) + len(tab); b = s.index("\n\n", a)
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:])
