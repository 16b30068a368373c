#!/usr/bin/env python3
"""development tool: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (first-missed notes below)"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISS = json.load(open(V + "/tools/missed.json"))
rows = ["| planted bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f)); n = MISS.get(i)
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), "quick check of %s%s" % (m["property"], "; missed at first, then " + n if n else "")))
t = open(V + "/DESIGN.md").read(); k = "<!-- seeds -->"
t = t[:t.index(k)] if k in t else t.replace("SEEDTABLE\n", "")
open(V + "/DESIGN.md", "w").write(t.rstrip("\n") + "\n" + k + "\n" + "\n".join(rows) + "\n")
