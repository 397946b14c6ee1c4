#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "<!-- planted bugs -->\n"
d = open(V + "/DESIGN.md").read().split(M)[0]
d += M + "| bug | caught by | needs | breaks |\n|---|---|---|---|\n"
for x in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, x)))
    d += "| %s | %s | %s | %s |\n" % (x, m["property"], m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"))
open(V + "/DESIGN.md", "w").write(d)
