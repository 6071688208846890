#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"n01-clone-leak": "A01", "p09-accept-emfile": "P08"}
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    by = m["property"] + (", " + ALSO[d] if d in ALSO else "")
    cut = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, cut(m["what_it_breaks"]), cut(m["needs"]), by))
p = V + "/DESIGN.md"; s = open(p).read(); mark = "<!-- planted bugs -->\n"
s = s.split(mark)[0].rstrip("\n") + "\n\n" + mark + "| bug | what it breaks | what it needs | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
