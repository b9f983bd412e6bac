#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
missed = {}
p = os.path.join(H, "tools", "missed.json")
if os.path.exists(p):
    missed = json.load(open(p))
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    by = m["property"] + (" (" + missed[d] + ")" if d in missed else "")
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), by))
f = H + "/DESIGN.md"
t = open(f).read()
b, e = "<!-- planted -->", "<!-- /planted -->"
t = t[:t.index(b) + len(b)] + "\n" + "\n".join(rows) + "\n" + t[t.index(e):]
open(f, "w").write(t)
