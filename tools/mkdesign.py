#!/usr/bin/env python3
"""Writes the seed table of DESIGN.md (between the markers) from tools/seeds/*.py and seed-results.txt."""
import glob, os, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
rows = []
res = {}
rf = os.path.join(HERE, "seed-results.txt")
if os.path.exists(rf):
    for l in open(rf):
        k, _, v = l.strip().partition(" ")
        res[k] = v
for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
    for s in runpy.run_path(f)["SEEDS"]:
        rows.append("| %s | %s | %s | %s | %s |" % (s["id"], s["property"], s["needs"], s["breaks"], res.get(s["id"], "caught by " + s["property"])))
p = os.path.join(os.path.dirname(HERE), "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "| planted bug | property | needs | breaks | result |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n" + t[j:])
