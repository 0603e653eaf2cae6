#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below plus the tables made from seeded/*/meta.json, tools/seed/results.txt and known-findings.txt."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = open(os.path.join(root, "tools", "design.md")).read()
res = {}
p = os.path.join(root, "tools", "seed", "results.txt")
if os.path.exists(p):
    for l in open(p):
        f = l.split()
        if len(f) >= 6: res[f[0]] = f[-1]
rows = []
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], e(j["needs"]), e(j["what_it_breaks"]), res.get(i, "not run").lower()))
table = "| change | property | needs | breaks | quick check of the property |\n|---|---|---|---|---|\n" + "\n".join(rows)
fixed = []
for l in open(os.path.join(root, "known-findings.txt")):
    if l.startswith("fixed:"):
        _, pr, c, what = l.split(None, 3)
        fixed.append("| %s | %s | %s |" % (pr.split("=")[1], c, what.strip()))
ftable = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(fixed)
open(os.path.join(root, "DESIGN.md"), "w").write(D.replace("@@SEEDED@@", table).replace("@@FIXED@@", ftable))
