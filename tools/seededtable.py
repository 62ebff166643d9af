#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.txt"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(V, "tools/caught.txt")):
    t = l.split()
    if len(t) >= 2 and not l.startswith("#"): caught[t[0]] = " ".join(t[1:])
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f)); i = f.split("/")[-2]
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, 'not yet run')} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s.split("## Planted bugs")[0]
open(p, "w").write(head + "## Planted bugs and the checks that catch them\n\n" + "\n".join(rows) + "\n")
