#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(root + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], f.split("/")[-2], m["needs"]))
rows.sort()
t = "| bug | property | needs |\n|---|---|---|\n" + "".join(f"| {b} | {p} | {n} |\n" for p, b, n in rows)
d = open(root + "/DESIGN.md").read()
a = d.index("| bug | property |")
b = d.index("\n\n", a)
open(root + "/DESIGN.md", "w").write(d[:a] + t.rstrip("\n") + d[b:])
