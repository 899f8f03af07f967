#!/usr/bin/env python3
"""Rewrites the planted-bug table in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
by = {}
for f in sorted(glob.glob("seeded/*/meta.json")): by.setdefault(json.load(open(f))["property"], []).append(f.split("/")[1])
t = "Planted bug → quick checks that report it:\n\n| check | planted bugs it reports |\n|---|---|\n" + "\n".join("| %s | %s |" % (p, ", ".join(by[p])) for p in sorted(by))
s = open("DESIGN.md").read()
open("DESIGN.md", "w").write(re.sub(r"(<!-- table:begin -->\n).*(\n<!-- table:end -->)", lambda m: m[1] + t + m[2], s, flags=re.S))
