#!/usr/bin/env python3
"""Inlines include/hsm/hsm.h the way upstream's quom step does (used once for the regeneration commit)."""
import re, sys, os
root = sys.argv[1]; out = []; seen = set()
def inc(p):
    p = os.path.normpath(p)
    if p in seen: return
    seen.add(p)
    first = True
    for l in open(p).read().split("\n"):
        if re.match(r"\s*#pragma once", l):
            if p.endswith("hsm/hsm.h"): out.append(l)
            continue
        m = re.match(r'\s*#include "(.*)"', l)
        if m:
            q = os.path.join(root, m.group(1))
            if not os.path.exists(q): q = os.path.join(os.path.dirname(p), m.group(1))
            inc(q); continue
        m = re.match(r"\s*#include <(.*)>", l)
        if m:
            if m.group(1) in seen: continue
            seen.add(m.group(1))
        out.append(l)
inc(os.path.join(root, "hsm/hsm.h"))
t = "\n".join(out)
t = re.sub(r"\n{3,}", "\n\n", t).strip() + "\n"
sys.stdout.write(t)
