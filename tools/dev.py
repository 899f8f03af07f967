#!/usr/bin/env python3
"""Developer helper: tools/dev.py "DEF=1 DEF2=2" item... ; item = machine name or harness file name."""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, machines, checks
from concurrent.futures import ThreadPoolExecutor
defs = [d if "=" in d else "CK_%s=1" % d for d in sys.argv[1].split()]
eng = os.environ.get("ENG", "").split()
opt = os.environ.get("OPT", "O1")
wd = tempfile.mkdtemp(prefix="dev_", dir="/tmp")
def one(n):
    j = dict(name=n, defs=defs, opt=opt)
    if os.path.exists(os.path.join(run.VERIF, "harness", n + ".cpp")): j["file"] = n + ".cpp"
    else: j["machine"] = n
    try:
        src = run.materialise(j, wd); bc = run.compile_bc(j, src, wd); out = os.path.join(wd, n + ".json")
        rc, o, e = run.sh([os.path.join(run.BUILD, "hsmx"), bc, "--out", out, "--time", os.environ.get("TIME", "150"), *eng], 400)
        if not os.path.exists(out): return f"{n}: rc={rc} {e[-400:]}"
        r = json.load(open(out)); s = r["stats"]
        t = f"{n}: rc={rc} {'CLOSED' if s['closure'] else 'open'} depth {s['max_depth']} states {s['distinct_states']} paths {s['paths']} asserts {s['asserts']} {s['wall_s']}s {s.get('incomplete','')} covers {sorted(r['covers'])}"
        for v in r["violations"][:2]:
            ok, how = run.confirm(j, src, wd, v)
            t += f"\n   {v['kind']} {v['msg']} {v['vals']} confirmed={ok} {how[:160]} {v.get('stack', [])[:4]}"
        return t
    except Exception as ex: return f"{n}: {ex}"
try:
    with ThreadPoolExecutor(8) as ex:
        for t in ex.map(one, sys.argv[2:]): print(t, flush=True)
finally: shutil.rmtree(wd)
