#!/usr/bin/env python3
"""Check driver:  tools/run.py <PROPERTY> [quick|thorough]

For every job of the property: (re)generate the harness, compile it together with /repo's current
headers to LLVM IR, execute it symbolically (build/hsmx), replay counterexamples on native builds,
co-simulate sampled paths natively, check vacuity witnesses, and write evidence/<PROPERTY>.json."""
import json, os, subprocess, sys, tempfile, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen, machines, checks
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = int(os.environ.get("VP_JOBS", "8"))

def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else "", ""

class CheckError(Exception): pass

COMMON = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "include")]

def materialise(job, wd):
    src = os.path.join(wd, job["name"] + ".cpp")
    if "machine" in job:
        m = machines.get(job["machine"])
        txt = gen.emit(m)
    elif "text" in job:
        txt = job["text"]
    else:
        txt = open(os.path.join(VERIF, "harness", job["file"])).read()
    with open(src, "w") as f:
        f.write(txt)
    return src

def defs(job): return ["-D" + d for d in job.get("defs", [])] + ["-include" + os.path.join(VERIF, "harness", f) for f in job.get("preinclude", [])]

def compile_bc(job, src, wd):
    bc = os.path.join(wd, job["name"] + ".bc")
    if job.get("opt", "O1") == "O1":
        c = ["clang++", *defs(job), *COMMON, "-fbracket-depth=4096", "-Wno-c++11-narrowing", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-gline-tables-only", "-w", "-emit-llvm", "-c", src, "-o", bc]
        rc, o, e = sh(c, 600)
    else:
        c = ["clang++", *defs(job), *COMMON, "-fbracket-depth=4096", "-Wno-c++11-narrowing", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w", "-emit-llvm", "-c", src, "-o", bc + ".0"]
        rc, o, e = sh(c, 600)
        if rc == 0: rc, o, e = sh(["opt-18", "-passes=mem2reg", bc + ".0", "-o", bc], 300)
    if rc != 0: raise CheckError(f"{job['name']}: harness does not compile: " + "\n".join([l for l in e.splitlines() if "error" in l][:6]))
    return bc

NATIVE = {
    "gcc": ["g++", "-O1", "-w"],
    "asan": ["clang++", "-fbracket-depth=4096", "-Wno-c++11-narrowing", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "msan": ["clang++", "-fbracket-depth=4096", "-Wno-c++11-narrowing", "-O1", "-g", "-w", "-fsanitize=memory"],
}
def native(job, src, wd, kind):
    exe = os.path.join(wd, job["name"] + "." + kind)
    if os.path.exists(exe): return exe
    c = [*NATIVE[kind], *defs(job), *COMMON, src, os.path.join(BUILD, f"vp_{kind}.o"), "-o", exe]
    rc, o, e = sh(c, 600)
    if rc != 0: raise CheckError(f"{job['name']}: native {kind} build failed: " + e[-600:])
    return exe

def run_trace(exe, vals, cps, wd, timeout=20):
    fd, tr = tempfile.mkstemp(dir=wd, suffix=".tr"); os.close(fd)
    with open(tr, "w") as f: f.write(f"{cps} {len(vals)} " + " ".join(str(v) for v in vals) + "\n")
    env = dict(os.environ, VP_TRACE=tr, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98", MSAN_OPTIONS="exitcode=97")
    rc, o, e = sh([exe], timeout, env)
    os.unlink(tr)
    return rc, o, e

def confirm(job, src, wd, v):
    """Replay a counterexample on real builds; returns (confirmed, how)."""
    vals = [x[1] for x in v["vals"]]
    cps = v.get("cps", 0)
    kinds = {"assert": ["gcc", "asan", "msan"], "uninit": ["msan", "asan", "gcc"], "memory": ["asan", "gcc"], "libassert": ["gcc", "asan"]}.get(v["kind"], ["asan", "gcc"])
    how = []
    for k in kinds:
        try: exe = native(job, src, wd, k)
        except CheckError as ex:
            how.append(str(ex)); continue
        rc, o, e = run_trace(exe, vals, 10**9 if v["kind"] != "assert" else max(cps, 1) + 10**6, wd)
        txt = o + e
        if "VP_ASSERT_FAIL" in txt:
            return True, f"{k}: " + [l for l in o.splitlines() if "VP_ASSERT_FAIL" in l][0]
        if rc in (97, 98, 99) or "Sanitizer" in txt:
            l = [l for l in txt.splitlines() if "Sanitizer" in l or "runtime error" in l]
            return True, f"{k}: " + (l[0] if l else f"sanitizer exit {rc}")
        if rc == "timeout":
            if v["kind"] in ("nontermination", "recursion"): return True, f"{k}: does not terminate"
            how.append(f"{k}: timeout"); continue
        if isinstance(rc, int) and (rc < 0 or rc in (134, 139)):
            return True, f"{k}: killed by signal {-rc if rc < 0 else rc - 128}: " + e.strip().splitlines()[0][:160] if e.strip() else f"{k}: crash {rc}"
        how.append(f"{k}: rc={rc} {o.strip().splitlines()[-1:] }")
    return False, "; ".join(how)

def run_job(job, wd, tier, seed):
    t0 = time.time()
    src = materialise(job, wd)
    res = dict(name=job["name"])
    bc = compile_bc(job, src, wd)
    res["compile_s"] = round(time.time() - t0, 2)
    out = os.path.join(wd, job["name"] + ".json")
    lim = job.get("time", 300)
    c = [os.path.join(BUILD, "hsmx"), bc, "--out", out, "--time", str(lim), "--samples", str(job.get("samples", 6)), "--seed", str(seed), "--max-violations", str(job.get("max_violations", 3))]
    if "max_cp" in job: c += ["--max-checkpoints", str(job["max_cp"])]
    rc, o, e = sh(c, lim + 120)
    if rc not in (0, 1, 4) or not os.path.exists(out):
        raise CheckError(f"{job['name']}: executor rc={rc} {e.strip()[-800:]} {o.strip()[-300:]}")
    j = json.load(open(out)); s = j["stats"]
    res.update(stats=s, violations=[], unconfirmed=[], samples=j["samples"], covers=j["covers"], hsm_lines=j["hsm_lines"], asserts=j["asserts"], rc=rc)
    for v in j["violations"]:
        ok, how = confirm(job, src, wd, v)
        v["confirmed_by"] = how
        (res["violations"] if ok else res["unconfirmed"]).append(v)
    res["incomplete"] = None
    if not j["violations"]:
        if rc == 4:
            if job.get("explore") or s["max_depth"] >= 4: res["incomplete"] = f"time bound {lim}s reached; complete up to checkpoint depth {max(0, s['max_depth'] - 1)}"
            else: raise CheckError(f"{job['name']}: inconclusive, {lim}s used up at depth {s['max_depth']} with {s['distinct_states']} states")
        if not s["closure"] and s["checkpoints"] and "max_cp" not in job and not res["incomplete"]:
            raise CheckError(f"{job['name']}: state space not closed")
        # vacuity
        miss = [c for c in job.get("covers", []) if c not in j["covers"]]
        if miss: raise CheckError(f"{job['name']}: vacuous, cover labels never reached: {miss}")
        miss = [p for p in job.get("need_asserts", []) if not any(a.startswith(p) for a in j["asserts"])]
        if miss: raise CheckError(f"{job['name']}: vacuous, assertions never reached: {miss}")
    # co-simulation of sampled paths against the real build
    n = 0
    if not j["violations"] and job.get("samples", 6):
        exe = native(job, src, wd, "gcc")
        for smp in j["samples"]:
            vals = [x[1] for x in smp["vals"]]
            rc2, o2, e2 = run_trace(exe, vals, smp["cps"], wd)
            obs = [int(l.split()[1]) for l in o2.splitlines() if l.startswith("OBS ")]
            if obs[:len(smp["obs"])] != smp["obs"] or "VP_ASSERT_FAIL" in o2 or (isinstance(rc2, int) and rc2 < 0) or rc2 == "timeout":
                raise CheckError(f"{job['name']}: co-simulation mismatch: native rc={rc2} obs={obs[:8]} engine={smp['obs'][:8]} vals={vals} {e2[-300:]}")
            n += 1
    res["validated"] = n
    res["wall"] = round(time.time() - t0, 2)
    return res

def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    rc, o, e = sh(["bash", os.path.join(VERIF, "tools", "setup.sh")], 1500)
    if rc != 0: print("setup failed", e[-2000:]); return 2
    jobs = checks.jobs(prop, tier, seed)
    spec = checks.PROPS[prop]
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=prop + "_", dir=os.path.join(BUILD, "work"))
    errors, results = [], []
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            fs = {ex.submit(run_job, j, wd, tier, seed): j for j in jobs}
            for f in as_completed(fs):
                j = fs[f]
                try: results.append((j, f.result()))
                except CheckError as er: errors.append(str(er))
                except Exception as er: errors.append(f"{j['name']}: {type(er).__name__} {er}")
    finally:
        viol, known, knownhits = [], [k for k in load_known() if k["property"] == prop and k["status"] == "known"], []
        rdir = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rdir, exist_ok=True)
        for j, r in results:
            for v in r["violations"]:
                hit = None
                for k in known:
                    if k["job"] == j["name"] and any(s["kind"] == v["kind"] and v["msg"].startswith(s["msg"]) for s in [k, *k.get("also", [])]): hit = k
                if hit:
                    if hit not in knownhits: knownhits.append(hit)
                    continue
                viol.append((j, r, v))
            for v in r["unconfirmed"]:
                errors.append(f"{j['name']}: counterexample not reproduced natively: {v['kind']} {v['msg']} ({v['confirmed_by']}) vals={v['vals']} stack={v.get('stack', [])[:6]}")
        out = []
        for i, (j, r, v) in enumerate(viol):
            base = os.path.join(rdir, f"{prop}_{j['name']}_{i}")
            vals = [x[1] for x in v["vals"]]
            with open(base + ".trace", "w") as f: f.write(f"1000000000 {len(vals)} " + " ".join(map(str, vals)) + "\n")
            shutil.copy(os.path.join(wd, j["name"] + ".cpp"), base + ".cpp")
            with open(base + ".json", "w") as f:
                json.dump(dict(property=prop, job=j["name"], kind=v["kind"], msg=v["msg"], stack=v.get("stack"), inputs=v["vals"], confirmed_by=v["confirmed_by"],
                    replay=f"g++ -O1 -w {' '.join(defs(j) + COMMON)} {base}.cpp {BUILD}/vp_gcc.o -o /tmp/replay && VP_TRACE={base}.trace /tmp/replay"), f, indent=1)
            out.append(f"VIOLATION property={prop} replay={base}.json")
            print(f"{j['name']}: {v['kind']}: {v['msg']} inputs={v['vals'][:24]} [{v['confirmed_by']}]")
        shutil.rmtree(wd, ignore_errors=True)
    for k in knownhits: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for l in out: print(l)
    tot = lambda key: sum(r["stats"][key] for _, r in results)
    lines = {}
    for _, r in results:
        for f, l in r["hsm_lines"].items(): lines.setdefault(f, set()).update(l)
    samples = []
    for j, r in results:
        for s in r["samples"][:1]: samples.append(dict(job=j["name"], inputs=[f"{a}={b}" for a, b in s["vals"][:30]], observations=s["obs"][:12]))
    closed = [j["name"] for j, r in results if r["stats"]["closure"] and r["stats"]["checkpoints"]]
    bounded = [dict(job=j["name"], depth=(j.get("max_cp") or r["stats"]["max_depth"]), note=r["incomplete"] or "all paths up to this many steps") for j, r in results if j["name"] not in closed and r["stats"]["checkpoints"]]
    straight = [j["name"] for j, r in results if not r["stats"]["checkpoints"]]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=tot("distinct_states") + tot("paths"), transitions=tot("paths") + tot("merged") , traces_validated_against_impl=sum(r["validated"] for _, r in results),
            samples=samples[:8], exhaustive=not bounded,
            explanation="Symbolic execution of the LLVM IR of /repo's headers (instantiated by the harness) with events, guard outcomes and payloads as solver variables; "
                        "states = distinct canonical program states at step boundaries plus terminated paths, transitions = symbolic path segments. Closed jobs reached a fixpoint: every history of any length of that machine is covered. "
                        "Bounded jobs are complete up to the stated depth. Nothing is claimed for machines, sizes or depths outside these.",
            jobs=[dict(job=j["name"], harness=j.get("machine") or j.get("file"), ir=j.get("opt", "O1"), paths=r["stats"]["paths"], merged=r["stats"]["merged"], states=r["stats"]["distinct_states"], queries=r["stats"]["queries"], query_cache_hits=r["stats"]["query_cache_hits"], sat=r["stats"]["sat"], unsat=r["stats"]["unsat"], solver_s=r["stats"]["solver_s"], asserts=r["stats"]["asserts"], memory_obligations=r["stats"]["memory_obligations"], instructions=r["stats"]["instructions"], functions=r["stats"]["functions"], wall_s=r["wall"]) for j, r in results],
            closed_jobs=closed, bounded_jobs=bounded, loop_free_jobs=straight,
            queries=tot("queries"), solver_s=round(tot("solver_s"), 3), assertions_checked=tot("asserts"), memory_obligations=tot("memory_obligations"),
            functions_encoded=sum(r["stats"]["functions"] for _, r in results), library_functions_encoded=sum(r["stats"]["hsm_functions"] for _, r in results),
            library_lines_executed={f: len(l) for f, l in sorted(lines.items())}, known_findings=[k["what"] for k in knownhits], errors=errors),
        assumptions=spec.get("assumptions", []) + checks.ASSUMPTIONS)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)}/{len(jobs)} jobs, states {ev['coverage']['states']}, transitions {ev['coverage']['transitions']}, queries {ev['coverage']['queries']}, asserts {ev['coverage']['assertions_checked']}, {ev['wall_s']}s")
    if viol: return 1
    if errors:
        for er in errors: print("ERROR", er)
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
