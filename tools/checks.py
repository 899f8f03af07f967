"""Which harnesses decide which property, within which bounds."""
ASSUMPTIONS = [
    "clang 18's lowering of the headers to LLVM IR (C++20, x86-64) and the executor hsmx (cross-checked on every run by replaying sampled paths on a g++ build)",
    "operator new never fails; std::terminate, abort, failed libstdc++ assertions and out-of-bounds / dangling / uninitialised accesses are violations",
    "the machines are the fixed and seeded random ones listed per job; user callbacks are the harness's recording functors, guards return arbitrary (symbolic) booleans that are constant within one process_event call",
]
ASPECT_ASSERT = {"STATE", "RET", "ACT", "ORDER", "ARGS", "GUARD", "UNEXP"}
DEF_HEAVY = 300

def mj(machine, aspects, covers=("event-processed",), name=None, **kw):
    d = ["CK_%s=1" % a for a in aspects.split()] + kw.pop("defs", [])
    need = [a for a in aspects.split() if a in ASPECT_ASSERT]
    if "LEAK" in aspects.split(): covers = list(covers) + ["destroyed"]
    if "SET" in aspects.split(): covers = list(covers) + ["set"]
    if "SETDEP" in aspects.split(): covers = list(covers) + ["set_dependency"]
    if "MOVE" in aspects.split(): covers = list(covers) + ["moved"]
    if "THROW" in aspects.split(): covers = list(covers) + ["thrown"]
    return dict(name=name or machine, machine=machine, defs=d, covers=list(covers), need_asserts=need, **kw)

def fj(file, name=None, **kw):
    kw.setdefault("covers", [])
    return dict(name=name or file, file=file + ".cpp", **kw)

def rnds(seed, n, aspects, base, kind="rnd", **kw):
    kw.setdefault("time", 200)
    return [mj("%s%d" % (kind, seed * 1000 + base + i), aspects, covers=[], **dict(kw, defs=list(kw.get("defs", [])))) for i in range(n)]

# deferral machines do not reach a fixpoint (the queue's buffer keeps stale bytes): complete up to a depth
def deferral(th, aspects, ms=("defer", "defer2", "defer3")):
    js = []
    for m in ms:
        js.append(mj(m, aspects, ["event-processed", "deferred-pending"], name=m + "_deep", defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=13 if th else 10, time=600 if th else 200))
        js.append(mj(m, aspects, ["event-processed", "deferred-pending"], name=m + "_wide", max_cp=6 if th else 5, time=600 if th else 200))
    return js

PROPS = {}
def prop(id, level="model_checking", **kw):
    def deco(f): PROPS[id] = dict(level=level, jobs=f, **kw); return f
    return deco
def many(ms, aspects, **kw): return [mj(m, aspects, **kw) for m in ms]

@prop("C01")
def c01(th, seed):
    a = "STATE ACT"
    return many(["flat", "sub", "ortho", "conflict", "internal", "order2", "lateinit", "orthosub0", "wide"], a) + [mj("big", a, time=600)] + rnds(seed, 40 if th else 3, a, 100) + rnds(seed, 20 if th else 2, a, 100, "rndw")

@prop("C02")
def c02(th, seed):
    a = "RET"
    return many(["flat", "internal", "ortho", "sub", "hist", "anon", "unexp", "unexp2"], a) + [mj(m, "RET RV", name=m + "_rvalue") for m in ["internal", "ortho", "unexp2"]] + deferral(th, a, ("defer", "defer2") if not th else ("defer", "defer2", "defer3")) + rnds(seed, 40 if th else 2, a, 200)

@prop("C03")
def c03(th, seed):
    a = "GUARD STATE ACT"
    return many(["flat", "conflict", "ortho", "order2", "internal", "anon", "sub", "wide"], a) + [mj("hist2", a + " SET RET", name="hist2_set"), mj("hist3", a)] + [mj(m, a, name=m + "_nonbool", defs=["FUNCTORS=3"]) for m in ["conflict", "anon4"]] + rnds(seed, 40 if th else 2, a, 300) + rnds(seed, 20 if th else 2, a, 300, "rndw")

@prop("C04")
def c04(th, seed):
    a = "ORDER"
    return many(["order", "order2", "sub", "ortho", "internal"], a) + many(["anon", "orthosub", "deep"] , a) + rnds(seed, 40 if th else 3, a, 400)

@prop("C05")
def c05(th, seed):
    a = "STATE ORDER RET"
    return many(["internal", "internal2", "internal3", "ortho", "conflict"], a) + rnds(seed, 30 if th else 3, a, 500, "rndi")

@prop("C06")
def c06(th, seed):
    a = "STATE ACT"
    return many(["conflict", "conflict2", "sub4", "internal2", "internal3", "anon4", "wide"], a) + rnds(seed, 30 if th else 2, a, 600, "rndc") + rnds(seed, 20 if th else 2, a, 600, "rndw")

@prop("C07")
def c07(th, seed):
    a = "STATE ORDER RET"
    return many(["sub", "sub2", "sub3", "sub4", "deep", "order", "orthosub", "orthosub0", "lateinit"], a) + [mj("big", a, time=600)] + rnds(seed, 30 if th else 3, a, 700, "rnds") + [fj("kf_nested_outer", covers=["stepped"])]

@prop("C08")
def c08(th, seed):
    a = "STATE"
    return many(["hist", "hist2", "orthohist", "orthohist2", "orthosub0", "hist3", "deep", "lateinit"], a) + [mj("hist2", "STATE SET", name="hist2_set")] + rnds(seed, 30 if th else 3, a, 800, "rndh")

@prop("C09")
def c09(th, seed):
    a = "STATE ORDER RET"
    return many(["ortho", "orthosub", "orthosub0", "orthohist", "orthohist2", "orthoshare", "ortho4", "wide", "lateinit"], a) + rnds(seed, 30 if th else 4, a, 900, "rndo") + [fj("kf_multireg_sub", covers=[]), fj("c09_siblings", covers=["stepped"])]

@prop("C10")
def c10(th, seed):
    a = "STATE ORDER RET GUARD"
    return many(["anon", "anon2", "anon3", "anon4", "anon5", "anonint", "forms3"], a) + [mj("anonrep", a, defs=["ANON_REP=9", "LOGMAX=90"]), mj("defer7", a, ["event-processed", "deferred-pending"], defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=16 if th else 12, time=500)] + rnds(seed, 30 if th else 3, a, 0, "rnda") + [fj("kf_anon_region", covers=["stepped"]), fj("c10_long", covers=["self", "cycle", "internal", "sub"], defs=["NMAX=250"] if th else [], time=600)]

@prop("C11")
def c11(th, seed):
    return deferral(th, "STATE ORDER RET ARGS UNEXP", ("defer", "defer2", "defer3", "defer4", "defer6", "defer7")) + [mj("defer5", "STATE ORDER RET ARGS", ["event-processed", "deferred-pending"], name="defer5_full", defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=13 if th else 11, time=600)] + [fj("c11_burst", covers=["delivered", "deferred-again", "empty", "destroyed-pending"], defs=["NMAX=200" if th else "NMAX=100"], time=600), fj("kf_defer_multi", covers=["stepped"])] + rnds(seed, 30 if th else 4, "STATE ORDER RET ARGS UNEXP", 0, "rndq", defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=8 if th else 6, time=300)

@prop("C12")
def c12(th, seed):
    a = "UNEXP STATE ACT RET"
    u = dict(covers=("event-processed", "unexpected"))
    return many(["unexp", "unexp2", "deps"], a + " RV", **u) + [mj(m, "UNEXP ARGS OBJ", name=m + "_obj", **u) for m in ["unexp", "unexp2", "deps"]] + [mj("defer7", a, ["event-processed", "deferred-pending", "unexpected"], defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=16 if th else 12, time=500)] + rnds(seed, 30 if th else 4, a, 0, "rndu")

@prop("C13")
def c13(th, seed):
    b = dict(defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"])
    sd = [mj(m, "STATE ORDER RET ARGS UNEXP SETDEP", ["event-processed"] + (["deferred-pending"] if m[:5] == "defer" else []), name=m + "_set", max_cp=7 if th else 5 + (m[:5] == "defer"), time=600 if th else 150, **(b if m[:5] == "defer" else {})) for m in ["deps", "deps2", "unexp2", "hist2", "orthosub", "defer2", "defer7"]]
    return sd + many(["deps", "unexp2", "deps2"], "ARGS UNEXP") + [fj("c13_setdep", covers=[], max_cp=9 if th else 6, time=600 if th else 200), fj("c13_same", covers=["set", "callback", "destroyed"], max_cp=7 if th else 5, time=600 if th else 200)] + rnds(seed, 20 if th else 2, "ARGS", 0, "rndd")

@prop("C14")
def c14(th, seed):
    return [fj("c14_data", covers=["callback", "handler", "set_dependency"], max_cp=6 if th else 5, time=700 if th else 300), mj("sub2", "ARGS OBJ", name="sub2_obj"), mj("hist2", "ARGS OBJ", name="hist2_obj"), mj("ortho", "ARGS OBJ", name="ortho_obj"), mj("internal", "ARGS OBJ", name="internal_obj")]

@prop("C15")
def c15(th, seed):
    return [fj("c15_custom", name="c15_custom" + n, defs=d, covers=["leave", "reuse", "destroyed", "factory-threw"], max_cp=8 if th else 6, time=700 if th else 300) for n, d in [("", []), ("_assignable", ["CUSTOM_ASSIGNABLE"])]]

@prop("C16")
def c16(th, seed):
    a = "STATE SET RET"
    return many(["flat", "hist2", "orthosub", "ortho", "orthoshare", "sub", "lateinit"] + (["sub2", "hist", "order2", "internal"] if th else []), a) + ([mj("orthohist2", a, time=700), mj("orthosub0", a, time=700)] if th else []) + [fj("c16_range", covers=[])] + [mj(m, a + " ORDER", ["event-processed", "deferred-pending"], name=m + "_set", defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=9 if th else 7, time=600) for m in ["defer2", "defer7"]]

@prop("C18")
def c18(th, seed):
    o = dict(opt="O0", explore=True)
    js = [mj(m, "LEAK STATE", name=m + "_O0", time=500 if th else 100, **o) for m in ["flat", "internal2", "anon3", "ortho", "hist2", "unexp", "deps"]]
    js += many(["sub2", "orthosub", "order", "internal", "hist"], "LEAK")
    js += [mj("defer2", "LEAK", ["event-processed", "deferred-pending"], defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=8 if th else 6, time=500)]
    js += [fj("c15_custom", covers=["destroyed"], max_cp=6 if th else 5, time=500), fj("c22_dunique", covers=["end"], max_cp=6, time=300), fj("c11_burst", covers=["destroyed-pending"], defs=["NMAX=12"], time=300), fj("c21_burst", covers=["destroyed-full"], defs=["NMAX=12"], time=300), fj("c18_ctor", covers=["constructed", "thrown", "destroyed"]), fj("c18_oom", covers=["constructed", "construction-failed", "deferral-failed", "set", "set-failed", "end"]), fj("c13_setdep", covers=["destroyed"], max_cp=6 if th else 5, time=300)]
    return js + rnds(seed, 20 if th else 2, "LEAK", 0, "rndl")

@prop("C19")
def c19(th, seed):
    a = "STATE ORDER RET ARGS GUARD"
    return many(["forms_dsl", "forms_tuple", "forms_prefix", "forms2_dsl", "forms2_tuple", "forms2_prefix", "forms3", "forms3t"], a) + [mj(m, a, name=m + "_" + n, defs=["FUNCTORS=%d" % i]) for m in ["forms_dsl", "forms2_tuple"] for i, n in [(1, "lambda"), (2, "chain"), (3, "nonbool")]] + many([g + "_" + fo for g in ("grid", "gridexit", "gridanon") for fo in ("dsl", "tuple", "prefix")], a) + [mj("gridinit%d_%s" % (k, fo), a, max_cp=10 if th else 5, time=600 if th else 200) for k in range(4) for fo in ("dsl", "tuple", "prefix")] + rnds(seed, 24 if th else 2, a, 0, "rndf")

@prop("C20")
def c20(th, seed):
    return [fj("c20_chain", covers=["1", "2", "4", "nested", "throw", "nothrow", "reuse", "machine", "results", "bool", "data", "lambda", "empty", "12"], max_cp=6, time=300)]

@prop("C21")
def c21(th, seed):
    return [fj("c21_vq", covers=["push", "visit", "empty", "reentrant", "throwing"], max_cp=8 if th else 7, time=600), fj("c21_burst", covers=["drained", "destroyed-full"], defs=["NMAX=200" if th else "NMAX=100"], time=600)]

@prop("C22")
def c22(th, seed):
    return [fj("c22_dunique", covers=[], max_cp=9 if th else 7, time=600)]

@prop("C23")
def c23(th, seed):
    a = "STATE ORDER RET THROW LEAK"
    js = [mj(m, a, ["event-processed", "thrown", "deferred-pending"], name=m + "_deep", defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=9 if th else 7, time=600) for m in ["defer", "defer2", "defer3"]]
    return js + many(["order", "ortho", "anon", "internal", "flat", "sub"], a) + [mj("unexp", a, ("event-processed", "thrown", "unexpected"))] + rnds(seed, 20 if th else 2, a, 0, "rndt")

@prop("C24")
def c24(th, seed):
    # the quick tier of representative checks of every other property, once more with hsm/gen/hsm.h in place of the headers
    def am(j, **kw): return dict(j, name=j["name"] + "_amalg", defs=j.get("defs", []) + ["USE_AMALG=1"], **kw)
    a = "STATE ORDER RET ARGS UNEXP"
    js = many(["flat", "order", "sub", "hist2", "orthohist", "internal", "anon", "deps", "conflict", "internal3", "unexp2", "forms2_prefix", "orthosub0", "lateinit", "anonint"], a)
    js += [mj("defer7", a, ["event-processed", "deferred-pending"], defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=12 if th else 9, time=300), fj("c18_oom", covers=["constructed", "construction-failed", "deferral-failed", "end"]), fj("c18_ctor", covers=["constructed", "thrown", "destroyed"]), fj("c25_mixed", covers=["m1", "m2", "m3", "destroyed"], time=300), fj("c13_same", covers=["set", "callback", "destroyed"], max_cp=4, time=300)]
    js += [mj("defer", a, ["event-processed", "deferred-pending"], defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=10 if th else 8, time=300)]
    js += [mj("order2", "GUARD STATE ORDER THROW LEAK", name="order2_throw"), mj("flat", "STATE SET RET", name="flat_set"), mj("hist4", "STATE ORDER RET MOVE", name="hist4_two", defs=["NINST=2"]), mj("orthosub", "STATE SET RET", name="orthosub_set")]
    js += [fj("c27_event", covers=["touched"]), fj("c13_setdep", max_cp=6, time=300), fj("c14_data", covers=["callback", "handler", "set_dependency"], max_cp=4, time=300), fj("c15_custom", covers=["leave", "reuse", "destroyed", "factory-threw"], max_cp=5, time=300), fj("c16_range"),
           fj("c20_chain", covers=["1", "2", "4", "nested", "throw", "nothrow", "reuse", "machine", "results", "bool", "data", "lambda", "empty", "12"], max_cp=6, time=300),
           fj("c21_vq", max_cp=5, time=300), fj("c21_burst", covers=["drained", "destroyed-full"], defs=["NMAX=12"]), fj("c11_burst", covers=["delivered", "deferred-again"], defs=["NMAX=12"]), fj("c22_dunique", max_cp=6, time=300)]
    return [am(j) for j in js + rnds(seed, 20 if th else 2, a, 50)]

@prop("C25")
def c25(th, seed):
    js = [mj("anon3", "STATE ORDER RET MOVE", name="anon3_two", defs=["NINST=2"]), mj("conflict0", "STATE ORDER RET MOVE LEAK", name="conflict0_two", defs=["NINST=2"]), mj("hist4", "STATE ORDER RET MOVE", name="hist4_two", defs=["NINST=2"]),
          mj("defer0", "STATE ORDER RET MOVE", ["event-processed", "deferred-pending", "moved"], name="defer0_two", defs=["NINST=2", "PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=7 if th else 6, time=500),
          mj("order", "STATE ORDER RET MOVE LEAK", name="order_move"), mj("deps", "STATE ARGS UNEXP MOVE", name="deps_move"), fj("c14_data", name="data_two", defs=["NINST=2"], covers=["callback"], max_cp=4, time=500), fj("c25_mixed", covers=["m1", "m2", "m3", "destroyed"], time=600), fj("c25_vector", covers=["grown", "erased", "rotated", "reallocated", "deferred", "recalled", "destroyed"], defs=["STEPS=5"] if th else [], time=1500 if th else 400)]
    return js

@prop("C27")
def c27(th, seed):
    return [fj("c27_event", covers=["touched", "touched-twice"])] + many(["order", "internal", "ortho", "unexp", "hist2", "anon", "sub2"], "ARGS RV") + [mj("defer", "ARGS RV", ["event-processed", "deferred-pending"], defs=["PAYLOAD_BITS=1", "PAYLOAD_CONCRETE=1"], max_cp=8 if th else 6, time=300)]

def jobs(prop, tier, seed):
    return PROPS[prop]["jobs"](tier == "thorough", seed)
