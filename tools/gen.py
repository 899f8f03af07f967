"""Machine descriptions -> (a) an hsm transition-table definition in the library's DSL and
(b) an independent, statically elaborated reference table (harness/ref.h interprets it).
The elaboration below is written from the documented semantics (README / UML), not from the
library's metaprogram."""
from dataclasses import dataclass, field
import random

@dataclass
class Row:
    src: str
    ev: str            # event name, or None for anonymous
    dst: str
    g: object = True   # True: has guard; False: none
    a: object = True
    form: str = "dsl"  # dsl | tuple | prefix
    id: int = -1
    gi: object = None  # share the guard / action functor type of another row
    ai: object = None

@dataclass
class IRow:
    ev: str
    g: object = True
    a: object = True
    id: int = -1
    form: str = "dsl"  # dsl | tuple
    gi: object = None
    ai: object = None

def gid(r): return r.id if r.gi is None else r.gi
def aid(r): return r.id if r.ai is None else r.ai

def R(src, ev, dst, opts="ga", form="dsl"):
    return Row(src, ev, dst, "g" in opts, "a" in opts, form)

def I(ev, opts="ga", form="dsl"):
    return IRow(ev, "g" in opts, "a" in opts, form=form)

@dataclass
class Machine:
    name: str
    events: list
    tables: dict                       # "Root" and sub names -> [Row]
    entry: set = field(default_factory=set)
    exit: set = field(default_factory=set)
    internal: dict = field(default_factory=dict)   # state -> [IRow]
    defer: dict = field(default_factory=dict)      # state -> [events]
    unexpected: bool = False
    deps: int = 0
    qmax: int = 2
    noarg: set = field(default_factory=set)

# ----------------------------------------------------------------- elaboration
def parse(s):
    """-> (kind, parent, state): kind in plain/init/exit/entry/direct/hist"""
    if s.startswith("*"):
        return ("init", None, s[1:])
    if ":" in s:
        p = s.split(":")
        return (p[0], p[1], p[2] if len(p) > 2 else None)
    return ("plain", None, s)

class Elab:
    def __init__(self, m: Machine):
        self.m = m
        k = 0
        for t in m.tables.values():
            for r in t:
                r.id = k; k += 1
        for t in m.internal.values():
            for r in t:
                r.id = k; k += 1
        self.nrows = k
        assert k < 62
        # state type ids
        self.tid = {}
        for p, rows in m.tables.items():
            self._tid(p)
            for r in rows:
                for s in (r.src, r.dst):
                    kd, par, st = parse(s)
                    if par: self._tid(par)
                    if st: self._tid(st)
        self.subs = set(m.tables) - {"Root"}
        self.combos = []
        self.par_initial = {}
        for p, rows in m.tables.items():
            self.par_initial[p] = []
            for r in rows:
                kd, par, st = parse(r.src)
                if kd == "init" and st not in self.par_initial[p]:
                    self.par_initial[p].append(st)
        for p in m.tables:
            for st in self.children(p):
                self._combo(p, st)
        self.nreg = len(self.par_initial["Root"])
        self.events = list(m.events)
        # which root regions a configuration can belong to (bit mask)
        self.regs = {c: 0 for c in self.combos}
        for i, s0 in enumerate(self.par_initial["Root"]):
            seen, todo = set(), [("Root", s0)]
            while todo:
                p, s = todo.pop()
                if (p, s) in seen: continue
                seen.add((p, s))
                if (p, s) in self.regs: self.regs[(p, s)] |= 1 << i
                if s in m.tables:
                    todo += [(s, c) for c in self.children(s)]
                for q, rows in m.tables.items():
                    for r in rows:
                        kd, par, st = parse(r.src)
                        if (par or q, st) != (p, s): continue
                        dk, dpar, dst = parse(r.dst)
                        if dpar:
                            todo += [(dpar, c) for c in self.children(dpar)]
                        else: todo.append((q, dst))
        self.entries = {}
        for p, st in self.combos:
            for e in self.events + [None]:
                self.entries[(p, st, e)] = []
        self.build()

    def _tid(self, s):
        self.tid.setdefault(s, len(self.tid))

    def _combo(self, p, s):
        if (p, s) not in self.combos: self.combos.append((p, s))

    def children(self, p):
        """substates of p: everything named plainly in its table, plus states named from outside through pseudo states"""
        out = []
        def add(x):
            if x not in out: out.append(x)
        for r in self.m.tables[p]:
            for s in (r.src, r.dst):
                kd, par, st = parse(s)
                if kd in ("plain", "init"): add(st)
        for q, rows in self.m.tables.items():
            for r in rows:
                for s in (r.src, r.dst):
                    kd, par, st = parse(s)
                    if par == p and st: add(st)
        return out

    def own_children(self, p):
        out = []
        for r in self.m.tables[p]:
            for s in (r.src, r.dst):
                kd, par, st = parse(s)
                if kd in ("plain", "init") and st not in out: out.append(st)
        return out

    def flatten(self, p):
        out = []
        for r in self.m.tables[p]:
            out.append((p, r))
            kd, par, st = parse(r.dst)
            sub = par if par else st
            if sub in self.subs: out += self.flatten(sub)
        return out

    def build(self):
        m = self.m
        # --- internal transitions (lowest priority), outer scopes below inner ones
        seen, pairs = set(), []
        def addpair(p, s):
            if (p, s) not in seen: seen.add((p, s)); pairs.append((p, s))
        addpair("Root", "Root")
        flat = self.flatten("Root")
        for p, r in flat:
            kd, par, st = parse(r.src)
            if kd in ("plain", "init"): addpair(p, st)
            kd, par, st = parse(r.dst)
            if kd in ("plain", "init"): addpair(p, st)
        done = set()
        for p, s in pairs:
            for ir in m.internal.get(s, []):
                if s in m.tables: where = [(s, c) for c in self.own_children(s)]
                else: where = [(p, s)]
                for (pp, ss) in where:
                    if (pp, ss, ir.id) in done: continue
                    done.add((pp, ss, ir.id))
                    t = self.tid[ss]
                    self.push(pp, ss, ir.ev, dict(kind="K_INT", guard=gid(ir) if ir.g else -1, act=aid(ir) if ir.a else -1,
                              target=(pp, ss), hist=None, exitid=-1, entid=-1, ent2=-1, src=t, tgt=t))
        # --- external transitions
        for p, r in flat:
            kd, par, st = parse(r.src)
            sp = par if par else p
            dk, dpar, dst = parse(r.dst)
            hist = None
            ent, ent2 = -1, -1
            tgtobj = None
            if dk == "hist":
                tp, ts = dpar, self.par_initial[dpar][0]; hist = dpar; tgtobj = "any"
            elif dk in ("entry", "direct"):
                tp, ts = dpar, dst
            elif dst in self.subs:
                tp, ts = dst, self.par_initial[dst][0]
                if dst in m.entry: ent = self.tid[dst]
                if ts in m.entry: ent2 = self.tid[ts]
            else:
                tp, ts = p, dst
                if dst in m.entry: ent = self.tid[dst]
            ex = -1
            if kd in ("plain", "init") and st in m.exit: ex = self.tid[st]
            if kd == "exit" and par in m.exit: ex = self.tid[par]
            d = dict(kind="K_EXT", guard=gid(r) if r.g else -1, act=aid(r) if r.a else -1, target=(tp, ts), hist=hist,
                     exitid=ex, entid=ent, ent2=ent2, src=self.tid[st], tgt="T_ANY" if tgtobj else self.tid[ts])
            if kd in ("plain", "init") and st in self.subs:
                for c in self.children(st):
                    self.push(st, c, r.ev, dict(d))
            else:
                self.push(sp, st, r.ev, d)
        # --- deferral (highest): in every place where the state occurs, whatever rows it has
        for p, st in self.combos:
            for e in m.defer.get(st, []):
                self.push(p, st, e, dict(kind="K_DEFER", guard=-1, act=-1, target=(p, st), hist=None, exitid=-1, entid=-1, ent2=-1, src=0, tgt=0))

    def push(self, p, s, e, d):
        self.entries[(p, s, e)].insert(0, d)

# ----------------------------------------------------------------- C++ emission
def sexpr(s, role):
    kd, par, st = parse(s)
    if kd == "init": return f"initial<{st}>" if role == "tuple" else f"* state<{st}>"
    if kd == "plain": return f"state<{st}>"
    if kd == "hist": return f"history<{par}>"
    return f"hsm::{kd}<{par}, {st}>"

def emit_row(r):
    ev = f"event<{r.ev}>" if r.ev else "event<noneEvent>"
    G, A = f"VPG({gid(r)})", f"VPA({aid(r)})"
    s, d = sexpr(r.src, r.form), sexpr(r.dst, r.form)
    if r.form == "tuple":
        return f"transition({s}, {ev}, {G if r.g else 'noGuard{}'}, {A if r.a else 'noAction{}'}, {d})"
    if r.ev is None:
        if r.form == "prefix" and not r.g and not r.a: return f"{d} <= {s}"
        lhs = s if not r.src.startswith("*") else f"({s})"
        if r.g: lhs += f"[{G}]"
        if r.a: lhs += f" / {A}"
        return f"{lhs} = {d}"
    ga = (f"[{G}]" if r.g else "") + (f" / {A}" if r.a else "")
    if r.form == "prefix":
        return f"{d} <= {s} + {ev}{ga}"
    return f"{s} + {ev}{ga} = {d}"

def emit_irow(r):
    if r.form == "tuple":
        return f"internal_transition(event<{r.ev}>, {'VPG(%d)' % gid(r) if r.g else 'noGuard{}'}, {'VPA(%d)' % aid(r) if r.a else 'noAction{}'})"
    return f"+ (event<{r.ev}>{'[VPG(%d)]' % gid(r) if r.g else ''}{' / VPA(%d)' % aid(r) if r.a else ''})"

def emit(m: Machine, extra_head=""):
    E = Elab(m)
    o = []
    w = o.append
    w('#include "vp.h"'); w('#ifndef CK_RV\n#define CK_RV 0\n#endif\n#ifndef CK_ARGS\n#define CK_ARGS 0\n#endif'); w('#include "hsm_any.h"'); w("using namespace hsm;")
    w(f"// machine {m.name}")
    names = sorted(E.tid, key=lambda s: E.tid[s])
    for s in names: w(f"struct {s};")
    evs = {e: i for i, e in enumerate(E.events)}
    for e in E.events: w(f"struct {e} {{ std::uint32_t x; }};")
    w(f"constexpr int NEV = {len(E.events)}, EV_NONE = {len(E.events)}, NGUARD = {E.nrows}, NDEPS = {m.deps};")
    w(f"constexpr int NREG = {E.nreg}, NPAR = {len(m.tables)}, NTID = {len(names)};")
    w(f"constexpr int NCOMBO = {len(E.combos)}, QMAX = {m.qmax if m.defer else 0}; constexpr bool HAS_UNEXP = {'true' if m.unexpected else 'false'}, HAS_HIST = {'true' if any(d['hist'] for v in E.entries.values() for d in v) else 'false'};")
    w("template <class T> struct tid_of { static constexpr int v = 254; };")
    for s in names: w(f"template <> struct tid_of<{s}> {{ static constexpr int v = {E.tid[s]}; }};")
    w("template <class T> struct eid_of { static constexpr int v = EV_NONE; static std::uint32_t x(const T&) { return 0; } };")
    for e in E.events:
        w(f"template <> struct eid_of<{e}> {{ static constexpr int v = {evs[e]}; static std::uint32_t x(const {e}& e) {{ return e.x; }} }};")
    w('#include "functors.h"')
    # state definitions; subs after their children, Root last (forward declared types suffice in tables)
    combo = {c: i for i, c in enumerate(E.combos)}
    par = list(m.tables)
    # reference entries
    w("constexpr REnt refent[] = {")
    idx = {}
    n = 0
    # expected guard-evaluation facts: guard id -> set of allowed (ev,src,tgt); checked in functors through refguard
    for (p, s) in E.combos:
        for e in E.events + [None]:
            st = n
            for d in E.entries[(p, s, e)]:
                hist = par.index(d["hist"]) if d["hist"] else -1
                w(f"  {{{d['kind']}, {d['guard']}, {d['act']}, {combo[d['target']]}, {hist}, {d['exitid']}, {d['entid']}, {d['ent2']}, {d['src']}, {d['tgt']}}},")
                n += 1
            idx[(p, s, e)] = (st, n - st)
    if n == 0: w("  {0,0,0,0,0,0,0,0,0,0}")
    w("};")
    w("struct RIdx { int start, n; };")
    w("constexpr RIdx refidx[NCOMBO][NEV + 1] = {")
    for (p, s) in E.combos:
        w("  {" + ", ".join("{%d,%d}" % idx[(p, s, e)] for e in E.events + [None]) + f"}}, // {p},{s}")
    w("};")
    w("constexpr int combo_parent[NCOMBO] = {" + ", ".join(str(par.index(p)) for p, s in E.combos) + "};")
    w("constexpr bool combo_sub[NCOMBO] = {" + ", ".join("true" if s in E.subs else "false" for p, s in E.combos) + "};")
    w("constexpr unsigned combo_regs[NCOMBO] = {" + ", ".join(str(E.regs[c]) for c in E.combos) + "};")
    w("constexpr int combo_tid[NCOMBO] = {" + ", ".join(str(E.tid[s]) for p, s in E.combos) + "};")
    w("constexpr int ref_initial[NREG] = {" + ", ".join(str(combo[("Root", s)]) for s in E.par_initial["Root"]) + "};")
    w("constexpr int ref_par_initial[NPAR] = {" + ", ".join(str(combo[(p, E.par_initial[p][0])]) for p in par) + "};")
    # guard facts
    facts = {}
    for (p, s) in E.combos:
        for e in E.events + [None]:
            for d in E.entries[(p, s, e)]:
                if d["guard"] >= 0:
                    f = (evs[e] if e else len(evs), d["src"], d["tgt"], d["kind"])
                    if facts.setdefault(d["guard"], f) != f: facts[d["guard"]] = (-2, 0, 0, "") if f[3] != "K_INT" or facts[d["guard"]][3] != "K_INT" or facts[d["guard"]][0] != f[0] else f
    # internal rows apply in several states: src==tgt only
    w("struct GFact { int ev, src, tgt; };")
    w(f"constexpr GFact gfact[{max(1, E.nrows)}] = {{")
    for k in range(max(1, E.nrows)):
        f = facts.get(k)
        if not f: w("  {-1,0,0},")
        elif f[0] == -2: w("  {-2,0,0},")        # guard type used by several rows
        elif f[3] == "K_INT": w(f"  {{{f[0]}, -1, -1}},")
        else: w(f"  {{{f[0]}, {f[1]}, {f[2]}}},")
    w("};")
    w('#include "functors2.h"')
    # order: simple states first, then subs in reverse nesting
    def state_members(s):
        mm = []
        if s in m.entry: mm.append(f"static constexpr auto on_entry() {{ return VPEN({E.tid[s]}); }}")
        if s in m.exit: mm.append(f"static constexpr auto on_exit() {{ return VPEX({E.tid[s]}); }}")
        if s in m.defer: mm.append("static constexpr auto defer_events() { return events<" + ", ".join(m.defer[s]) + ">; }")
        if s in m.internal:
            mm.append("static constexpr auto make_internal_transition_table() { return transition_table(" + ", ".join(emit_irow(r) for r in m.internal[s]) + "); }")
        if s == "Root" and m.unexpected:
            mm.append("static constexpr auto on_unexpected_event() { return Unexp{}; }")
        return mm
    simple = [s for s in names if s not in m.tables]
    for s in simple:
        w(f"struct {s} {{ " + " ".join(state_members(s)) + " };")
    order = []
    def visit(p):
        for r in m.tables[p]:
            for x in (r.src, r.dst):
                kd, pr, st = parse(x)
                for q in (pr, st):
                    if q in m.tables and q != p and q not in order: visit(q)
        if p not in order: order.append(p)
    visit("Root")
    for p in m.tables:
        if p not in order: visit(p)
    for p in order:
        w(f"struct {p} {{ " + " ".join(state_members(p)))
        w("  static constexpr auto make_transition_table() { return transition_table(")
        w(",\n".join("    " + emit_row(r) for r in m.tables[p]))
        w("  ); }\n};")
    # drivers
    if m.deps == 0:
        w("using SM = sm<Root>;")
        w("#define NEW_MACHINE std::make_unique<SM>()")
        w("#define SET_DEPS(m, k) (m).set_dependency()")
    else:
        w("using SM = sm<Root, " + ", ".join(f"Dep{i}" for i in range(m.deps)) + ">;")
        w("#define SET_DEPS(m, k) (m).set_dependency(" + ", ".join(f"(k) >> {i} & 1 ? g_dep{i}b : g_dep{i}" for i in range(m.deps)) + ")")
        w("#define NEW_MACHINE std::make_unique<SM>(" + ", ".join(f"g_dep{i}" for i in range(m.deps)) + ")")
    w("__attribute__((noinline)) static void dispatch_event(SM& m, int e, std::uint32_t x, bool& ret) {\n  const bool rv = CK_RV && vp_sym(1, \"rvalue\");\n  switch (e) {")
    for e, i in evs.items():
        w(f"  case {i}: {{ {e} ev{{x}}; g_evaddr = &ev; if (rv) ret = m.process_event(std::move(ev)); else ret = m.process_event(ev); g_evaddr = nullptr; vp_assert(CK_ARGS == 0 || ev.x == x, \"ARGS the event of the caller is unchanged\"); break; }}")
    w("  }\n}")
    w("static void do_set(SM& m, int r, int c) {\n  (void)r;\n  switch (c) {")
    for (p, st) in E.combos:
        c = combo[(p, st)]
        if E.nreg == 1:
            alt = f"m.set(state<{st}>);" if p == "Root" else f"m.set(state<{p}>, state<{st}>);"
            w(f"  case {c}: {alt} break;")
        else:      # without a region number, set speaks about the first region
            alt = f"m.set(state<{st}>);" if p == "Root" else f"m.set(state<{p}>, state<{st}>);"
            w(f"  case {c}: if (r == 0 && vp_sym(1, \"short\")) {alt} else m.set((std::uint8_t)r, state<{p}>, state<{st}>); break;")
    w("  }\n}")
    w("static void check_state(const int* cur, SM& m) {")
    w("  (void)cur; (void)m;")
    for r in range(E.nreg):
        for (p, s) in E.combos:
            i = combo[(p, s)]
            if E.nreg == 1:
                w(f"  vp_assert(m.is(state<{p}>, state<{s}>) == (cur[0] == {i}), \"STATE is({p},{s})\");")
            w(f"  vp_assert(m.is({r}, state<{p}>, state<{s}>) == (cur[{r}] == {i}), \"STATE is({r},{p},{s})\");")
    # without a region number the queries speak about the first region
    for (p, s) in E.combos:
        if E.nreg > 1: w(f"  vp_assert(m.is(state<{p}>, state<{s}>) == (cur[0] == {combo[(p, s)]}), \"STATE is({p},{s})\");")
    for s in simple:
        w(f"  vp_assert(m.is(state<{s}>) == (combo_tid[cur[0]] == {E.tid[s]}), \"STATE is({s})\");")
    for p in m.tables:
        w(f"  vp_assert(m.parent_is(state<{p}>) == (combo_parent[cur[0]] == {par.index(p)}), \"STATE parent_is({p})\");")
    w("}")
    w("static bool in_state(int r, int c, SM& m) {\n  (void)r;\n  switch (c) {")
    for (p, st) in E.combos:
        w(f"  case {combo[(p, st)]}: return m.is((std::uint8_t)r, state<{p}>, state<{st}>);")
    w("  }\n  return false;\n}")
    w('#include "ref.h"')
    return "\n".join(o) + "\n"

if __name__ == "__main__":
    import sys, machines
    m = machines.get(sys.argv[1])
    print(emit(m))
