// Reference semantics + step-loop harness.  A generated file (see tools/gen.py) defines, before
// including this: events, functors' id spaces, the hsm machine, and the independent reference
// tables (NCOMBO, NEV, NREG, refent[], refidx[][], ...).  Nothing here looks inside the library:
// the machine is driven through its public API only.
#pragma once
// ---- aspects to compare (set per property with -D) ----
#ifndef CK_STATE
#define CK_STATE 0
#endif
#ifndef CK_RET
#define CK_RET 0
#endif
#ifndef CK_ACT
#define CK_ACT 0
#endif
#ifndef CK_ORDER
#define CK_ORDER 0
#endif
#ifndef CK_ARGS
#define CK_ARGS 0
#endif
#ifndef CK_GUARD
#define CK_GUARD 0
#endif
#ifndef CK_UNEXP
#define CK_UNEXP 0
#endif
#ifndef CK_OBJ
#define CK_OBJ 0
#endif
#ifndef CK_LEAK
#define CK_LEAK 0
#endif
#ifndef PAYLOAD_BITS
#define PAYLOAD_BITS 32
#endif

// ------------------------------------------------------------------ reference interpreter
struct Ref {
    int cur[NREG];
    int hist[NPAR][NREG];
    int qev[QMAX + 1]; std::uint32_t qx[QMAX + 1]; int qn = 0;
    void init()
    {
        for (int r = 0; r < NREG; r++) cur[r] = ref_initial[r];
        for (int p = 0; p < NPAR; p++) for (int r = 0; r < NREG; r++) hist[p][r] = ref_par_initial[p];
        qn = 0;
    }
    Log log;
    std::uint64_t gseen = 0;
    int unexp = 0; int unexp_state = 0;
    bool overflow = false;
    int alt[NREG];                       // configuration before the transition being executed

    void rec(int kind, int id, const REnt& t, int ev, std::uint32_t x) { log.add(kind, id, t.src, t.tgt, ev, x); maybe_throw(kind, id); }
    void fire(int r, const REnt& t, int ev, std::uint32_t x)
    {
        for (int i = 0; i < NREG; i++) alt[i] = cur[i];
        if (t.kind == K_EXT) {
            if (HAS_HIST) hist[combo_parent[cur[r]]][r] = cur[r];
            cur[r] = t.hist >= 0 ? hist[t.hist][r] : t.target;
        }
        if (t.exitid >= 0) rec(L_EXIT, t.exitid, t, ev, x);
        if (t.act >= 0) { rec(L_ACT, t.act, t, ev, x); if (ev == EV_NONE && t.guard >= 0) acnt_ref.fired(gmask_ref, t.guard); }
        if (t.entid >= 0) rec(L_ENTRY, t.entid, t, ev, x);
        if (t.ent2 >= 0) rec(L_ENTRY, t.ent2, t, ev, x);
    }
    bool guard(const REnt& t) { if (t.guard < 0) return true; gseen |= 1ull << t.guard; for (int i = 0; i < NREG; i++) alt[i] = cur[i]; maybe_throw(L_GUARD, t.guard); return (gmask_ref >> t.guard) & 1; }
    enum { INVALID, GFAIL, DONE, DEFER };
    int deliver(int ev, std::uint32_t x)
    {
        bool any = false, fired = false;
        for (int r = 0; r < NREG; r++) {
            const int at = cur[r];
            for (int k = refidx[at][ev].start; k < refidx[at][ev].start + refidx[at][ev].n; k++) {
                const REnt& t = refent[k];
                if (t.kind == K_DEFER) {
                    if (qn >= QMAX) { overflow = true; return DEFER; }
                    qev[qn] = ev; qx[qn] = x; qn++; return DEFER;
                }
                any = true;
                if (!guard(t)) continue;
                fired = true; fire(r, t, ev, x); break;
            }
        }
        if (!any) return INVALID;
        if (!fired) return GFAIL;
        for (;;) {
            bool prog = false;
            for (int r = 0; r < NREG; r++) {
                const int at = cur[r];
                for (int k = refidx[at][EV_NONE].start; k < refidx[at][EV_NONE].start + refidx[at][EV_NONE].n; k++) {
                    const REnt& t = refent[k];
                    if (!guard(t)) continue;
                    prog = true; fire(r, t, EV_NONE, 0); break;
                }
            }
            if (!prog) break;
        }
        return DONE;
    }
    bool step(int ev, std::uint32_t x)
    {
        switch (deliver(ev, x)) {
        case INVALID: if (HAS_UNEXP) { unexp++; unexp_state = combo_tid[cur[0]]; for (int i = 0; i < NREG; i++) alt[i] = cur[i]; maybe_throw(L_UNEXP, 0); } return false;
        case GFAIL: case DEFER: return false;
        default: break;
        }
        if (qn > 0) {
            int e = qev[0]; std::uint32_t p = qx[0];
            for (int i = 1; i < qn; i++) { qev[i - 1] = qev[i]; qx[i - 1] = qx[i]; }
            qn--; qx[qn] = 0; qev[qn] = 0;
            deliver(e, p);
        }
        return true;
    }
};

static void compare(Ref& ref, SM& m, bool ret, bool expret)
{
#if CK_RET
    vp_assert(ret == expret, "RET process_event result");
#endif
    (void)ret; (void)expret;
#if CK_GUARD
    vp_assert(seen_bad == 0, "GUARD a guard received the wrong event/source/target");
    vp_assert(gseen_real == ref.gseen, "GUARD set of evaluated guards");
#endif
#if CK_ORDER
    vp_assert(log_real.n == ref.log.n, "ORDER number of exit/action/entry calls");
    for (int i = 0; i < log_real.n; i++)
        vp_assert(log_real.r[i].kind == ref.log.r[i].kind && log_real.r[i].id == ref.log.r[i].id, "ORDER exit/action/entry sequence");
#endif
#if CK_ACT
    {
        int j = 0;
        for (int i = 0; i < log_real.n; i++) {
            if (log_real.r[i].kind != L_ACT) continue;
            while (j < ref.log.n && ref.log.r[j].kind != L_ACT) j++;
            vp_assert(j < ref.log.n, "ACT an action ran that must not run");
            vp_assert(log_real.r[i].id == ref.log.r[j].id, "ACT wrong action");
            j++;
        }
        while (j < ref.log.n && ref.log.r[j].kind != L_ACT) j++;
        vp_assert(j >= ref.log.n, "ACT a required action did not run");
    }
#endif
#if CK_ARGS
    vp_assert(log_real.n == ref.log.n, "ARGS number of calls");
    vp_assert(dep_bad == 0, "ARGS dependency identity");
    vp_assert(obj_bad == 0, "ARGS state object identity");
    vp_assert(ev_bad == 0, "ARGS event object identity");
    for (int i = 0; i < log_real.n; i++) {
        vp_assert(log_real.r[i].src == ref.log.r[i].src, "ARGS source state object");
        if (ref.log.r[i].tgt != T_ANY) vp_assert(log_real.r[i].tgt == ref.log.r[i].tgt, "ARGS target state object");
        vp_assert(log_real.r[i].ev == ref.log.r[i].ev, "ARGS event type");
        vp_assert(log_real.r[i].x == ref.log.r[i].x, "ARGS event payload");
    }
#endif
#if CK_UNEXP
    vp_assert(unexp_real == ref.unexp, "UNEXP handler invocation count");
    if (ref.unexp) {
        vp_assert(unexp_state_real == ref.unexp_state, "UNEXP handler state argument");
        vp_assert(unexp_ev_real == cur_ev && unexp_x_real == cur_x, "UNEXP handler event argument");
    }
#endif
#if CK_STATE
    check_state(ref.cur, m);
#endif
}

#ifndef NINST
#define NINST 1
#endif
#ifndef CK_SET
#define CK_SET 0
#endif
#ifndef CK_SETDEP
#define CK_SETDEP 0
#endif
#ifndef CK_MOVE
#define CK_MOVE 0
#endif
Ref refs[NINST];
__attribute__((noinline)) static void do_step(Ref& ref, SM& m)
{
    acnt_real.clear(); acnt_ref.clear(); log_real.n = 0; ref.log.n = 0; gseen_real = 0; ref.gseen = 0; seen_bad = 0; obj_bad = 0; dep_bad = 0; ev_bad = 0;
    unexp_real = 0; ref.unexp = 0; unexp_state_real = 0; ref.unexp_state = 0; unexp_x_real = 0; unexp_ev_real = 0;
    unsigned e = (unsigned)vp_sym(8, "event");
    vp_assume(e < NEV);
    e = (unsigned)vp_concretize(e);
    std::uint64_t g = NGUARD ? vp_sym(NGUARD ? NGUARD : 1, "guards") : 0;
    std::uint32_t x = (std::uint32_t)vp_sym(PAYLOAD_BITS, "payload");
#ifdef PAYLOAD_CONCRETE
    x = (std::uint32_t)vp_concretize(x);
#endif
    gmask_real = g; gmask_ref = g; cur_ev = (int)e; cur_x = x;
    ref.overflow = false;
#if CK_THROW
    g_throw = (std::uint32_t)vp_sym(9, "throwing callback");
    int refthrown = 0, thrown = 0;
    bool expret = false, ret = false;
    try { expret = ref.step((int)e, x); } catch (const Boom& b) { refthrown = b.code; }
    vp_assume(!ref.overflow);
    g_throw_any = true;
    try { dispatch_event(m, (int)e, x, ret); } catch (const Boom& b) { thrown = b.code; } catch (const StdBoom& b) { thrown = b.code; vp_cover("std-exception"); }
    g_throw_any = false;
    vp_assert(thrown == refthrown, "THROW the exception of a callback reaches the caller of process_event");
    g_throw = 0; g_evaddr = nullptr;
    if (thrown) {
        vp_cover("thrown");
        expret = ret;
        // the interrupted transition is either taken or not taken, region by region; nothing else moved
        int same = 1;
        for (int i = 0; i < NREG; i++) if (!in_state(i, ref.cur[i], m)) same = 0;
        if (!same) { for (int i = 0; i < NREG; i++) ref.cur[i] = ref.alt[i]; vp_cover("rolled-back"); }
        check_state(ref.cur, m);
    }
#else
    const bool expret = ref.step((int)e, x);
    vp_assume(!ref.overflow);            // bound: at most QMAX simultaneously deferred events
    bool ret = false;
    dispatch_event(m, (int)e, x, ret);
#endif
    if (expret) vp_cover("event-processed"); else vp_cover("event-not-processed");
    if (ref.unexp) vp_cover("unexpected");
    if (ref.qn) vp_cover("deferred-pending");
    vp_observe(ret);
    for (int i = 0; i < log_real.n; i++)
        vp_observe((std::uint64_t)log_real.r[i].kind << 56 | (std::uint64_t)log_real.r[i].id << 48 | (std::uint64_t)log_real.r[i].src << 40 | (std::uint64_t)log_real.r[i].ev << 32 | log_real.r[i].x);
    compare(ref, m, ret, expret);
}
static void clear_symbolic()
{
    // clear every symbolic value before the next checkpoint
    gmask_real = gmask_ref = 0; cur_x = 0; cur_ev = 0; unexp_x_real = 0; unexp_ev_real = 0; gseen_real = 0; unexp_real = 0; unexp_state_real = 0;
    log_real.clear(); acnt_real.clear(); acnt_ref.clear();
    for (auto& r : refs) { r.gseen = 0; r.log.clear(); }
#if !CK_OBJ
    for (auto& p : g_obj) p = nullptr;   // object identity is compared within one step only
#endif
}

#include <memory>
#include <utility>
static void body()
{
#if CK_LEAK
    const std::uint64_t base = vp_live_heap();
#endif
    {
    std::unique_ptr<SM> ms[NINST];
#if CK_SETDEP
    unsigned depsel[NINST] {};
#endif
    for (auto& m : ms) m = NEW_MACHINE;
    for (auto& r : refs) r.init();
    clear_symbolic();
    // configuration right after construction
    for (int i = 0; i < NINST; i++) { refs[i].unexp = 0; compare(refs[i], *ms[i], true, true); }
#if CK_ACT || CK_ORDER
    vp_assert(log_real.n == 0, "ACT/ORDER no user callback during construction");
#endif
    for (;;) {
        vp_checkpoint();
        int inst = 0;
        if (NINST > 1) inst = (int)vp_concretize(vp_sym(1, "instance"));
        Ref& ref = refs[inst];
#if CK_LEAK
        if (vp_sym(1, "quit")) break;
#endif
#if CK_MOVE
        if (const int how = (int)vp_concretize(vp_sym(2, "move"))) {
            const int other = NINST - 1 - inst;
            if (how == 1) ms[inst] = std::make_unique<SM>(std::move(*ms[inst]));
            else if constexpr (!std::is_move_assignable_v<SM>) continue;
            else if (how == 2 && other != inst) { *ms[other] = std::move(*ms[inst]); ms[inst] = NEW_MACHINE; refs[other] = refs[inst]; refs[inst].init(); }
            else if (how == 2) { auto fresh = NEW_MACHINE; *fresh = std::move(*ms[inst]); ms[inst] = std::move(fresh); }
            else if (other != inst) { std::swap(*ms[0], *ms[other]); std::swap(refs[0], refs[other]); }
            else continue;
            clear_symbolic(); vp_cover("moved"); vp_cover(how == 1 ? "move-constructed" : how == 2 ? "move-assigned" : "swapped");
            for (int i = 0; i < NINST; i++) { refs[i].unexp = 0; compare(refs[i], *ms[i], true, true); }
            continue;
        }
#endif
#if CK_SET
        if (vp_sym(1, "set")) {
            int r = 0;
            if (NREG > 1) { const unsigned rr = (unsigned)vp_sym(2, "region"); vp_assume(rr < NREG); r = (int)vp_concretize(rr); }
            const unsigned cc = (unsigned)vp_sym(8, "target"); vp_assume(cc < NCOMBO); const int c = (int)vp_concretize(cc);
            vp_assume(!combo_sub[c]);            // a submachine itself is not a leaf configuration
            vp_assume((combo_regs[c] >> r) & 1);
            do_set(*ms[inst], r, c); ref.cur[r] = c; vp_cover("set");
            check_state(ref.cur, *ms[inst]);
            vp_assert(log_real.n == 0 && gseen_real == 0, "STATE set runs no callback");
            continue;
        }
#endif
#if CK_SETDEP
        if (vp_sym(1, "set_dependency")) {
            unsigned k = 0;
            if (NDEPS) { k = (unsigned)vp_sym(NDEPS ? NDEPS : 1, "which"); k = (unsigned)vp_concretize(k); }
            SET_DEPS(*ms[inst], k); depsel[inst] = k; vp_cover("set_dependency");
            vp_assert(log_real.n == 0 && gseen_real == 0 && unexp_real == 0, "ARGS set_dependency runs no callback");
            for (int i = 0; i < NINST; i++) check_state(refs[i].cur, *ms[i]);
            continue;
        }
        g_depsel = depsel[inst];
#endif
        do_step(ref, *ms[inst]);
        g_depsel = 0;
#if CK_STATE
        for (int i = 0; i < NINST; i++) if (i != inst) check_state(refs[i].cur, *ms[i]);
#endif
        clear_symbolic();
    }
    }
#if CK_LEAK
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machine was destroyed");
    vp_cover("destroyed");
#endif
}
int main() { body(); }
