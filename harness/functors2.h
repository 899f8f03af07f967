#pragma once
template <int KIND> struct FnBase {
    template <class E, class S, class T, class... D> static void run(int ID, E& e, S& s, T& t, D&... d)
    {
        chkdeps(d...); chkev(e);
        constexpr int ev = eid_of<E>::v;
        log_real.add(KIND, ID, note_obj(s), note_obj(t), ev, eid_of<E>::x(e));
        maybe_throw(KIND, ID);
        if constexpr (KIND == L_ACT) if (ev == EV_NONE && gfact[ID].ev >= 0) acnt_real.fired(gmask_real, ID);
    }
};
struct GBase {
    template <class E, class S, class T, class... D> static bool run(int ID, E& e, S& s, T& t, D&... d)
    {
        chkdeps(d...); chkev(e);
        gseen_real |= 1ull << ID;
        const int si = note_obj(s), ti = note_obj(t);
        if (gfact[ID].ev == -2) { maybe_throw(L_GUARD, ID); return (gmask_real >> ID) & 1; }
        if (gfact[ID].ev != eid_of<E>::v) seen_bad++;
        if (gfact[ID].src >= 0 && gfact[ID].src != si) seen_bad++;
        if (gfact[ID].src < 0 && si != ti) seen_bad++;
        if (gfact[ID].tgt >= 0 && gfact[ID].tgt != T_ANY && gfact[ID].tgt != ti) seen_bad++;
        maybe_throw(L_GUARD, ID);
        return (gmask_real >> ID) & 1;
    }
};
#ifndef FUNCTORS
#define FUNCTORS 0
#endif
#if FUNCTORS == 0      // one stateless type per row
template <int KIND, int ID> struct Fn { template <class... A> void operator()(A&... a) const { FnBase<KIND>::run(ID, a...); } };
template <int ID> struct Act : Fn<L_ACT, ID> {};
template <int ID> struct Ent : Fn<L_ENTRY, ID> {};
template <int ID> struct Exi : Fn<L_EXIT, ID> {};
template <int ID> struct G { template <class... A> bool operator()(A&... a) const { return GBase::run(ID, a...); } };
#define VPG(i) G<i> {}
#define VPA(i) Act<i> {}
#define VPEN(i) Ent<i> {}
#define VPEX(i) Exi<i> {}
#elif FUNCTORS == 1    // lambdas (the library needs stateless functors: rows with data do not compile)
#define VPG(i) ([](auto&... a) { return GBase::run(i, a...); })
#define VPA(i) ([](auto&... a) { FnBase<L_ACT>::run(i, a...); })
#define VPEN(i) ([](auto&... a) { FnBase<L_ENTRY>::run(i, a...); })
#define VPEX(i) ([](auto&... a) { FnBase<L_EXIT>::run(i, a...); })
#elif FUNCTORS == 3    // guards whose result is not a bool (but converts to one); actions with a result
template <int ID> struct G3 { template <class... A> int operator()(A&... a) const { return GBase::run(ID, a...) ? (ID % 3 == 0 ? 256 : ID % 3 == 1 ? -2 : 4) : 0; } };
template <int KIND, int ID> struct Fn3 { template <class... A> int operator()(A&... a) const { FnBase<KIND>::run(ID, a...); return ID % 2; } };
#define VPG(i) G3<i> {}
#define VPA(i) Fn3<L_ACT, i> {}
#define VPEN(i) Fn3<L_ENTRY, i> {}
#define VPEX(i) Fn3<L_EXIT, i> {}
#else                  // plain functors, actions wrapped in chains
#define VPG(i) ([](auto&... a) { return GBase::run(i, a...); })
#define VPA(i) chain_actions(([](auto&... a) { FnBase<L_ACT>::run(i, a...); }))
#define VPEN(i) chain_actions(([](auto&... a) { FnBase<L_ENTRY>::run(i, a...); }))
#define VPEX(i) chain_actions(([](auto&... a) { FnBase<L_EXIT>::run(i, a...); }))
#endif
struct Unexp {
    template <class E, class S, class... D> void operator()(E& e, S& s, D&... d) const
    {
        chkdeps(d...); chkev(e);
        unexp_real++; unexp_state_real = note_obj(s); unexp_ev_real = eid_of<E>::v; unexp_x_real = eid_of<E>::x(e);
        maybe_throw(L_UNEXP, 0);
    }
};
