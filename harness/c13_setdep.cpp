// C13: every callback gets the machine's current dependency objects (identity), in declaration
// order; after set_dependency nothing ever sees the previous ones, and no row is tried twice.
#include "vp.h"
#include "hsm_any.h"
using namespace hsm;
struct D1 { int id; }; struct D2 { int id; };
static D1 d1[2]; static D2 d2[2];
static int curd, bad, calls, unexp; static unsigned gcount[4], acount[8]; static std::uint64_t gm;
static void chk(D1& a, D2& b) { calls++; if (&a != &d1[curd] || &b != &d2[curd]) bad++; }
template <int K> struct G { template <class E, class S, class T> bool operator()(E&, S&, T&, D1& a, D2& b) const { chk(a, b); gcount[K]++; return gm >> K & 1; } };
template <int K> struct Act { template <class E, class S, class T> void operator()(E&, S&, T&, D1& a, D2& b) const { chk(a, b); acount[K]++; if (K == 3) gm &= ~8ull; } };
struct U { template <class E, class S> void operator()(E&, S&, D1& a, D2& b) const { chk(a, b); unexp++; } };
struct e1 {}; struct e2 {}; struct e3 {};
struct A { static constexpr auto on_exit() { return Act<4> {}; } };
struct B { static constexpr auto on_entry() { return Act<5> {}; } static constexpr auto make_internal_transition_table() { return transition_table(+(event<e3>[G<2> {}] / Act<2> {})); } };
struct C {};
struct X {}; struct Y {};
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e1>[G<0> {}] / Act<0> {} = state<Y>, state<Y> + event<e1> = state<X>); } };
struct Root {
    static constexpr auto on_unexpected_event() { return U {}; }
    static constexpr auto make_transition_table()
    {
        return transition_table(* state<A> + event<e1>[G<1> {}] / Act<1> {} = state<B>, state<B>[G<3> {}] / Act<3> {} = state<C>, state<C> + event<e2> / Act<6> {} = state<P>, state<B> + event<e2> / Act<6> {} = state<A>, state<P> + event<e2> / Act<7> {} = state<A>);
    }
};
static void body()
{
    curd = 0;
    sm<Root, D1, D2> m { d1[0], d2[0] };
    bool setdep = false;
    for (;;) {
        vp_checkpoint();
        bad = calls = unexp = 0; for (auto& g : gcount) g = 0; for (auto& a : acount) a = 0;
        if (vp_sym(1, "quit")) break;
        if (vp_sym(1, "set_dependency")) { curd = (int)vp_concretize(vp_sym(1, "which")); m.set_dependency(d1[curd], d2[curd]); setdep = true; vp_assert(calls == 0, "SETDEP no callback runs in set_dependency"); vp_cover("set"); continue; }
        gm = vp_sym(4, "guards");
        bool r = false;
        switch (vp_concretize(vp_sym(2, "event"))) {
        case 0: { e1 e; r = m.process_event(e); break; }
        case 1: { e2 e; r = m.process_event(e); break; }
        default: { e3 e; r = m.process_event(e); break; }
        }
        gm = 0;
        vp_assert(bad == 0, "DEP a callback received an object that is not the current dependency");
        // each row exists once: its guard runs at most once per dispatch (the anonymous row once per pass)
        vp_assert(gcount[0] <= 1 && gcount[1] <= 1 && gcount[2] <= 1, "DEP a transition is present more than once");
        for (int i = 0; i < 8; i++) vp_assert(acount[i] <= 1, "DEP an action ran more than once");
        vp_assert(unexp <= 1 && (!unexp || !r), "DEP unexpected handler");
        vp_observe(r); vp_observe(calls); vp_observe(unexp);
        if (setdep && calls) vp_cover("callback-after-set");
        if (unexp && setdep) vp_cover("unexp-after-set");
        if (acount[3]) vp_cover("anonymous");
    }
}
int main()
{
    const std::uint64_t base = vp_live_heap();
    body();
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machine was destroyed"); vp_cover("destroyed");
}
