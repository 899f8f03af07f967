// C25 / C07: machine types that share states, submachines, events and callbacks.  M1 and M2 are different roots around
// the same submachine P; M3 is M1's root with a dependency.  Whatever is interleaved, each behaves as if it were alone:
// current states, history are per object, and rows of one root never show up in another.
#include "vp.h"
#include "hsm_any.h"
using namespace hsm;
struct e1 { std::uint32_t x; }; struct e2 { std::uint32_t x; };
struct Dep { std::uint32_t n; };
static int acts[4]; static std::uint32_t gm;
template <int K> struct Gd { template <class... A> bool operator()(A&&...) const { return gm >> K & 1; } };
template <int K> struct Ac { template <class E, class S, class T> void operator()(E&, S& s, T&) const { acts[K]++; (void)s; } template <class E, class S, class T> void operator()(E&, S& s, T&, Dep& d) const { acts[K]++; (void)s; d.n++; } };
struct A {}; struct B {};
struct X {}; struct Y {};
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e1>[Gd<0> {}] / Ac<0> {} = state<Y>, state<Y> + event<e1> / Ac<0> {} = state<X>); } };
struct R1 { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e1> / Ac<1> {} = history<P>, state<P> + event<e2>[Gd<1> {}] / Ac<1> {} = state<A>); } };
struct R2 { static constexpr auto make_transition_table() { return transition_table(
    * state<B> + event<e2> / Ac<2> {} = state<A>, state<A> + event<e1> / Ac<2> {} = direct<P, Y>, hsm::exit<P, X> + event<e2> / Ac<2> {} = state<B>, state<A> + event<e2>[Gd<1> {}] / Ac<2> {} = state<B>); } };
enum { SA, SB, SX, SY };
struct Model { int cur; int hist = SX; int kind; };
// -> whether processed; which action ran
static bool model(Model& m, int e, int& act)
{
    act = -1;
    if (e == 1 && m.cur == SX) { if (!(gm & 1)) return false; act = 0; if (m.kind != 1) m.hist = SX; m.cur = SY; return true; }
    if (e == 1 && m.cur == SY) { act = 0; m.cur = SX; return true; }
    if (m.kind != 1) {
        if (e == 1 && m.cur == SA) { act = 1; m.cur = m.hist; return true; }
        if (e == 2 && (m.cur == SX || m.cur == SY)) { if (!(gm & 2)) return false; act = 1; m.hist = m.cur; m.cur = SA; return true; }
        return false;
    }
    if (e == 2 && m.cur == SB) { act = 2; m.cur = SA; return true; }
    if (e == 1 && m.cur == SA) { act = 2; m.cur = SY; return true; }
    if (e == 2 && m.cur == SX) { act = 2; m.cur = SB; return true; }
    if (e == 2 && m.cur == SA) { if (!(gm & 2)) return false; act = 2; m.cur = SB; return true; }
    return false;
}
template <class M> static bool go(M& m, int e) { if (e == 1) { e1 v { 1 }; return m.process_event(v); } e2 v { 2 }; return m.process_event(v); }
template <class M> __attribute__((noinline)) static void check1(M& m, const Model& r)
{
    vp_assert(m.is(state<A>) == (r.cur == SA), "STATE A"); vp_assert(m.is(state<P>, state<X>) == (r.cur == SX), "STATE P.X");
    vp_assert(m.is(state<P>, state<Y>) == (r.cur == SY), "STATE P.Y");
}
int main()
{
    const std::uint64_t base = vp_live_heap();
    Dep d { 0 };
    {
        sm<R1> m1; sm<R2> m2; sm<R1, Dep> m3 { d };
        Model r[3] { { SA, SX, 0 }, { SB, SX, 1 }, { SA, SX, 2 } };
        for (;;) {
            vp_checkpoint();
            if (vp_sym(1, "quit")) break;
            for (int& a : acts) a = 0;
            gm = (std::uint32_t)vp_sym(2, "guards");
            const std::uint64_t w = vp_sym(2, "machine"); vp_assume(w < 3); const int k = (int)vp_concretize(w);
            const int e = (int)vp_concretize(vp_sym(1, "event")) + 1;
            int act; const bool want = model(r[k], e, act);
            const bool got = k == 0 ? go(m1, e) : k == 1 ? go(m2, e) : go(m3, e);
            vp_assert(got == want, "RET result");
            for (int i = 0; i < 4; i++) vp_assert(acts[i] == (i == act), "ACT exactly this machine's action ran");
            vp_assert(d.n == (k == 2 && act >= 0 ? 1u : 0u), "DEP only the machine with the dependency uses it"); d.n = 0;
            vp_observe(got); vp_observe(act); vp_cover(k == 0 ? "m1" : k == 1 ? "m2" : "m3");
            check1(m1, r[0]); check1(m2, r[1]); check1(m3, r[2]);
            vp_assert(m2.is(state<B>) == (r[1].cur == SB), "STATE B");
            gm = 0;
        }
    }
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machines were destroyed"); vp_cover("destroyed");
}
