// C13, kinds of dependencies: two of the same type (told apart by position only), an abstract one passed by its base,
// one that can be neither copied nor moved, a const one; replaced in any combination.  Every callback gets exactly
// the current objects in declaration order, in a submachine, after history, for deferred events and in the handler.
#include "vp.h"
#include "hsm_any.h"
using namespace hsm;
struct D { std::uint32_t v; };
struct Base { virtual std::uint32_t get() const = 0; virtual ~Base() = default; };
struct Impl0 : Base { std::uint32_t v = 0; std::uint32_t get() const override { return v; } };
struct Impl1 : Base { int pad[3] {}; std::uint32_t v = 0; std::uint32_t get() const override { return v ^ 1u; } };
struct Fixed { Fixed() = default; Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; std::uint32_t n = 0; };
struct Con { std::uint32_t k; };
static D d[4]; static Impl0 i0; static Impl1 i1; static Fixed f[2]; static const Con c[2] { { 7 }, { 9 } };
static Base* const bases[2] { &i0, &i1 };
static int cd0, cd1, cb, cf, cc, bad, calls; static std::uint32_t gm; static std::uint32_t cnt[2];
static void chk(D& a, D& b, Base& p, Fixed& q, const Con& k) { calls++; if (&a != &d[cd0] || &b != &d[cd1] || &p != bases[cb] || &q != &f[cf] || &k != &c[cc]) bad++; a.v += 1; q.n += 1; cnt[cf] += 1; }
struct e1 { std::uint32_t x; }; struct e2 { std::uint32_t x; }; struct e3 { std::uint32_t x; };
template <int K> struct Gd { template <class E, class S, class T> bool operator()(E&, S&, T&, D& a, D& b, Base& p, Fixed& q, const Con& k) const { chk(a, b, p, q, k); return gm >> K & 1; } };
struct Ac { template <class E, class S, class T> void operator()(E&, S&, T&, D& a, D& b, Base& p, Fixed& q, const Con& k) const { chk(a, b, p, q, k); } };
struct Un { template <class E, class S> void operator()(E&, S&, D& a, D& b, Base& p, Fixed& q, const Con& k) const { chk(a, b, p, q, k); } };
struct A { static constexpr auto on_exit() { return Ac {}; } static constexpr auto defer_events() { return events<e3>; } };
struct B { static constexpr auto on_entry() { return Ac {}; } };
struct X {}; struct Y { static constexpr auto make_internal_transition_table() { return transition_table(+(event<e3>[Gd<2> {}] / Ac {})); } };
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e1>[Gd<0> {}] / Ac {} = state<Y>, state<Y> + event<e1> / Ac {} = state<X>); } };
struct Root { static constexpr auto on_unexpected_event() { return Un {}; } static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e1>[Gd<1> {}] / Ac {} = state<B>, state<B> + event<e2> / Ac {} = history<P>, state<P> + event<e2> / Ac {} = state<A>, state<B> + event<e3> / Ac {} = state<B>); } };
int main()
{
    const std::uint64_t base = vp_live_heap();
    {
    cd0 = 0; cd1 = 1;
    sm<Root, D, D, Base, Fixed, const Con> m { d[0], d[1], *bases[0], f[0], c[0] };
    for (;;) {
        vp_checkpoint();
        bad = calls = 0;
        if (vp_sym(1, "quit")) break;
        if (vp_sym(1, "set_dependency")) {
            const unsigned w = (unsigned)vp_concretize(vp_sym(3, "which"));
            cd0 = w & 1 ? 2 : 0; cd1 = w & 2 ? 3 : w & 1 ? 0 : 1; cb = w & 1; cf = w >> 1 & 1; cc = w >> 2 & 1;
            m.set_dependency(d[cd0], d[cd1], *bases[cb], f[cf], c[cc]); vp_assert(calls == 0, "SETDEP no callback runs in set_dependency"); vp_cover("set"); continue;
        }
        gm = (std::uint32_t)vp_sym(3, "guards"); const std::uint32_t before = f[cf].n;
        bool r = false;
        switch (vp_concretize(vp_sym(2, "event"))) {
        case 0: { e1 e { 1 }; r = m.process_event(e); break; }
        case 1: { e2 e { 2 }; r = m.process_event(e); break; }
        default: { e3 e { 3 }; r = m.process_event(e); break; }
        }
        gm = 0;
        vp_assert(bad == 0, "DEP a callback received an object that is not the current dependency of its position");
        vp_assert(f[cf].n == before + (std::uint32_t)calls && f[0].n == cnt[0] && f[1].n == cnt[1], "DEP what a callback did to a dependency is done to the caller's object");
        vp_observe(r); vp_observe(calls); if (calls) vp_cover("callback");
        for (auto& q : f) q.n = 0; for (auto& q : d) q.v = 0; for (auto& q : cnt) q = 0;
    }
    }
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machine was destroyed"); vp_cover("destroyed");
}
