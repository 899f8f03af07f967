// C20: chain_actions(a1..an) calls every action exactly once, in order, with the caller's own arguments.
#include "vp.h"
#include "hsm_any.h"
using namespace hsm;
static int n; static int seq[16]; static const void* addr[3]; static int bad;
struct Ev { std::uint32_t v; int tag; };
template <int K> struct Ac { template <class... T> void operator()(T&... t) const { vp_assert(n < 16, "CHAIN too many calls"); seq[n++] = K; const void* a[] = { &t... }; for (unsigned i = 0; i < sizeof...(T) && i < 3; i++) if (a[i] != addr[i]) bad++; mut(t...); }
    template <class E, class... R> static void mut(E& e, R&...) { e.v = e.v * 3 + K; } };
struct Th { std::uint32_t* cond; template <class E, class... R> void operator()(E& e, R&...) const { vp_assert(n < 16, "CHAIN"); seq[n++] = 9; if (e.v == *cond) throw 42; } };
// actions that return something (also types that overload the comma operator): the result is ignored
template <int K, class R> struct Rt { template <class... T> R operator()(T&... t) const { Ac<K> {}(t...); return R {}; } };
struct Com { int z = 0; template <class X> Com operator,(X&&) const { n = 15; return {}; } };
template <class X> Com operator,(X&&, Com) { n = 15; return {}; }
using bool_ = bool;
struct Cn { int id; std::uint32_t w; template <class... T> bool operator()(T&... t) const { seq[n++] = id; Ac<0>::mut(t...); std::get<0>(std::tie(t...)).v += w; return false; } };
struct S1 { int d; }; struct S2 { int d; };
struct Mk { static constexpr auto make_transition_table() { return transition_table(* state<S1> + event<Ev> / chain_actions(Ac<1> {}, Ac<2> {}, Ac<3> {}) = state<S2>, state<S2> + event<Ev> / chain(Ac<4> {}, chain_actions(Ac<5> {}, Ac<6> {}), Ac<7> {}) = state<S1>); } };
static void expect(std::initializer_list<int> l, const char* what) { vp_assert(n == (int)l.size(), what); int i = 0; for (int k : l) { vp_assert(seq[i] == k, what); i++; } }
static std::uint32_t eff(std::uint32_t v, std::initializer_list<int> l) { for (int k : l) v = v * 3 + (std::uint32_t)k; return v; }
int main()
{
    const std::uint32_t x = (std::uint32_t)vp_sym(32, "x");
    Ev e { x, 1 }; int p = 5; long q = 6;
    addr[0] = &e; addr[1] = &p; addr[2] = &q;
    switch (vp_concretize(vp_sym(4, "case"))) {
    case 7: chain_actions(Rt<1, bool> {}, Rt<2, int> {}, Rt<3, void*> {}, Rt<4, bool> {})(e, p); expect({ 1, 2, 3, 4 }, "CHAIN results of actions are ignored"); vp_assert(e.v == eff(x, { 1, 2, 3, 4 }), "CHAIN mutation visible"); vp_cover("results"); break;
    case 8: chain_actions(Rt<1, bool> {}, Rt<2, bool> {}, Rt<3, bool> {})(e, p); expect({ 1, 2, 3 }, "CHAIN results of actions are ignored (all bool)"); vp_cover("bool"); break;
    case 9: { const std::uint32_t w = (std::uint32_t)vp_sym(32, "w"); const Cn a { 3, w }, b { 5, w ^ 1u }; const auto c = chain(a, b, a); c(e); expect({ 3, 5, 3 }, "CHAIN actions with data, one twice"); vp_assert(e.v == ((x * 3 + w) * 3 + (w ^ 1u)) * 3 + w, "CHAIN mutation visible"); vp_cover("data"); break; }
    case 10: { int l = 0; const auto c = chain([&l](auto&... t) { Ac<1> {}(t...); l++; }, [&l](auto&... t) { Ac<2> {}(t...); l += 10; return l; }); c(e, p, q); c(e, p, q); expect({ 1, 2, 1, 2 }, "CHAIN lambdas"); vp_assert(l == 22, "CHAIN captured state"); vp_cover("lambda"); break; }
    case 11: chain_actions()(e, p); expect({}, "CHAIN empty"); vp_assert(e.v == x, "CHAIN empty chain does nothing"); vp_cover("empty"); break;
    case 12: chain_actions(Ac<1> {}, Ac<2> {}, Ac<3> {}, Ac<4> {}, Ac<5> {}, Ac<6> {}, Ac<7> {}, Ac<8> {}, Ac<9> {}, Ac<10> {}, Ac<11> {}, Ac<12> {})(e, p, q); expect({ 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }, "CHAIN twelve actions"); vp_assert(e.v == eff(x, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 }), "CHAIN mutation visible"); vp_cover("12"); break;
    case 0: chain_actions(Ac<1> {})(e); expect({ 1 }, "CHAIN one action"); vp_assert(e.v == eff(x, { 1 }), "CHAIN mutation visible"); vp_cover("1"); break;
    case 1: chain_actions(Ac<1> {}, Ac<2> {})(e, p); expect({ 1, 2 }, "CHAIN two actions"); vp_assert(e.v == eff(x, { 1, 2 }), "CHAIN mutation visible"); vp_cover("2"); break;
    case 2: chain_actions(Ac<1> {}, Ac<2> {}, Ac<3> {}, Ac<1> {})(e, p, q); expect({ 1, 2, 3, 1 }, "CHAIN four actions, one repeated"); vp_assert(e.v == eff(x, { 1, 2, 3, 1 }), "CHAIN mutation visible"); vp_cover("4"); break;
    case 3: chain(chain_actions(Ac<3> {}, Ac<2> {}), Ac<1> {}, chain(Ac<5> {}))(e, p); expect({ 3, 2, 1, 5 }, "CHAIN nested"); vp_assert(e.v == eff(x, { 3, 2, 1, 5 }), "CHAIN mutation visible"); vp_cover("nested"); break;
    case 4: { // an exception from one action reaches the caller and stops the rest
        std::uint32_t c = (std::uint32_t)vp_sym(32, "threshold"); bool threw = false; const std::uint32_t after = eff(x, { 1 });
        try { chain_actions(Ac<1> {}, Th { &c }, Ac<2> {})(e, p); } catch (int i) { threw = i == 42; }
        vp_assert(threw == (after == c), "CHAIN exception propagates"); if (threw) { expect({ 1, 9 }, "CHAIN stops at exception"); vp_cover("throw"); } else { expect({ 1, 9, 2 }, "CHAIN order with conditional throw"); vp_cover("nothrow"); }
        break; }
    case 5: { const auto c = chain_actions(Ac<2> {}, Ac<4> {}); c(e); expect({ 2, 4 }, "CHAIN const chain"); n = 0; c(e); expect({ 2, 4 }, "CHAIN chain is reusable"); vp_assert(e.v == eff(x, { 2, 4, 2, 4 }), "CHAIN mutation visible"); vp_cover("reuse"); break; }
    case 6: { sm<Mk> m; bad = 0; addr[1] = addr[2] = nullptr; bool r = m.process_event(e); vp_assert(r, "CHAIN machine"); expect({ 1, 2, 3 }, "CHAIN in a transition"); vp_assert(e.v == eff(x, { 1, 2, 3 }), "CHAIN event mutations visible to the caller"); n = 0;
        r = m.process_event(e); vp_assert(r, "CHAIN machine"); expect({ 4, 5, 6, 7 }, "CHAIN nested in a transition"); vp_assert(e.v == eff(x, { 1, 2, 3, 4, 5, 6, 7 }), "CHAIN event mutations visible to the caller"); bad = 0; vp_cover("machine"); break; }
    default: return 0;
    }
    vp_assert(bad == 0, "CHAIN every action gets the caller's arguments");
    vp_observe(e.v); vp_observe(n);
}
