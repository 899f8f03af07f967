// C27: every callback run for an event gets the caller's own event object, so what one callback
// writes into it is seen by the later callbacks of that step and by the caller afterwards.
#include "vp.h"
#include "hsm_any.h"
using namespace hsm;
struct e1 { std::uint32_t x; std::uint32_t y[3]; int n; };
struct e2 { std::uint32_t x; std::uint32_t y[3]; int n; };
struct A {}; struct B {}; struct X {}; struct Y {};
static std::uint64_t gm; static int calls; static const void* addr; static std::uint32_t shadow;
template <class E> static void touch(E& e, std::uint32_t k)
{
    vp_assert((const void*)&e == addr, "EVENT a callback got a copy of the event");
    vp_assert(e.x == shadow, "EVENT a callback sees what earlier callbacks wrote");
    e.x = e.x * 3 + k; shadow = shadow * 3 + k;
    if (e.n < 3) e.y[e.n] = e.x;
    e.n++; calls++;
}
struct none_t {};
template <int K> struct Fn { template <class E, class... R> void operator()(E& e, R&...) const { if constexpr (requires { e.n; }) touch(e, K); } };
template <int K> struct Gd { template <class E, class... R> bool operator()(E& e, R&...) const { if constexpr (requires { e.n; }) touch(e, K); return (gm >> K) & 1; } };
struct En { static constexpr auto on_entry() { return Fn<40> {}; } static constexpr auto on_exit() { return Fn<41> {}; } };
struct P {
    static constexpr auto on_entry() { return Fn<20> {}; }
    static constexpr auto on_exit() { return Fn<21> {}; }
    static constexpr auto make_internal_transition_table() { return transition_table(+(event<e2>[Gd<7> {}] / Fn<22> {})); }
    static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e1>[Gd<0> {}] / Fn<10> {} = state<Y>, state<Y> + event<e1> / Fn<11> {} = state<X>, state<Y> + event<e2>[Gd<1> {}] / chain_actions(Fn<12> {}, Fn<13> {}) = state<X>); }
};
struct Root {
    static constexpr auto on_unexpected_event() { return Fn<30> {}; }
    static constexpr auto make_transition_table() { return transition_table(
        * state<A> + event<e1>[Gd<2> {}] / Fn<14> {} = state<B>, state<A> + event<e1>[Gd<3> {}] / Fn<15> {} = state<En>,
        state<En> + event<e2> / Fn<16> {} = state<P>, state<P> + event<e1>[Gd<4> {}] / Fn<17> {} = state<A>,
        state<B> + event<e1> = state<A>, state<B> + event<noneEvent>[Gd<5> {}] / Fn<18> {} = state<A>, state<A> + event<e2> / Fn<19> {} = history<P>); }
};
template <class E> static void go(sm<Root>& m)
{
    E e { (std::uint32_t)vp_sym(32, "payload"), {}, 0 };
    addr = &e; shadow = e.x; calls = 0;
    gm = vp_sym(8, "guards") & ~(1u << 5);
    bool r = m.process_event(e);
    vp_assert(e.n == calls && e.x == shadow, "EVENT the caller sees what the callbacks wrote");
    if (calls) vp_cover("touched");
    if (calls > 1) vp_cover("touched-twice");
    vp_observe(r); vp_observe(calls);
    addr = nullptr; shadow = 0; calls = 0; gm = 0;
}
__attribute__((noinline)) static void step(sm<Root>& m) { if (vp_sym(1, "event")) go<e2>(m); else go<e1>(m); }
int main()
{
    sm<Root> m;
    for (;;) { vp_checkpoint(); step(m); }
}
