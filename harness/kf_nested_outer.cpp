// C07, specific history: Root > P > L.  While the machine is in L (nested in P), the transition Root declares
// for P (state<P> + e3 = A) must still apply.
#include "vp.h"
#include "hsm/hsm.h"
using namespace hsm;
struct A {}; struct X {}; struct V {}; struct W {}; struct e1 { std::uint32_t x; }; struct e2 { std::uint32_t x; }; struct e3 { std::uint32_t x; };
struct L { static constexpr auto make_transition_table() { return transition_table(* state<V> + event<e1> = state<W>); } };
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e2> = state<L>); } };
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e1> = state<P>, state<P> + event<e3> = state<A>); } };
int main()
{
    sm<Root> m; std::uint32_t x = (std::uint32_t)vp_sym(32, "payload");
    e1 a { x }; vp_assert(m.process_event(a) && m.is(state<P>, state<X>), "NESTED entered P");
    e2 b { x }; vp_assert(m.process_event(b) && m.is(state<L>, state<V>), "NESTED entered L");
    vp_cover("stepped");
    e3 c { x }; bool r = m.process_event(c);
    vp_assert(r && m.is(state<Root>, state<A>), "NESTED a transition of the enclosing submachine applies in nested submachines");
}
