// C09/C07, specific history: a submachine with two regions of its own is entered from a one-region root.
// Expected: both of its regions start in their initial states.
#include "vp.h"
#include "hsm/hsm.h"
using namespace hsm;
struct A {}; struct X {}; struct Y {}; struct V {}; struct W {}; struct e1 { std::uint32_t x; }; struct e2 {};
struct P { static constexpr auto make_transition_table() { return transition_table(
    * state<X> + event<e2> = state<Y>, * state<V> + event<e2> = state<W>); } };
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e1> = state<P>); } };
int main()
{
    sm<Root> m;
    e1 e { (std::uint32_t)vp_sym(32, "payload") };
    vp_assert(m.process_event(e), "SUBREG e1 is processed");
    vp_assert(m.is(0, state<P>, state<X>), "SUBREG first region starts in X");
    vp_assert(m.is(1, state<P>, state<V>), "SUBREG second region starts in V");
    vp_cover("stepped");
}
