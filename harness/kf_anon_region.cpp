// C10, specific history: two regions; after e1 region 0 is in B (no anonymous row) and region 1 in D
// (anonymous row with guard).  Expected: D's anonymous transition is taken when its guard holds.
#include "vp.h"
#include "hsm/hsm.h"
using namespace hsm;
struct A {}; struct B {}; struct C {}; struct D {}; struct E {}; struct e1 {}; struct e2 {};
static bool gv;
struct Gd { template <class... T> bool operator()(T&...) const { return gv; } };
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e1> = state<B>, state<B> + event<e2> = state<A>,
    * state<C> + event<e1> = state<D>, state<D>[Gd {}] = state<E>, state<E> + event<e2> = state<C>); } };
int main()
{
    sm<Root> m;
    gv = vp_sym(1, "guard");
    e1 e; vp_assert(m.process_event(e), "ANON e1 is processed");
    vp_assert(m.is(0, state<Root>, state<B>), "ANON region 0 moved");
    if (!gv) vp_assert(m.is(1, state<Root>, state<D>), "ANON guard false: stays");
    else vp_assert(m.is(1, state<Root>, state<E>), "ANON region 1 completes although region 0 has no anonymous transition");
    vp_cover("stepped");
}
