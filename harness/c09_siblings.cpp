// C09 (repaired by 7f948b2): region 0 enters a (one-region) submachine; region 1 must go on reacting.
#include "vp.h"
#include "hsm/hsm.h"
using namespace hsm;
struct A {}; struct X {}; struct Y {}; struct C {}; struct D {}; struct e1 { std::uint32_t x; }; struct e2 { std::uint32_t x; };
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e1> = state<Y>); } };
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e1> = state<P>, * state<C> + event<e2> = state<D>); } };
int main()
{
    sm<Root> m;
    e1 e { (std::uint32_t)vp_sym(32, "payload") };
    vp_assert(m.process_event(e), "SUSPEND e1 is processed");
    vp_assert(m.is(0, state<P>, state<X>), "SUSPEND region 0 is in the submachine");
    vp_cover("stepped");
    e2 f { (std::uint32_t)vp_sym(32, "payload") };
    bool r = m.process_event(f);
    vp_assert(r && m.is(1, state<Root>, state<D>), "SUSPEND region 1 reacts while region 0 is in a submachine");
}
