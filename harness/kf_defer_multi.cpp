// C11, specific history: two regions; in the initial configuration e2 has a transition in region 0 and is
// deferred by region 1.  Expected: an event is either processed or deferred, not both -- processed once, result true.
#include "vp.h"
#include "hsm/hsm.h"
using namespace hsm;
struct e1 { std::uint32_t x; }; struct e2 { std::uint32_t x; };
static int n;
struct Act { template <class... T> void operator()(T&...) const { n++; } };
struct A {}; struct C { static constexpr auto defer_events() { return events<e2>; } }; struct D {};
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<e2> / Act {} = state<A>, * state<C> + event<e1> = state<D>); } };
int main()
{
    sm<Root> m;
    e2 e { (std::uint32_t)vp_sym(32, "payload") };
    bool r = m.process_event(e);
    vp_cover("stepped");
    vp_assert(n == 1, "DEFERMULTI region 0 reacted");
    vp_assert(r, "DEFERMULTI an event that made a region transit is reported as processed");
}
