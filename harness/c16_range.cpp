// C16: region arguments outside the machine's regions are rejected with out_of_range and change nothing.
#include "vp.h"
#include "hsm_any.h"
#include <stdexcept>
using namespace hsm;
struct A {}; struct B {}; struct C {}; struct D {}; struct e1 {}; struct e2 {};
struct Root { static constexpr auto make_transition_table() { return transition_table(* state<A> + event<e1> = state<B>, * state<C> + event<e2> = state<D>); } };
struct One { static constexpr auto make_transition_table() { return transition_table(* state<A> + event<e1> = state<B>, state<B> + event<e1> = state<C>); } };
template <class R, unsigned N, class I, class S> static void go(I init, S tgt)
{
    sm<R> m;
    const unsigned r = (unsigned)vp_sym(8, "region");
    const std::uint8_t reg = (std::uint8_t)r;
    bool threw = false, threw2 = false;
    const bool query = vp_sym(1, "query-only");
    if (!query) {
        try { m.set(reg, state<R>, tgt); } catch (const std::out_of_range&) { threw = true; }
        vp_assert(threw == (r >= N), "RANGE set throws out_of_range exactly for a region the machine does not have");
        if (threw) { vp_cover("set-range"); vp_assert(m.is(0, state<R>, init) && m.is(state<R>, init), "RANGE a rejected set changes nothing"); }
        else { vp_cover("set-ok"); vp_assert(m.is(reg, state<R>, tgt), "RANGE set is visible through is"); if (N == 2) vp_assert(m.is(r == 0, state<R>, state<C>) == (r == 0), "RANGE the other region is unchanged"); }
    } else {
        try { (void)m.is(reg, state<R>, tgt); } catch (const std::out_of_range&) { threw2 = true; }
        vp_assert(threw2 == (r >= N), "RANGE is throws out_of_range exactly for a region the machine does not have");
        vp_cover("query");
    }
    vp_observe(threw); vp_observe(threw2);
}
int main()
{
    if (vp_sym(1, "machine")) go<Root, 2>(state<A>, state<B>); else go<One, 1>(state<A>, state<C>);
    vp_checkpoint();
}
