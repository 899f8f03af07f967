// C10, long runs: an event followed by any number (up to NMAX) of anonymous steps before process_event returns: an
// anonymous self transition, a cycle of two states, an anonymous internal transition, a cycle through a submachine.
// The number of steps is decided by a guard over a symbolic countdown; afterwards the machine still reacts to events.
#include "vp.h"
#include "hsm_any.h"
#ifndef NMAX
#define NMAX 100
#endif
using namespace hsm;
static int left, acts, guards, entries, exits;
struct More { template <class... A> bool operator()(A&&...) const { guards++; return left > 0; } };
struct Done { template <class... A> bool operator()(A&&...) const { return left <= 0; } };
struct Ac { template <class... A> void operator()(A&&...) const { acts++; left--; } };
struct En { template <class... A> void operator()(A&&...) const { entries++; } };
struct Ex { template <class... A> void operator()(A&&...) const { exits++; } };
struct eself {}; struct ecyc {}; struct eint {}; struct esub {}; struct out {}; struct back {};
struct I {}; struct S { static constexpr auto on_entry() { return En {}; } static constexpr auto on_exit() { return Ex {}; } };
struct C1 {}; struct C2 {}; struct N { static constexpr auto on_entry() { return En {}; } static constexpr auto on_exit() { return Ex {}; } static constexpr auto make_internal_transition_table() { return transition_table(+(event<noneEvent>[More {}] / Ac {})); } };
struct X {}; struct Y {};
struct P { static constexpr auto on_entry() { return En {}; } static constexpr auto on_exit() { return Ex {}; } static constexpr auto make_transition_table() { return transition_table(* state<X> + event<back> = state<Y>, state<X>[More {}] / Ac {} = state<Y>, state<Y>[More {}] / Ac {} = state<X>); } };
struct E {};
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<I> + event<eself> = state<S>, state<S>[More {}] / Ac {} = state<S>, state<S>[Done {}] = state<E>,
    state<I> + event<ecyc> = state<C1>, state<C1>[More {}] / Ac {} = state<C2>, state<C2>[More {}] / Ac {} = state<C1>,
    state<I> + event<eint> = state<N>,
    state<I> + event<esub> = state<P>, state<P> + event<out> = state<I>,
    state<C1> + event<out> = state<I>, state<C2> + event<out> = state<I>, state<N> + event<out> = state<I>, state<E> + event<out> = state<I>); } };
template <class EV> static bool ev(sm<Root>& m) { EV e {}; return m.process_event(e); }
int main()
{
    const std::uint64_t base = vp_live_heap();
    {
        sm<Root> m;
        for (int round = 0; round < 2; round++) {
            const unsigned k = (unsigned)vp_sym(8, "steps"); vp_assume(k <= (round ? 3u : (unsigned)NMAX)); const int n = (int)vp_concretize(k);
            left = n; acts = guards = entries = exits = 0;
            switch (vp_concretize(vp_sym(2, "kind"))) {
            case 0: vp_assert(ev<eself>(m), "LONG result"); vp_assert(acts == n && left == 0, "LONG every anonymous self transition was taken"); vp_assert(entries == n + 1 && exits == n + 1, "LONG entry and exit of the self transition"); vp_assert(m.is(state<E>), "LONG the machine comes to rest after the last enabled anonymous transition"); vp_cover("self"); break;
            case 1: vp_assert(ev<ecyc>(m), "LONG result"); vp_assert(acts == n && left == 0 && guards == n + 1, "LONG every step of the cycle was taken"); vp_assert(m.is(state<C1>) == (n % 2 == 0) && m.is(state<C2>) == (n % 2 == 1), "LONG the machine rests where the chain ends"); vp_cover("cycle"); break;
            case 2: vp_assert(ev<eint>(m), "LONG result"); vp_assert(acts == n && left == 0, "LONG every anonymous internal transition was taken"); vp_assert(entries == 1 && exits == 0 && m.is(state<N>), "LONG internal transitions do not leave the state"); vp_cover("internal"); break;
            default: vp_assert(ev<esub>(m), "LONG result"); vp_assert(acts == n && left == 0, "LONG every anonymous transition of the submachine was taken"); vp_assert(entries == 1 && exits == 0, "LONG the submachine is not left"); vp_assert(m.is(state<P>, state<X>) == (n % 2 == 0) && m.is(state<P>, state<Y>) == (n % 2 == 1), "LONG substate"); vp_cover("sub");
                break;
            }
            vp_observe((std::uint64_t)acts); vp_observe((std::uint64_t)entries); vp_observe((std::uint64_t)exits);
            left = 0; ev<out>(m); if (!m.is(state<I>)) ev<out>(m);
            if (!m.is(state<I>)) break;
        }
    }
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machine was destroyed");
}
