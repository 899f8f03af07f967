// C11, many deferred events at once: any number up to NMAX, of three types, one of which owns heap memory, arbitrary
// payloads; released one per processed event, in order, unchanged, exactly once.  Part of the queue is deferred again.
#include "vp.h"
#include "hsm_any.h"
#include <string>
#include <vector>
#ifndef NMAX
#define NMAX 24
#endif
using namespace hsm;
static long alive;
struct d1 { std::uint32_t x; };
struct d2 { std::uint64_t pad[3]; std::uint32_t x; };
struct d3 { std::vector<std::uint32_t> v; d3(std::uint32_t x) : v { x, 5u } { alive++; } d3(const d3& o) : v(o.v) { alive++; } d3(d3&& o) noexcept : v(std::move(o.v)) { alive++; } d3& operator=(const d3&) = default; d3& operator=(d3&&) = default; ~d3() { alive--; } };
struct go {}; struct tick {}; struct back {}; struct part {};
static std::uint32_t got[8]; static int gott[8], ngot;
static std::uint32_t val(const d1& e) { return e.x; } static std::uint32_t val(const d2& e) { vp_assert(e.pad[0] == 1 && e.pad[2] == 3, "DEFER payload unchanged"); return e.x; } static std::uint32_t val(const d3& e) { vp_assert(e.v.size() == 2 && e.v[1] == 5u, "DEFER payload unchanged"); return e.v[0]; }
static int typ(const d1&) { return 0; } static int typ(const d2&) { return 1; } static int typ(const d3&) { return 2; }
struct Got { template <class E, class S, class T> void operator()(E& e, S&, T&) const { vp_assert(ngot < 8, "DEFER too many deliveries"); gott[ngot] = typ(e); got[ngot++] = val(e); } };
struct A { static constexpr auto defer_events() { return events<d1, d2, d3>; } };
struct B {};
struct C { static constexpr auto defer_events() { return events<d2>; } };      // only some of them
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<go> = state<B>, state<A> + event<part> = state<C>,
    state<B> + event<d1> / Got {} = state<B>, state<B> + event<d2> / Got {} = state<B>, state<B> + event<d3> / Got {} = state<B>, state<B> + event<tick> = state<B>, state<B> + event<back> = state<A>,
    state<C> + event<d1> / Got {} = state<C>, state<C> + event<d3> / Got {} = state<C>, state<C> + event<tick> = state<C>, state<C> + event<go> = state<B>); } };
static int types[4 * NMAX]; static std::uint32_t vals[4 * NMAX]; static int head, tail; static int st;   // 0 A, 1 B, 2 C
static unsigned pick(unsigned lim, const char* n) { const unsigned v = (unsigned)vp_sym(8, n); vp_assume(v <= lim); return (unsigned)vp_concretize(v); }
static void defer(sm<Root>& m, int pattern)
{
    const std::uint32_t x = (std::uint32_t)vp_sym(32, "x"); const int t = pattern == 3 ? 2 : pattern == 4 ? 0 : (tail * 5 + tail / 4 + pattern) % 3;
    types[tail] = t; vals[tail] = x; tail++; bool r = true;
    if (t == 0) { d1 e { x }; r = m.process_event(e); vp_assert(e.x == x, "DEFER the caller's event is unchanged"); }
    else if (t == 1) { d2 e { { 1, 2, 3 }, x }; r = m.process_event(e); vp_assert(e.x == x, "DEFER the caller's event is unchanged"); }
    else { d3 e { x }; r = m.process_event(e); vp_assert(e.v.size() == 2 && e.v[0] == x, "DEFER the caller's event is unchanged"); }
    vp_assert(!r && ngot == 0, "DEFER a deferred event is not processed");
}
template <class E> static void step(sm<Root>& m, int to)
{
    ngot = 0; const bool r = m.process_event(E {}); st = to;
    vp_assert(r, "DEFER process_event result");
    if (head < tail) {
        const int t = types[head]; const std::uint32_t v = vals[head]; head++;
        if (st == 0 || (st == 2 && t == 1)) { types[tail] = t; vals[tail] = v; tail++; vp_assert(ngot == 0, "DEFER deferred again"); vp_cover("deferred-again"); }
        else { vp_assert(ngot == 1, "DEFER one deferred event is delivered per processed event"); vp_assert(gott[0] == t, "DEFER order of delivery (type)"); vp_assert(got[0] == v, "DEFER order of delivery, payload"); vp_cover("delivered"); }
    } else { vp_assert(ngot == 0, "DEFER nothing is delivered twice"); vp_cover("empty"); }
    vp_assert(m.is(state<A>) == (st == 0) && m.is(state<B>) == (st == 1) && m.is(state<C>) == (st == 2), "DEFER state");
    vp_observe((std::uint64_t)ngot);
}
int main()
{
    const std::uint64_t base = vp_live_heap();
    {
        sm<Root> m;
        const int pattern = (int)pick(4, "pattern");
        const unsigned n = pick(NMAX, "deferred");
        for (unsigned i = 0; i < n; i++) defer(m, pattern);
        switch (pick(3, "scenario")) {
        case 0: step<go>(m, 1); for (unsigned i = 0; i <= n; i++) step<tick>(m, 1); break;
        case 1: step<part>(m, 2); for (unsigned i = 0; i <= n; i++) step<tick>(m, 2); step<go>(m, 1); for (unsigned i = 0; i <= n; i++) step<tick>(m, 1); break;
        case 2: step<go>(m, 1); for (unsigned i = 0; i < n / 2; i++) step<tick>(m, 1); step<back>(m, 0); for (unsigned i = 0; i < n / 2; i++) { ngot = 0; defer(m, pattern); } step<go>(m, 1); for (unsigned i = 0; i <= n; i++) step<tick>(m, 1); break;
        default: vp_cover("destroyed-pending"); break;
        }
    }
    vp_assert(alive == 0, "DEFER pending events are destroyed with the machine"); vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machine was destroyed");
}
