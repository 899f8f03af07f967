// C14: the object a callback receives for a state is that machine's one persistent object of the
// state: what any callback wrote is what every later callback reads, whatever happened in between.
#include "vp.h"
#include "hsm_any.h"
#ifndef NINST
#define NINST 1
#endif
using namespace hsm;
struct A; struct B; struct X; struct Y; struct P;
template <class T> struct id { enum { v = -1 }; }; template <> struct id<A> { enum { v = 0 }; }; template <> struct id<B> { enum { v = 1 }; }; template <> struct id<X> { enum { v = 2 }; }; template <> struct id<Y> { enum { v = 3 }; }; template <> struct id<P> { enum { v = 4 }; }; struct Root;
static std::uint32_t ref[NINST][5]; static int inst, ncall;
static long alive[5];      // state objects of each type: they live exactly as long as their machine
template <class T> struct Count { Count() { alive[id<T>::v]++; } Count(const Count&) { alive[id<T>::v]++; } Count(Count&&) noexcept { alive[id<T>::v]++; } Count& operator=(const Count&) = default; ~Count() { alive[id<T>::v]--; } };
static void chkalive(long n) { for (long a : alive) vp_assert(n ? a >= n : a == 0, "DATA the state objects live as long as their machine"); }
template <class S> static void chk(S& s) { vp_assert(s.d == ref[inst][id<S>::v], "DATA state data differs from what was last written"); }
struct Dep { int z; }; static Dep deps[2];
struct w { std::uint32_t x; }; struct go { std::uint32_t x; }; struct nx { std::uint32_t x; }; struct bk { std::uint32_t x; }; struct hg { std::uint32_t x; };
struct Wr { template <class E, class S, class T> void operator()(E& e, S& s, T& t, Dep&) const
    { ncall++; chk(s); chk(t); s.d += e.x; ref[inst][id<S>::v] += e.x; chk(t); t.d ^= e.x; ref[inst][id<T>::v] ^= e.x; } };
struct Rd { template <class E, class S, class T> void operator()(E&, S& s, T& t, Dep&) const { ncall++; chk(s); chk(t); } };
struct Gd { template <class E, class S, class T> bool operator()(E& e, S& s, T& t, Dep&) const { chk(s); chk(t); s.d += 1; ref[inst][id<S>::v] += 1; return (e.x & 1) == 0; } };
struct Un { template <class E, class S> void operator()(E& e, S& s, Dep&) const { if constexpr (id<S>::v >= 0) { ncall++; vp_cover("handler"); chk(s); s.d -= e.x; ref[inst][id<S>::v] -= e.x; } } };
struct A : Count<A> { std::uint32_t d = 0; static constexpr auto on_exit() { return Rd {}; } };
struct B : Count<B> { std::uint32_t d = 0; static constexpr auto on_entry() { return Wr {}; } static constexpr auto make_internal_transition_table() { return transition_table(+(event<w> / Wr {})); } };
struct X : Count<X> { std::uint32_t d = 0; };
struct Y : Count<Y> { std::uint32_t d = 0; };
struct P : Count<P> { std::uint32_t d = 0; static constexpr auto on_exit() { return Wr {}; }
    static constexpr auto make_transition_table() { return transition_table(* state<X> + event<w> / Wr {} = state<X>, state<X> + event<nx>[Gd {}] / Wr {} = state<Y>, state<Y> + event<w> / Wr {} = state<X>, state<Y> + event<nx> / Rd {} = state<X>); } };
struct Root { static constexpr auto on_unexpected_event() { return Un {}; } static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<w> / Wr {} = state<A>, state<A> + event<nx>[Gd {}] / Wr {} = state<B>, state<B> + event<nx> / Rd {} = state<A>,
    state<A> + event<go> / Wr {} = state<P>, state<P> + event<bk> / Rd {} = state<A>, state<B> + event<hg> / Wr {} = history<P>, state<P> + event<hg> / Wr {} = state<B>); } };
static void body()
{
#if NINST == 2
    sm<Root, Dep> m[NINST] { sm<Root, Dep> { deps[0] }, sm<Root, Dep> { deps[0] } };
#else
    sm<Root, Dep> m[NINST] { sm<Root, Dep> { deps[0] } };
#endif
    for (;;) {
        vp_checkpoint();
        ncall = 0; chkalive(NINST);
        if (vp_sym(1, "quit")) break;
        if (NINST > 1) inst = (int)vp_concretize(vp_sym(1, "instance"));
        std::uint32_t x = (std::uint32_t)vp_sym(32, "payload");
        switch (vp_concretize(vp_sym(3, "event"))) {
        case 0: { w e { x }; m[inst].process_event(e); break; }
        case 1: { nx e { x }; m[inst].process_event(e); break; }
        case 2: { go e { x }; m[inst].process_event(e); break; }
        case 3: { bk e { x }; m[inst].process_event(e); break; }
        case 4: { hg e { x }; m[inst].process_event(e); break; }
        case 5: m[inst].set_dependency(deps[1]); vp_cover("set_dependency"); break;
        default: vp_assume(false);
        }
        if (ncall) vp_cover("callback");
        vp_observe(ncall); for (auto& q : ref) for (auto v : q) vp_observe(v);
    }
}
int main() { body(); chkalive(0); vp_cover("destroyed"); }
