// C18: operator new may fail (std::bad_alloc) at any single allocation, during construction, while an event is deferred
// or during set_dependency.  The exception reaches the caller, nothing leaks or is freed twice, and after a failed
// deferral everything deferred before is still delivered, in order.
#include "vp.h"
#include "hsm_any.h"
#include <new>
using namespace hsm;
static unsigned failat;      // fail the n-th allocation from now; 0: never
void* operator new(std::size_t n) { if (failat && --failat == 0) throw std::bad_alloc(); return vp_raw_new(n); }
struct d1 { std::uint32_t x; std::uint32_t pad[40]; }; struct go {}; struct tick {}; struct nix {};
static std::uint32_t got[2]; static int ngot; static int* dep;
struct Got { template <class E, class S, class T> void operator()(E& e, S&, T&, int& d) const { vp_assert(ngot < 2, "OOM too many deliveries"); vp_assert(e.pad[39] == 77u, "OOM payload"); got[ngot++] = e.x; dep = &d; } };
struct Hd { template <class E, class... R> void operator()(E&, R&...) const {} };
struct A { static constexpr auto defer_events() { return events<d1>; } };
struct B {}; struct X {};
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<nix> = state<X>); } };
struct Root {
    static constexpr auto on_unexpected_event() { return Hd {}; }
    static constexpr auto make_transition_table() { return transition_table(* state<A> + event<go> = state<B>, state<B> + event<d1> / Got {} = state<B>, state<B> + event<tick> = state<B>, state<B> + event<nix> = history<P>, state<P> + event<go> = state<A>); } };
static int head, tail; static std::uint32_t vals[16];
static unsigned pick(unsigned lim, const char* n) { const unsigned v = (unsigned)vp_sym(9, n); vp_assume(v <= lim); return (unsigned)vp_concretize(v); }
static void drain(sm<Root, int>& m, int& d)
{
    for (bool first = true; first || head < tail; first = false) {
        ngot = 0; bool r = false;
        if (first) { go e; r = m.process_event(e); } else { tick e; r = m.process_event(e); }
        vp_assert(r, "OOM processed");
        if (head < tail) { vp_assert(ngot == 1 && got[0] == vals[head] && dep == &d, "OOM deferred events survive a failed deferral, in order"); head++; }
        else vp_assert(ngot == 0, "OOM nothing else is delivered");
    }
    vp_assert(m.is(state<B>), "OOM state");
}
int main()
{
    const std::uint64_t base = vp_live_heap();
    int d = 0, d2 = 0; bool threw = false;
    const unsigned scenario = pick(2, "scenario");
    const unsigned k = pick(scenario == 1 ? 24 : 300, "failing allocation");
    {
        if (scenario == 0) failat = k;
        try {
            sm<Root, int> m(d);
            if (scenario == 0) { vp_assert(k == 0 || failat > 0, "OOM bad_alloc reaches the caller of the constructor"); failat = 0; drain(m, d); vp_cover("constructed"); }
            else if (scenario == 1) {
                failat = k;
                for (int i = 0; i < 12; i++) {
                    d1 e {}; e.x = (std::uint32_t)vp_sym(32, "x"); e.pad[39] = 77u; bool r = true;
                    try { r = m.process_event(e); vp_assert(!r, "OOM deferred"); vals[tail++] = e.x; } catch (const std::bad_alloc&) { vp_assert(!threw, "OOM one failure"); threw = true; vp_cover("deferral-failed"); }
                    vp_assert(e.pad[39] == 77u && m.is(state<A>), "OOM a failed deferral changes nothing");
                }
                failat = 0; drain(m, d);
            } else {
                failat = k; bool failed = false;
                try { m.set_dependency(d2); } catch (const std::bad_alloc&) { failed = true; vp_cover("set-failed"); }
                vp_assert(k == 0 || failed == (failat == 0), "OOM bad_alloc reaches the caller of set_dependency");
                failat = 0;
                if (failed) m.set_dependency(d2);
                drain(m, d2); vp_cover("set");
            }
        } catch (const std::bad_alloc&) { vp_assert(scenario == 0 && k > 0, "OOM bad_alloc"); failat = 0; vp_cover("construction-failed"); }
    }
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive at the end");
    vp_cover("end");
}
