// C25: machines kept in a std::vector, which moves them to new places whenever it grows, and in containers that erase
// and rotate.  Each machine keeps its own current state, history, pending events and dependency whatever happens to its
// neighbours and wherever it is moved.
#include "vp.h"
#include "hsm_any.h"
#include <algorithm>
#include <vector>
using namespace hsm;
#ifndef STEPS
#define STEPS 4
#endif
#ifndef NM
#define NM 4
#endif
struct go { std::uint32_t x; }; struct out { std::uint32_t x; }; struct def { std::uint32_t x; };
struct Dep { int id; int hits; };
static Dep deps[NM]; static std::uint32_t got; static int ngot, expect_dep, bad;
struct Ac { template <class E, class S, class T> void operator()(E&, S&, T&, Dep& d) const { if (d.id != expect_dep) bad++; d.hits++; } };
struct Dl { template <class E, class S, class T> void operator()(E& e, S&, T&, Dep& d) const { if (d.id != expect_dep) bad++; d.hits++; got = e.x; ngot++; } };
struct A { static constexpr auto defer_events() { return events<def>; } };
struct X {}; struct Y {};
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<go> / Ac {} = state<Y>, state<Y> + event<go> / Ac {} = state<X>, state<X> + event<def> / Dl {} = state<X>, state<Y> + event<def> / Dl {} = state<Y>); } };
struct Root { static constexpr auto make_transition_table() { return transition_table(* state<A> + event<go> / Ac {} = history<P>, state<P> + event<out> / Ac {} = state<A>); } };
using M = sm<Root, Dep>;
struct R { int cur = 0, hist = 1, id = 0, pend = 0; std::uint32_t v[2] = {}; };   // cur: 0 A, 1 X, 2 Y
template <class E> static bool ev(M& m, std::uint32_t x) { E e { x }; return m.process_event(e); }
int main()
{
    const std::uint64_t base = vp_live_heap();
    {
        for (int i = 0; i < NM; i++) deps[i] = { i, 0 };
        std::vector<M> v; R r[NM]; int n = 0, fresh = 0;
        for (; n < 2; n++, fresh++) { v.emplace_back(deps[fresh]); r[n].id = fresh; }
        for (int step = 0; step < STEPS; step++) {
            for (auto& d : deps) d.hits = 0;
            ngot = bad = 0;
            const int op = (int)vp_concretize(vp_sym(3, "op"));
            if (op == 7) break;
            const std::uint64_t ks = vp_sym(2, "k"); vp_assume(ks < (std::uint64_t)(n ? n : 1)); const int k = (int)vp_concretize(ks);
            if (op == 0) { if (fresh >= NM) break; v.emplace_back(deps[fresh]); r[n] = R {}; r[n].id = fresh; fresh++; n++; vp_cover("grown"); }
            else if (!n) break;
            else if (op == 1) { v.erase(v.begin() + k); for (int i = k; i + 1 < n; i++) r[i] = r[i + 1]; n--; vp_cover("erased"); }
            else if (op == 2) { std::rotate(v.begin(), v.begin() + k, v.end()); std::rotate(r, r + k, r + n); vp_cover("rotated"); }
            else if (op == 3) { if (v.capacity() > v.size()) v.shrink_to_fit(); else v.reserve(v.size() + 1); vp_cover("reallocated"); }
            else {
                R& q = r[k]; expect_dep = q.id; bool want, res; int hits = 0, deliver = 0; std::uint32_t dv = 0;
                if (op == 4) { res = ev<go>(v[k], 1); want = true; q.cur = q.cur == 0 ? q.hist : 3 - q.cur; hits = 1; if (q.pend) { deliver = 1; dv = q.v[0]; q.v[0] = q.v[1]; q.pend--; hits++; } }
                else if (op == 5) { res = ev<out>(v[k], 2); want = q.cur != 0; if (want) { q.hist = q.cur; q.cur = 0; hits = 1;
                    if (q.pend == 2) std::swap(q.v[0], q.v[1]); } /* recalled in A: deferred again, at the end */ }
                else { const std::uint32_t x = (std::uint32_t)vp_sym(32, "x"); if (q.cur == 0 && q.pend == 2) break; res = ev<def>(v[k], x);
                    if (q.cur == 0) { want = false; q.v[q.pend++] = x; vp_cover("deferred"); }
                    else { want = true; hits = 1; deliver = 1; dv = x; if (q.pend) { hits++; } } }
                vp_assert(res == want, "RET result");
                vp_assert(bad == 0, "DEP a callback received another machine's dependency");
                if (op == 6 && want && q.pend) { vp_assert(ngot == 2 && got == q.v[0], "DEFER the recalled event is delivered"); q.v[0] = q.v[1]; q.pend--; vp_cover("recalled"); }
                else { vp_assert(ngot == deliver, "DEFER deliveries"); if (deliver) vp_assert(got == dv, "DEFER payload"); if (op == 4 && deliver) vp_cover("recalled"); }
                for (int i = 0; i < NM; i++) vp_assert(deps[i].hits == (i == q.id ? hits : 0), "ACT exactly this machine's callbacks ran");
                vp_observe(res); vp_observe((std::uint64_t)ngot);
            }
            vp_assert((int)v.size() == n, "HARNESS size");
            for (int i = 0; i < n; i++) { vp_assert(v[i].is(state<A>) == (r[i].cur == 0), "STATE A"); vp_assert(v[i].is(state<P>, state<X>) == (r[i].cur == 1), "STATE P.X"); vp_assert(v[i].is(state<P>, state<Y>) == (r[i].cur == 2), "STATE P.Y"); }
        }
    }
    vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machines were destroyed"); vp_cover("destroyed");
}
