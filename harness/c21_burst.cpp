// C21, long queues: any number of pushes, visits, pushes again and visits until empty; element types of different
// size and with their own resources, arbitrary values.
#include "vp.h"
#include "hsm_any.h"
#include <boost/hana.hpp>
#include <vector>
#ifndef NMAX
#define NMAX 40
#endif
static long alive;
struct E1 { std::uint32_t x; };
struct E2 { std::uint64_t y; int pad[9]; };
struct E3 { std::vector<std::uint32_t> v; E3(std::uint32_t x) : v { x, x ^ 1u, 7u } { alive++; } E3(const E3& o) : v(o.v) { alive++; } E3(E3&& o) : v(std::move(o.v)) { alive++; } E3& operator=(const E3&) = default; E3& operator=(E3&&) = default; ~E3() { alive--; } };
static int types[2 * NMAX]; static std::uint32_t vals[2 * NMAX]; static int head, tail;
using Q = decltype(hsm::variant_queue { boost::hana::make_tuple(boost::hana::type_c<E1>, boost::hana::type_c<E2>, boost::hana::type_c<E3>) });
static void push(Q& q, int pattern)
{
    const std::uint32_t x = (std::uint32_t)vp_sym(32, "x"); const int t = pattern == 3 ? 2 : (tail * 5 + tail / 3 + pattern) % 3;
    types[tail] = t; vals[tail] = x; tail++;
    if (t == 0) { E1 e { x }; q.push(e); vp_assert(e.x == x, "VQ the pushed element is unchanged"); }
    else if (t == 1) { E2 e { x, { 1, 2, 3 } }; q.push(e); vp_assert(e.y == x, "VQ the pushed element is unchanged"); }
    else { E3 e { x }; q.push(e); vp_assert(e.v.size() == 3 && e.v[0] == x, "VQ the pushed element is unchanged"); }
    vp_assert(q.size() == (std::size_t)(tail - head) && !q.empty(), "VQ size/empty");
}
static void visit(Q& q)
{
    int calls = 0, t = -1; std::uint32_t v = 0;
    q.visit([&](auto e) { calls++; using T = decltype(e); if constexpr (std::is_same_v<T, E1>) { t = 0; v = e.x; } else if constexpr (std::is_same_v<T, E2>) { t = 1; v = (std::uint32_t)e.y; vp_assert(e.y >> 32 == 0 && e.pad[0] == 1 && e.pad[1] == 2 && e.pad[2] == 3, "VQ payload"); } else { t = 2; vp_assert(e.v.size() == 3 && e.v[2] == 7u && e.v[1] == (e.v[0] ^ 1u), "VQ payload"); v = e.v[0]; } });
    vp_assert(calls == 1, "VQ visit calls the callable exactly once"); vp_assert(t == types[head], "VQ oldest element's type"); vp_assert(v == vals[head], "VQ oldest element's value");
    head++; vp_assert(q.size() == (std::size_t)(tail - head) && q.empty() == (tail == head), "VQ size/empty");
}
static unsigned pick(unsigned lim, const char* n) { const unsigned v = (unsigned)vp_sym(8, n); vp_assume(v <= lim); return (unsigned)vp_concretize(v); }
int main()
{
    const std::uint64_t base = vp_live_heap();
    {
        Q q { boost::hana::make_tuple(boost::hana::type_c<E1>, boost::hana::type_c<E2>, boost::hana::type_c<E3>) };
        const int pattern = (int)pick(3, "pattern");
        const unsigned n = pick(NMAX, "pushes"); for (unsigned i = 0; i < n; i++) push(q, pattern);
        const unsigned cut = pick(3, "visits"); const unsigned m = cut == 0 ? 0 : cut == 1 ? n / 2 : cut == 2 ? (n ? n - 1 : 0) : n; for (unsigned i = 0; i < m; i++) visit(q);
        const unsigned k = vp_sym(1, "again") ? n : 3; for (unsigned i = 0; i < k && n; i++) push(q, pattern);
        if (vp_sym(1, "drain")) { while (head < tail) visit(q); bool threw = false; try { q.visit([](auto) { vp_assert(false, "VQ visit on an empty queue calls nothing"); }); } catch (const std::runtime_error&) { threw = true; } vp_assert(threw, "VQ visit on an empty queue throws"); vp_cover("drained"); }
        else vp_cover("destroyed-full");
        vp_observe((std::uint64_t)(tail - head));
    }
    vp_assert(alive == 0, "VQ elements are destroyed with the queue"); vp_assert(vp_live_heap() == base, "VQ no leak");
}
