// C21: variant_queue is a FIFO of events of mixed types.
#include "vp.h"
#include "hsm_any.h"
#include <boost/hana.hpp>
static int live;      // E1 objects alive; a moved-from E1 no longer has its value
struct E1 {
    std::uint32_t x;
    explicit E1(std::uint32_t v) : x(v) { live++; }
    E1(const E1& o) : x(o.x) { live++; }
    E1(E1&& o) noexcept : x(o.x) { o.x = ~o.x; live++; }
    E1& operator=(const E1& o) { x = o.x; return *this; }
    E1& operator=(E1&& o) noexcept { x = o.x; if (this != &o) o.x = ~o.x; return *this; }
    ~E1() { live--; }
}; struct E2 { std::uint64_t y; int pad[3]; }; struct E3 {};
#ifndef QN
#define QN 5
#endif
struct Model { int t[QN + 2]; std::uint64_t v[QN + 2]; int n = 0; };
static Model md;
int main()
{
    auto events = boost::hana::make_tuple(boost::hana::type_c<E1>, boost::hana::type_c<E2>, boost::hana::type_c<E3>);
    hsm::variant_queue q { events };
    vp_assert(q.empty() && q.size() == 0, "VQ fresh queue is empty");
    const unsigned rot = (unsigned)vp_concretize(vp_sym(2, "how")); int pushes = 0;     // which overload each push uses
    for (;;) {
        vp_checkpoint();
        const unsigned op = (unsigned)vp_concretize(vp_sym(3, "op"));
        if (op <= 2) {
            vp_assume(md.n < QN);
            std::uint64_t v = op == 2 ? 0 : op == 0 ? vp_sym(32, "x") : vp_sym(64, "y");
            const unsigned how = (rot + (unsigned)pushes++) % 4;
            if (op == 0) {
                E1 e { (std::uint32_t)v }; const E1& c = e;
                if (how == 0) q.push(e); else if (how == 1) q.push(E1 { (std::uint32_t)v }); else if (how == 2) q.push(c); else q.push(std::move(e));
                vp_assert(how == 3 || e.x == (std::uint32_t)v, "VQ push leaves the pushed object alone");
            } else if (op == 1) {
                E2 e { v, { 1, 2, 3 } }; const E2& c = e;
                if (how == 0) q.push(e); else if (how == 1) q.push(E2 { v, { 1, 2, 3 } }); else if (how == 2) q.push(c); else q.push(std::move(e));
            } else { E3 e; const E3& c = e; if (how == 0) q.push(e); else if (how == 1) q.push(E3 {}); else if (how == 2) q.push(c); else q.push(std::move(e)); }
            md.t[md.n] = (int)op; md.v[md.n] = v; md.n++; vp_cover("push");
        } else if (op == 3) {
            int calls = 0, t = -1; std::uint64_t v = 0; bool threw = false;
            auto f = [&](auto e) { calls++; using T = decltype(e); if constexpr (std::is_same_v<T, E1>) { t = 0; v = e.x; } else if constexpr (std::is_same_v<T, E2>) { t = 1; v = e.y; vp_assert(e.pad[0] == 1 && e.pad[1] == 2 && e.pad[2] == 3, "VQ payload"); } else t = 2; };
            try { q.visit(f); } catch (const std::runtime_error&) { threw = true; }
            if (md.n == 0) { vp_assert(threw && calls == 0, "VQ visit on an empty queue throws and calls nothing"); vp_cover("empty"); }
            else {
                vp_assert(!threw && calls == 1, "VQ visit calls the callable exactly once");
                vp_assert(t == md.t[0], "VQ oldest element's type"); vp_assert(v == md.v[0], "VQ oldest element's value");
                for (int i = 1; i < md.n; i++) { md.t[i - 1] = md.t[i]; md.v[i - 1] = md.v[i]; }
                md.n--; vp_cover("visit");
            }
            vp_observe(calls); vp_observe(v);
        } else if (op == 4) {      // a callable that pushes while visiting
            const unsigned more = (unsigned)vp_concretize(vp_sym(2, "pushes"));      // nothing up to three elements
            vp_assume(md.n > 0 && md.n - 1 + (int)more <= QN);
            const std::uint64_t nv = vp_sym(32, "x"); int t = -1; bool inner = false;
            q.visit([&](auto e) { using T = decltype(e); t = std::is_same_v<T, E1> ? 0 : std::is_same_v<T, E2> ? 1 : 2; inner = q.size() == (std::size_t)md.n - 1; for (unsigned i = 0; i < more; i++) { if (i == 1) q.push(E2 { nv + i, { 1, 2, 3 } }); else q.push(E1 { (std::uint32_t)(nv + i) }); } });
            vp_assert(t == md.t[0] && inner, "VQ element is removed before the callable runs");
            for (int i = 1; i < md.n; i++) { md.t[i - 1] = md.t[i]; md.v[i - 1] = md.v[i]; }
            md.n--;
            for (unsigned i = 0; i < more; i++) { md.t[md.n] = i == 1; md.v[md.n] = i == 1 ? nv + i : (std::uint32_t)(nv + i); md.n++; }
            vp_cover("reentrant");
        } else if (op == 5) {      // a callable that takes the element by reference, writes to it and throws
            vp_assume(md.n > 0);
            int t = -1, calls = 0; std::uint64_t v = 0; bool threw = false; const bool boom = vp_sym(1, "throw");
            auto f = [&](auto& e) { calls++; using T = std::remove_reference_t<decltype(e)>; if constexpr (std::is_same_v<T, E1>) { t = 0; v = e.x; e.x = 5; } else if constexpr (std::is_same_v<T, E2>) { t = 1; v = e.y; e.y = 5; } else t = 2; if (boom) throw 42; };
            try { q.visit(f); } catch (int k) { threw = k == 42; }
            vp_assert(threw == boom && calls == 1, "VQ the callable's exception reaches the caller");
            vp_assert(t == md.t[0] && v == md.v[0], "VQ oldest element");
            for (int i = 1; i < md.n; i++) { md.t[i - 1] = md.t[i]; md.v[i - 1] = md.v[i]; }
            md.n--; vp_cover("throwing");
        } else { vp_assume(false); }
        { int n = 0; for (int i = 0; i < md.n; i++) n += md.t[i] == 0; vp_assert(live == n, "VQ exactly the queued elements are alive"); }
        vp_assert(q.size() == (std::size_t)md.n && q.empty() == (md.n == 0), "VQ size/empty");
    }
}
