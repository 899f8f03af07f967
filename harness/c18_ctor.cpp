// C18/C23: the constructor of any state may throw while the machine is being constructed: the exception reaches the
// caller, what was constructed is destroyed exactly once, nothing leaks; a machine constructed afterwards works.
#include "vp.h"
#include "hsm_any.h"
#include <memory>
#include <stdexcept>
using namespace hsm;
static int ctor, dtor, boom, kind; static unsigned alive;
template <int K> struct Obj {
    Obj() : p(std::make_unique<int>(K)) { if (++ctor == boom) { ctor--; if (kind) throw std::runtime_error("state"); throw K; } vp_assert(!(alive >> K & 1), "CTOR one object per state"); alive |= 1u << K; }
    Obj(const Obj&) = delete;
    ~Obj() { dtor++; vp_assert(alive >> K & 1, "CTOR destroyed once"); alive &= ~(1u << K); }
    std::unique_ptr<int> p;
};
struct A : Obj<0> {}; struct B : Obj<1> {}; struct X : Obj<2> {}; struct Y : Obj<3> {}; struct D : Obj<4> { static constexpr auto defer_events(); };
struct e1 { std::uint32_t x; }; struct e2 { std::uint32_t x; };
inline constexpr auto D::defer_events() { return events<e2>; }
static int acts;
struct Act { template <class E, class S, class T> void operator()(E&, S& s, T& t) const { if constexpr (requires { s.p; t.p; }) { vp_assert(s.p && t.p, "CTOR states are constructed"); (*t.p) += 8; } acts++; } };
struct Hd { template <class E, class... R> void operator()(E&, R&...) const {} };
struct P { static constexpr auto make_transition_table() { return transition_table(* state<X> + event<e1> / Act {} = state<Y>, state<Y> + event<e1> / Act {} = state<X>); } };
struct Root {
    static constexpr auto on_unexpected_event() { return Hd {}; }
    static constexpr auto make_transition_table() { return transition_table(* state<A> + event<e1> / Act {} = state<D>, state<D> + event<e1> / Act {} = state<B>, state<B> + event<e2> / Act {} = state<P>, state<P> + event<e2> / Act {} = state<A>); }
};
int main()
{
    const std::uint64_t base = vp_live_heap();
    boom = (int)vp_concretize(vp_sym(3, "which")); kind = (int)vp_sym(1, "kind");
    bool thrown = false;
    try {
        sm<Root> m;
        vp_assert(boom == 0 || boom > 5, "CTOR the exception of a state's constructor reaches the caller");
        vp_assert(ctor == 5 && dtor == 0 && alive == 31u, "CTOR every state is constructed once"); vp_cover("constructed");
    } catch (int) { thrown = true; vp_assert(kind == 0, "CTOR exception type"); } catch (const std::runtime_error&) { thrown = true; vp_assert(kind == 1, "CTOR exception type"); }
    vp_assert(thrown == (boom >= 1 && boom <= 5), "CTOR the exception of a state's constructor reaches the caller");
    vp_assert(ctor == dtor && alive == 0, "CTOR constructed states are destroyed"); vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the failed construction");
    if (thrown) vp_cover("thrown");
    boom = 0; kind = 0; ctor = dtor = 0;
    {
        sm<Root> m; const unsigned n = (unsigned)vp_concretize(vp_sym(3, "steps"));
        for (unsigned i = 0; i < n; i++) { if (vp_sym(1, "event")) { e2 e { 1 }; vp_observe(m.process_event(e)); } else { e1 e { 1 }; vp_observe(m.process_event(e)); } }
    }
    vp_assert(ctor == 5 && dtor == 5 && alive == 0, "CTOR a later machine is complete"); vp_assert(vp_live_heap() == base, "LEAK heap blocks alive after the machine was destroyed");
    vp_cover("destroyed");
}
