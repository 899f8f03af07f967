// C15: create_state installs exactly the object its factory built from this event and source; reuse_state
// and later transitions work on that object; replaced objects are destroyed once.
#include "vp.h"
#include "hsm_any.h"
using namespace hsm;
static long ctor, dtor; static std::uint32_t ref; static bool created; static int acts, fac; static bool boom; static int old; static std::uint32_t refA, cure;
static void* aobj; static const void* evobj;
struct A { A() { aobj = this; } std::uint32_t d = 7; };
#ifdef CUSTOM_ASSIGNABLE     // a target type that could be copied, moved, swapped and assigned, but must not be
struct B { B(std::uint32_t v, int k) : v(v), k(k) { ctor++; } B(const B& o) : v(o.v), k(o.k), m(o.m) { ctor++; vp_assert(false, "CUSTOM the created object is copied"); } B& operator=(const B& o) { v = o.v; k = o.k; m = o.m; vp_assert(false, "CUSTOM the created object is assigned"); return *this; } ~B() { dtor++; } std::uint32_t v; int k; std::uint32_t m = 0; };
#else
struct B { B(std::uint32_t v, int k) : v(v), k(k) { ctor++; } B(const B&) = delete; ~B() { dtor++; } const std::uint32_t v; const int k; std::uint32_t m = 0; };
#endif
static B* refobj;
static std::unique_ptr<B> keep(std::unique_ptr<B> b) { refobj = b.get(); return b; }
static std::uint32_t refm; static int refk;
struct c1 { std::uint32_t x; }; struct c2 { std::uint32_t x; }; struct ru { std::uint32_t x; };
template <class E, class S> static void same(E& e, S& s) { vp_assert((const void*)&e == evobj, "CUSTOM functor gets a copy of the event"); vp_assert((void*)&s == aobj, "CUSTOM functor gets a copy of the source"); e.x ^= 0x11u; s.d += 3; refA += 3; }
 struct go { std::uint32_t x; }; struct bk { std::uint32_t x; };
constexpr auto f1 = [](auto& event, auto& source) { fac++; vp_assert(ctor - dtor == old, "CUSTOM the previous object is alive while the factory runs"); if (boom) throw 42; vp_assert(event.x == cure, "CUSTOM factory event"); vp_assert(source.d == refA, "CUSTOM factory source"); auto p = std::make_unique<B>(event.x + source.d, 1); same(event, source); return keep(std::move(p)); };
constexpr auto f2 = [](auto& event, auto& source) { fac++; vp_assert(ctor - dtor == old, "CUSTOM the previous object is alive while the factory runs"); if (boom) throw 42; vp_assert(event.x == cure, "CUSTOM factory event"); vp_assert(source.d == refA, "CUSTOM factory source"); auto p = std::make_unique<B>(event.x ^ 0x5a5a5a5au, 2); same(event, source); return keep(std::move(p)); };
constexpr auto reuse = [](auto& event, auto& source, auto& target) { acts++; vp_assert(&target == refobj, "CUSTOM reuse_state target is the factory's object"); vp_assert(event.x == cure && source.d == refA, "CUSTOM reuse args"); vp_assert(target.v == ref && target.k == refk && target.m == refm, "CUSTOM reuse_state target is the created object"); target.m += event.x; refm += event.x; same(event, source); };
struct Leave { template <class E, class S, class T> void operator()(E& e, S& s, T& t) const { acts++; vp_assert(&s == refobj, "CUSTOM source object is the factory's object"); vp_assert(s.v == ref && s.k == refk && s.m == refm, "CUSTOM source object is the created object"); s.m ^= e.x; refm ^= e.x; t.d += s.v; refA += ref; } };
struct Root { static constexpr auto make_transition_table() { return transition_table(
    * state<A> + event<c1> / create_state(f1) = state<B>, state<A> + event<c2> / create_state(f2) = state<B>, state<A> + event<go> = state<B>,
    state<A> + event<ru> / reuse_state(reuse) = state<B>, state<B> + event<bk> / Leave {} = state<A>); } };
template <class E> static bool put(sm<Root>& m, std::uint32_t x, bool touched) { E e { x }; evobj = &e; bool r = false, thrown = false; try { r = m.process_event(e); } catch (int k) { thrown = k == 42; } evobj = nullptr; vp_assert(thrown == (boom && touched), "CUSTOM the factory's exception reaches the caller"); if (boom) touched = false; vp_assert(e.x == (touched ? x ^ 0x11u : x), "CUSTOM the caller sees what the functor wrote"); return r; }
static void body()
{
    ref = refm = cure = 0; refobj = nullptr; refk = 0; created = false; refA = 7; fac = acts = 0;
    {
    sm<Root> m;
    for (;;) {
        vp_checkpoint();
        const std::uint32_t x = (std::uint32_t)vp_sym(32, "payload"); cure = x; fac = acts = 0; bool r = false; boom = false; old = created; bool inA = m.is(state<A>);
        const unsigned op = (unsigned)vp_concretize(vp_sym(3, "event"));
        int ef = 0, ea = 0; bool er = inA;
        if (op == 0) { if (inA && vp_sym(1, "factory throws")) { boom = true; ef = 1; } else if (inA) { ref = x + refA; refk = 1; refm = 0; created = true; ef = 1; } r = put<c1>(m, x, ef); }
        else if (op == 1) { if (inA && vp_sym(1, "factory throws")) { boom = true; ef = 1; } else if (inA) { ref = x ^ 0x5a5a5a5au; refk = 2; refm = 0; created = true; ef = 1; } r = put<c2>(m, x, ef); }
        else if (op == 2) { go e { x }; r = m.process_event(e); }
        else if (op == 3) { if (inA) vp_assume(created); ea = inA; r = put<ru>(m, x, ea); }
        else if (op == 4) { if (!inA) vp_assume(created); ea = !inA; er = !inA; bk e { x }; r = m.process_event(e); if (ea) vp_cover("leave"); }
        else if (op == 5) break;
        else vp_assume(false);
        if (boom) { er = true; r = true; inA = m.is(state<B>); vp_cover("factory-threw"); boom = false; old = 0; }
        vp_assert(r == er, "CUSTOM process_event result");
        vp_assert(m.is(state<B>) == (er ? inA : !inA) && m.is(state<A>) == !m.is(state<B>), "CUSTOM state"); old = 0;
        vp_assert(fac == ef && acts == ea, "CUSTOM factory/action invocation count");
        vp_assert(ctor - dtor == (created ? 1 : 0), "CUSTOM exactly one target object is alive");
        if (op == 3 && ea) vp_cover("reuse");
        vp_observe(r); vp_observe(refm); vp_observe(ref);
    }
    }
    vp_assert(ctor == dtor, "CUSTOM created objects are destroyed with the machine");
    vp_cover("destroyed");
}
int main() { body(); }
