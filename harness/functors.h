// id spaces and log shared by the library side and the reference side
#pragma once
#include <stdexcept>
constexpr int T_ANY = 255;
enum { K_EXT, K_INT, K_DEFER };
enum { L_EXIT = 1, L_ACT = 2, L_ENTRY = 3 };
struct REnt { int kind, guard, act, target, hist, exitid, entid, ent2, src, tgt; };
#ifndef LOGMAX
#define LOGMAX 24
#endif
struct LRec { int kind = 0, id = 0, src = 0, tgt = 0, ev = 0; std::uint32_t x = 0; };
struct Log {
    LRec r[LOGMAX]; int n = 0;
    void add(int kind, int id, int src, int tgt, int ev, std::uint32_t x)
    {
        vp_assert(n < LOGMAX, "LOG more exit/action/entry calls in one event than any run-to-completion step can make");
        r[n].kind = kind; r[n].id = id; r[n].src = src; r[n].tgt = tgt; r[n].ev = ev; r[n].x = x; n++;
    }
    void clear() { for (auto& e : r) e = LRec {}; n = 0; }
};
Log log_real;
std::uint64_t gmask_real, gmask_ref, gseen_real;
// an anonymous transition's guard is consumed by firing it ANON_REP times, so that symbolic guards cannot livelock
#ifndef ANON_REP
#define ANON_REP 1
#endif
struct AnonCnt { int n[64]; void fired(std::uint64_t& mask, int id) { if (ANON_REP == 1 || ++n[id] >= ANON_REP) mask &= ~(1ull << id); } void clear() { if (ANON_REP > 1) for (int& i : n) i = 0; } };
AnonCnt acnt_real, acnt_ref;
int seen_bad, obj_bad, dep_bad, ev_bad;
const void* g_evaddr;
// fault schedule: the callback (kind, id) that throws, as a symbolic value; 0: none
#ifndef CK_THROW
#define CK_THROW 0
#endif
enum { L_GUARD = 4, L_UNEXP = 5 };
struct Boom { int code; };
struct StdBoom : std::runtime_error { int code; explicit StdBoom(int c) : std::runtime_error("callback"), code(c) {} };
static bool g_throw_any;      // the machine's callbacks throw either kind, the reference only Boom
std::uint32_t g_throw;
static void maybe_throw(int kind, int id) { if (CK_THROW && g_throw == (std::uint32_t)(kind << 6 | id)) { if (g_throw_any && vp_sym(1, "std::exception")) throw StdBoom(kind << 6 | id); throw Boom { kind << 6 | id }; } }
// without deferral every callback of a declared event gets the very object passed to process_event
template <class E> static void chkev(const E& e) { if constexpr (QMAX == 0 && eid_of<E>::v != EV_NONE) { if ((const void*)&e != g_evaddr) ev_bad++; } (void)e; }
int cur_ev; std::uint32_t cur_x;
int unexp_real, unexp_state_real, unexp_ev_real; std::uint32_t unexp_x_real;
const void* g_obj[NTID + 1];
template <class T> static int note_obj(const T& t)
{
    constexpr int id = tid_of<T>::v;
    if constexpr (id < NTID) {
        if (!g_obj[id]) g_obj[id] = &t;
        else if (g_obj[id] != (const void*)&t) obj_bad++;
    }
    return id;
}
struct Dep0 { int a; }; struct Dep1 { int b; }; struct Dep2 { int c; };
static Dep0 g_dep0, g_dep0b; static Dep1 g_dep1, g_dep1b; static Dep2 g_dep2, g_dep2b;
static unsigned g_depsel;   // which of the two objects is the current dependency, by position
static void chk(const Dep0& d) { if (&d != (g_depsel >> 0 & 1 ? &g_dep0b : &g_dep0)) dep_bad++; }
static void chk(const Dep1& d) { if (&d != (g_depsel >> 1 & 1 ? &g_dep1b : &g_dep1)) dep_bad++; }
static void chk(const Dep2& d) { if (&d != (g_depsel >> 2 & 1 ? &g_dep2b : &g_dep2)) dep_bad++; }
template <class... D> static void chkdeps(D&... d) { if (sizeof...(D) != NDEPS) dep_bad++; (chk(d), ...); }
