// C22: dunique_ptr owns its object alone: every object is deleted exactly once, by its last owner, never early.
#include "vp.h"
#include "hsm_any.h"
#include <functional>
#include <utility>
using hsm::details::utils::dunique_ptr;
static int alive[4];            // slot -> objects alive with that tag
static int total;
struct T; static dunique_ptr<T>* armed;        // a destructor may use the pointer that is letting go of its object
struct T { int tag; T(int t) : tag(t) { alive[t]++; total++; } ~T() { alive[tag]--; total--; if (armed) { auto* a = armed; armed = nullptr; vp_assert(!*a && a->get() == nullptr, "DU the pointer has let go of the object it deletes"); a->reset(); vp_cover("re-entrant"); } } };
constexpr int N = 3;
static int own[N];              // model: tag owned by pointer i, -1 none
static T* raw[4];
static int freetag() { for (int t = 0; t < 4; t++) if (!alive[t]) return t; return -1; }
static void check(dunique_ptr<T>* p)
{
    for (int i = 0; i < N; i++) {
        vp_assert(bool(p[i]) == (own[i] >= 0), "DU operator bool"); vp_assert(p[i].get() == (own[i] < 0 ? nullptr : raw[own[i]]), "DU get");
        if (own[i] >= 0) { vp_assert(&*p[i] == raw[own[i]], "DU operator*"); vp_assert(p[i]->tag == own[i], "DU owned object is alive and intact"); }
        for (int j = 0; j < N; j++) { vp_assert((p[i] == p[j]) == (p[i].get() == p[j].get()) && (p[i] != p[j]) == !(p[i] == p[j]), "DU comparison");
            vp_assert((p[i] < p[j]) == std::less<T*> {}(p[i].get(), p[j].get()) && (p[i] > p[j]) == (p[j] < p[i]) && (p[i] <= p[j]) == !(p[j] < p[i]) && (p[i] >= p[j]) == !(p[i] < p[j]), "DU ordering"); }
    }
    for (int t = 0; t < 4; t++) { bool o = false; for (int i = 0; i < N; i++) o |= own[i] == t; vp_assert(alive[t] == (o ? 1 : 0), "DU an object is alive exactly while owned"); }
}
static T* make(int& tag) { tag = freetag(); vp_assume(tag >= 0); raw[tag] = new T(tag); return raw[tag]; }
static void body()
{
    for (auto& o : own) o = -1;
    const std::uint64_t base = vp_live_heap();
    {
        dunique_ptr<T> p[N];
        for (;;) {
            check(p);
            for (int t = 0; t < 4; t++) if (!alive[t]) raw[t] = nullptr;
            vp_checkpoint();
            const unsigned op = (unsigned)vp_concretize(vp_sym(4, "op"));
            const unsigned ii = (unsigned)vp_sym(2, "i"), jj = (unsigned)vp_sym(2, "j"); vp_assume(ii < N && jj < N);
            const int i = (int)vp_concretize(ii), j = (int)vp_concretize(jj); int t;
            if (op == 0) { T* r = make(t); p[i].reset(r); own[i] = t; vp_cover("reset"); }
            else if (op == 1) { p[i].reset(); own[i] = -1; vp_cover("clear"); }
            else if (op == 2) { T* r = p[i].release(); vp_assert(r == (own[i] < 0 ? nullptr : raw[own[i]]), "DU release returns the object"); if (r) { vp_assert(alive[own[i]] == 1, "DU release does not delete"); delete r; } own[i] = -1; vp_cover("release"); }
            else if (op == 3) { vp_assume(i != j); p[i].swap(p[j]); std::swap(own[i], own[j]); vp_cover("swap"); }
            else if (op == 4) { swap(p[i], p[j]); std::swap(own[i], own[j]); vp_cover("free-swap"); }
            else if (op == 5) { // move construction
                { dunique_ptr<T> q(std::move(p[i])); vp_assert(q.get() == (own[i] < 0 ? nullptr : raw[own[i]]), "DU moved-to pointer owns the object"); vp_assert(!p[i], "DU moved-from pointer is empty"); if (own[i] >= 0) vp_assert(alive[own[i]] == 1, "DU move does not delete"); }
                own[i] = -1; vp_cover("move-construct"); }
            else if (op == 6) { // move assignment from a temporary-like pointer
                T* r = make(t); { dunique_ptr<T> q(r); p[i] = std::move(q); vp_assert(p[i].get() == r && alive[t] == 1, "DU move assignment takes the object"); } own[i] = t; vp_cover("move-assign"); }
            else if (op == 7) { T* r = make(t); { dunique_ptr<T> q(r); vp_assert(bool(q) && q.get() == r, "DU construction"); } vp_cover("scope"); }
            else if (op == 9) { armed = &p[i]; p[i].reset(); armed = nullptr; own[i] = -1; }
            else if (op == 10) { // move assignment between two pointers (also to itself)
                const int from = own[j], old = own[i];
                p[i] = std::move(p[j]);
                if (i != j) {
                    vp_assert(p[i].get() == (from < 0 ? nullptr : raw[from]), "DU move assignment hands the object over");
                    own[i] = from;
                    // the previous object is deleted at once, or owned by the source until that lets go of it
                    own[j] = p[j] ? old : -1;
                } else if (!p[i]) own[i] = -1;
                vp_cover("move-assign-between"); }
            else if (op == 8) break;
            else vp_assume(false);
            vp_observe((std::uint64_t)total);
        }
    }
    vp_assert(total == 0, "DU every object deleted at scope end"); vp_assert(vp_live_heap() == base, "DU no leak"); vp_cover("end");
}
int main() { body(); }
