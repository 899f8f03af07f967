// hsmx: symbolic executor for LLVM IR compiled from the real /repo headers.
//
// Every path of the harness is executed; inputs (vp_sym) are SMT bit-vector
// variables, branches on them fork when Z3 says both sides are satisfiable, and
// every assertion / memory-safety side condition is discharged by Z3 for all
// values allowed by the path condition.  Anything the executor does not model
// aborts the run with exit code 3 (never a pass).
#include "expr.h"
#include <chrono>
#include <cxxabi.h>
#include <deque>
#include <fstream>
#include <iostream>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <cstring>
#include <z3++.h>

using namespace sx;
using std::string;
using std::vector;

[[noreturn]] static void unsupported(const string& what);

// ---------------------------------------------------------------- values
struct Val;
struct Agg { int rc = 0; vector<Val> v; };
struct Val {
    u64 c = 0; E e = nullptr; Agg* a = nullptr;
    Val() = default;
    explicit Val(u64 x) : c(x) {}
    Val(const Val& o) : c(o.c), e(o.e), a(o.a) { if (a) a->rc++; }
    Val(Val&& o) noexcept : c(o.c), e(o.e), a(o.a) { o.a = nullptr; }
    Val& operator=(const Val& o) { if (o.a) o.a->rc++; drop(); c = o.c; e = o.e; a = o.a; return *this; }
    Val& operator=(Val&& o) noexcept { if (this != &o) { drop(); c = o.c; e = o.e; a = o.a; o.a = nullptr; } return *this; }
    ~Val() { drop(); }
    void drop() { if (a && --a->rc == 0) delete a; a = nullptr; }
    static Val ex(E x) { Val v; if (isC(x)) v.c = x->c; else v.e = x; return v; }
    static Val agg(vector<Val> es) { Val v; v.a = new Agg; v.a->rc = 1; v.a->v = std::move(es); return v; }
    E toE(unsigned w) const { return e ? e : cst(w, c); }
};

// ---------------------------------------------------------------- types
struct Ty { u8 kind; unsigned w; u64 size; vector<const Ty*> el; vector<u64> off; }; // kind 0 void 1 scalar 2 aggregate

static llvm::Module* M;
static const llvm::DataLayout* DL;
static std::unordered_map<llvm::Type*, Ty*> tyCache;
static const Ty* tyOf(llvm::Type* t)
{
    auto it = tyCache.find(t);
    if (it != tyCache.end()) return it->second;
    Ty* r = new Ty { 0, 0, 0, {}, {} };
    tyCache[t] = r;
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return r;
    if (t->isIntegerTy() || t->isPointerTy()) {
        r->kind = 1; r->w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
        r->size = DL->getTypeStoreSize(t);
        return r;
    }
    if (auto* s = llvm::dyn_cast<llvm::StructType>(t)) {
        r->kind = 2; r->size = DL->getTypeAllocSize(t);
        auto* l = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) { r->el.push_back(tyOf(s->getElementType(i))); r->off.push_back(l->getElementOffset(i)); }
        return r;
    }
    if (auto* s = llvm::dyn_cast<llvm::ArrayType>(t)) {
        r->kind = 2; r->size = DL->getTypeAllocSize(t);
        u64 es = DL->getTypeAllocSize(s->getElementType());
        if (s->getNumElements() > 4096) return r; // only allocated / copied, never as a first-class value
        for (u64 i = 0; i < s->getNumElements(); i++) { r->el.push_back(tyOf(s->getElementType())); r->off.push_back(i * es); }
        return r;
    }
    if (t->isFloatTy() || t->isDoubleTy()) { r->kind = 1; r->w = t->isFloatTy() ? 32 : 64; r->size = r->w / 8; return r; } // moves only
    if (t->isVectorTy() || t->isX86_FP80Ty()) { r->kind = 3; r->size = DL->getTypeAllocSize(t); return r; }
    if (t->isFunctionTy()) return r;
    unsupported("type");
}

// ---------------------------------------------------------------- memory
// address = kind(4) | ... | window(24 bits, object placed at offset 0x1000)
constexpr u64 K_GLOBAL = 1ull << 60, K_HEAP = 2ull << 60, K_STACK = 3ull << 60, K_FUNC = 4ull << 60;
constexpr u64 OFF0 = 0x1000, WIN = 1ull << 24;
enum : u8 { S_CONC = 0, S_UNDEF = 1, S_SYM = 2 };
enum : u8 { A_STATIC, A_NEW, A_NEWARR, A_MALLOC, A_EXC, A_STACK };
struct Obj {
    int rc = 0; u32 size = 0; u8 kind = A_STATIC; bool ro = false; bool ext = false; bool dead = false;
    u8* d = nullptr; u8* st = nullptr; E* sy = nullptr; const void* site = nullptr;
    Obj(u64 n, u8 k, u8 s) : size((u32)n), kind(k) { d = (u8*)calloc(1, n * 2 + 16); st = d + n + 8; if (s) memset(st, s, n); }
    Obj(const Obj& o) : size(o.size), kind(o.kind), ro(o.ro), ext(o.ext), dead(o.dead), site(o.site)
    {
        d = (u8*)malloc(size * 2ull + 16); st = d + size + 8; memcpy(d, o.d, size); memcpy(st, o.st, size);
        if (o.sy) { sy = (E*)malloc(size * sizeof(E)); memcpy(sy, o.sy, size * sizeof(E)); }
    }
    ~Obj() { free(d); free(sy); }
    void needSy() { if (!sy) sy = (E*)calloc(size, sizeof(E)); }
};
struct OP { // intrusive pointer
    Obj* p = nullptr;
    OP() = default;
    OP(Obj* o) : p(o) { if (p) p->rc++; }
    OP(const OP& o) : p(o.p) { if (p) p->rc++; }
    OP(OP&& o) noexcept : p(o.p) { o.p = nullptr; }
    OP& operator=(OP o) { std::swap(p, o.p); return *this; }
    ~OP() { if (p && --p->rc == 0) delete p; }
};
struct Chunk { int rc = 0; OP o[64]; };
struct Table { // COW id -> object
    vector<Chunk*> c;
    Table() = default;
    Table(const Table& t) : c(t.c) { for (auto* x : c) if (x) x->rc++; }
    Table& operator=(const Table& t) { Table n(t); c.swap(n.c); return *this; }
    ~Table() { for (auto* x : c) if (x && --x->rc == 0) delete x; }
    Obj* get(u64 id) const { u64 k = id >> 6; if (k >= c.size() || !c[k]) return nullptr; return c[k]->o[id & 63].p; }
    OP& slot(u64 id)
    {
        u64 k = id >> 6; if (k >= c.size()) c.resize(k + 1);
        if (!c[k]) { c[k] = new Chunk; c[k]->rc = 1; }
        else if (c[k]->rc > 1) { Chunk* n = new Chunk; n->rc = 1; for (int i = 0; i < 64; i++) n->o[i] = c[k]->o[i]; c[k]->rc--; c[k] = n; }
        return c[k]->o[id & 63];
    }
};
struct Slot { OP o; u32 gen = 0; };

// ---------------------------------------------------------------- decoded code
enum class I : u8 { Bin, Cmp, Cast, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Unreachable, Call, Invoke, LandingPad, Resume, ExtractV, InsertV, Select, Freeze, AtomicRMW, CmpXchg, Fence, Move };
enum class B : int; // builtin id
struct Func;
struct Ins {
    I op; u8 sub = 0; u8 w = 0; u8 w2 = 0; // sub: Op / cast kind / predicate
    int dst = -1; int a = 0, b = 0, c = 0; // operands: >=0 register, <0 ~const index
    const Ty* ty = nullptr;
    vector<int> args; vector<u64> aux;
    Func* callee = nullptr; int builtin = -1; // direct
    const llvm::Instruction* li = nullptr;
    int t0 = 0, t1 = 0; // targets (block index)
    vector<std::pair<u32, u64>> byval; // (arg, size)
};
struct PhiMove { int dst; int src; };
struct Block { int start = 0; std::map<int, vector<PhiMove>> phis; int lpad = -1; };
struct Func {
    llvm::Function* f; int idx; string name; bool decoded = false; int builtin = -2;
    vector<Ins> code; vector<Block> blocks; vector<Val> consts; int nregs = 0; vector<int> argRegs;
    vector<int> blockOf; // instruction -> block
    bool isHsm = false; u64 calls = 0;
    vector<vector<bool>> liveOut; bool live = false; // per block live-in
};
static vector<Func*> funcs;
static std::unordered_map<llvm::Function*, Func*> funcOf;
static std::unordered_map<const llvm::GlobalVariable*, u64> gAddr;
static std::unordered_map<u64, const llvm::GlobalVariable*> gOfAddr;
static u64 nGlobals = 1;
static u64 funcAddr(Func* f) { return K_FUNC | ((u64)(f->idx + 1) << 24); }

static string demangle(const string& s)
{
    if (s.size() > 3000) return s.substr(0, 200) + "...";
    int st; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if (st || !d) { return s.substr(0, 200); }
    string r(d); free(d); if (r.size() > 300) r = r.substr(0, 300) + "..."; return r;
}

// ---------------------------------------------------------------- state
struct Frame {
    Func* f; int pc = 0; int blk = 0; vector<Val> r; int retDst = -1; int slotBase = 0; u64 excFree = 0;
};
struct SymRec { const char* name; unsigned w; E e; };
struct Hist { std::shared_ptr<Hist> prev; vector<std::pair<const char*, u64>> vals; vector<u64> obs; vector<unsigned> w; };
struct ObsRec { Val v; };
struct Exc { u64 ptr; u64 tinfo; u64 dtor; int handlers; bool inflight; };
struct State {
    vector<Frame> fr;
    Table heap, glob;
    vector<Slot> stack; u32 gen = 1;
    u64 nextHeap = 1; i64 liveHeap = 0;
    vector<E> pc; std::unordered_map<E, bool> known;
    std::shared_ptr<Model> model = std::make_shared<Model>();
    vector<SymRec> syms; vector<Val> obs; std::shared_ptr<Hist> hist;
    vector<Exc> excs; vector<u64> caught; 
    u64 steps = 0; u64 undefCnt = 0; int cps = 0; // checkpoints passed
    bool inRun = false;
};
using SP = std::unique_ptr<State>;

// ---------------------------------------------------------------- stats/options
struct Violation { string kind, msg, stack; vector<std::pair<string, u64>> vals; vector<unsigned> ws; int cps; vector<u64> obs; };
static vector<Violation> violations; static std::set<string> violKeys;
static u64 nPaths, nForks, nQueries, nSat, nUnsat, nCacheHits, nInstr, nMerged, nStatesCk, nAsserts, nAssertsSym, nAssertQ, nMemObl, nDepthCut, nAssumeCut;
static double solverTime; static int maxLayerSeen; static bool closureReached = true; static bool anyCheckpoint = false;
static std::map<string, u64> covers; static std::set<string> asserted;
static std::set<std::pair<string, unsigned>> hsmLines; static std::unordered_set<const llvm::DILocation*> seenLoc;
struct Sample { vector<std::pair<string, u64>> vals; vector<u64> obs; int cps; string end; };
static vector<Sample> samples;
static int optMaxCk = 1000000; static u64 optMaxInstr = 40000000; static int optMaxViol = 8; static double optTime = 600; static unsigned optSamples = 12; static u64 optMaxStates = 100000000; static u64 optSeed = 1;
static string optOut, optEntry = "main";
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static string incomplete; // non-empty: exploration not complete (time limit, ...)
static State* cur;

static void writeJson();
static string stackTrace(State& s);
[[noreturn]] static void unsupported(const string& what)
{
    string st = cur ? stackTrace(*cur) : "";
    fprintf(stderr, "hsmx: UNSUPPORTED %s\n%s\n", what.c_str(), st.c_str());
    exit(3);
}

// ---------------------------------------------------------------- solver
struct Solver {
    z3::context ctx; std::unique_ptr<z3::solver> s; std::unordered_map<E, z3::expr> memo; // pristine memo per context
    struct CR { bool sat; std::shared_ptr<Model> m; };
    std::unordered_map<u64, vector<std::pair<vector<u32>, CR>>> cache;
    Solver() { s = std::make_unique<z3::solver>(ctx, "QF_BV"); z3::params p(ctx); p.set("timeout", 60000u); s->set(p); }
    z3::expr tr(E e, const char* suffix, std::unordered_map<E, z3::expr>& m)
    {
        auto it = m.find(e); if (it != m.end()) return it->second;
        auto b2v = [&](z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); };
        auto rec = [&]() -> z3::expr {
            switch (e->op) {
            case Op::Const: return ctx.bv_val((uint64_t)e->c, e->w);
            case Op::Sym: { string n = "s" + std::to_string(e->id); if (e->undef) n += suffix; return ctx.bv_const(n.c_str(), e->w); }
            case Op::Ite: return z3::ite(tr(e->a, suffix, m) == ctx.bv_val(1, 1), tr(e->b, suffix, m), tr(e->d, suffix, m));
            case Op::ZExt: return z3::zext(tr(e->a, suffix, m), e->w - e->a->w);
            case Op::SExt: return z3::sext(tr(e->a, suffix, m), e->w - e->a->w);
            case Op::Extract: return tr(e->a, suffix, m).extract((unsigned)(e->c + e->w - 1), (unsigned)e->c);
            case Op::Concat: return z3::concat(tr(e->a, suffix, m), tr(e->b, suffix, m));
            default: break;
            }
            z3::expr a = tr(e->a, suffix, m), b = tr(e->b, suffix, m);
            switch (e->op) {
            case Op::Add: return a + b; case Op::Sub: return a - b; case Op::Mul: return a * b;
            case Op::UDiv: return z3::udiv(a, b); case Op::SDiv: return a / b; case Op::URem: return z3::urem(a, b); case Op::SRem: return z3::srem(a, b);
            case Op::And: return a & b; case Op::Or: return a | b; case Op::Xor: return a ^ b;
            case Op::Shl: return z3::shl(a, b); case Op::LShr: return z3::lshr(a, b); case Op::AShr: return z3::ashr(a, b);
            case Op::Eq: return b2v(a == b); case Op::Ult: return b2v(z3::ult(a, b)); case Op::Ule: return b2v(z3::ule(a, b));
            case Op::Slt: return b2v(z3::slt(a, b)); case Op::Sle: return b2v(z3::sle(a, b));
            default: abort();
            }
        };
        z3::expr r = rec(); m.emplace(e, r); return r;
    }
    // sat(conjunction)?  fills values of mentioned symbols
    bool check(const vector<E>& cs, std::shared_ptr<Model>* out)
    {
        vector<u32> key; key.reserve(cs.size()); for (E e : cs) key.push_back(e->id);
        std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
        u64 h = 7; for (u32 k : key) h = mix(h, k);
        auto& bucket = cache[h];
        for (auto& kv : bucket) if (kv.first == key) { nCacheHits++; if (out) *out = kv.second.m; return kv.second.sat; }
        auto t = std::chrono::steady_clock::now();
        s->push();
        for (E e : cs) s->add(tr(e, "", memo) == ctx.bv_val(1, 1));
        auto r = s->check(); nQueries++;
        CR cr { r == z3::sat, nullptr };
        if (r == z3::unknown) unsupported("solver returned unknown: " + s->reason_unknown());
        if (cr.sat) {
            nSat++; z3::model m = s->get_model(); cr.m = std::make_shared<Model>();
            std::set<u32> ids; for (E e : cs) if (e->syms) for (u32 i : *e->syms) ids.insert(i);
            std::unordered_map<u32, z3::expr> vals;
            for (E e : cs) collect(e, m, *cr.m);
        } else nUnsat++;
        s->pop();
        solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        bucket.push_back({ key, cr });
        if (out) *out = cr.m;
        return cr.sat;
    }
    std::unordered_set<E> vis;
    void collect(E e, z3::model& m, Model& out)
    {
        if (!e || !e->syms) return;
        if (e->op == Op::Sym) { if (!out.v.count(e->id)) { uint64_t v = 0; Z3_get_numeral_uint64(ctx, m.eval(tr(e, "", memo), true), &v); out.v[e->id] = v; } return; }
        bool all = true; for (u32 i : *e->syms) if (!out.v.count(i)) { all = false; break; }
        if (all) return;
        collect(e->a, m, out); collect(e->b, m, out); collect(e->d, m, out);
    }
    // is there an assignment of the ordinary inputs under which c depends on uninitialised data?
    bool dependsOnUndef(const vector<E>& pc, E c)
    {
        std::unordered_map<E, z3::expr> m2; auto t = std::chrono::steady_clock::now();
        s->push();
        for (E e : pc) s->add(tr(e, "", memo) == ctx.bv_val(1, 1));
        s->add(tr(c, "", memo) != tr(c, "_alt", m2));
        auto r = s->check(); nQueries++; s->pop();
        solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        if (r == z3::unknown) unsupported("solver unknown");
        if (r == z3::sat) nSat++; else nUnsat++;
        return r == z3::sat;
    }
};
static Solver* Z;

static vector<E> slice(State& s, E c)
{
    vector<E> out; if (!c->syms) return out;
    vector<u32> sy = *c->syms; vector<bool> used(s.pc.size());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
            auto& ps = *s.pc[i]->syms; bool hit = false;
            for (u32 x : ps) if (std::binary_search(sy.begin(), sy.end(), x)) { hit = true; break; }
            if (hit) { used[i] = true; out.push_back(s.pc[i]); vector<u32> r; std::set_union(sy.begin(), sy.end(), ps.begin(), ps.end(), std::back_inserter(r)); if (r.size() != sy.size()) { sy.swap(r); ch = true; } }
        }
    }
    return out;
}
// feasible under the path condition?  on success *m is a full model for pc && c
static bool feasible(State& s, E c, std::shared_ptr<Model>& m)
{
    if (isC(c)) { m = s.model; return c->c; }
    auto k = s.known.find(c); if (k != s.known.end()) { m = s.model; return k->second; }
    if (evalE(c, *s.model)) { m = s.model; return true; }
    vector<E> q = slice(s, c); q.push_back(c);
    std::shared_ptr<Model> part;
    if (!Z->check(q, &part)) return false;
    m = std::make_shared<Model>(*s.model);
    for (auto& kv : part->v) m->v[kv.first] = kv.second;
    return true;
}
static void addPc(State& s, E c, std::shared_ptr<Model> m)
{
    if (isC(c)) return;
    if (s.known.emplace(c, true).second) { s.pc.push_back(c); s.known.emplace(mkNot1(c), false); }
    s.model = m;
}

// ---------------------------------------------------------------- violations
static string locOf(const llvm::Instruction* i)
{
    if (!i) return "?";
    if (auto* d = i->getDebugLoc().get()) return d->getFilename().str() + ":" + std::to_string(d->getLine());
    return "?";
}
static string stackTrace(State& s)
{
    string o;
    int n = 0;
    for (int i = (int)s.fr.size() - 1; i >= 0 && n < 14; i--, n++) {
        auto& f = s.fr[i];
        int pc = std::min<int>(f.pc, (int)f.f->code.size() - 1);
        string dm = demangle(f.f->name); if (dm.size() > 110) dm = dm.substr(0, 110) + "...";
        o += "  at " + locOf(f.f->code[pc].li) + " in " + dm + "\n";
    }
    return o;
}
static void flat(State& s, const Model& m, vector<std::pair<string, u64>>& vals, vector<u64>& obs, vector<unsigned>* ws = nullptr)
{
    vector<Hist*> hs; for (Hist* h = s.hist.get(); h; h = h->prev.get()) hs.push_back(h);
    for (auto it = hs.rbegin(); it != hs.rend(); ++it) { for (size_t i = 0; i < (*it)->vals.size(); i++) { auto& v = (*it)->vals[i]; vals.push_back({ v.first, v.second }); if (ws) ws->push_back((*it)->w[i]); } for (u64 x : (*it)->obs) obs.push_back(x); }
    for (auto& r : s.syms) { vals.push_back({ r.name, evalE(r.e, m) }); if (ws) ws->push_back(r.w); }
    for (auto& o : s.obs) obs.push_back(o.e ? evalE(o.e, m) : o.c);
}
static void report(State& s, const string& kind, const string& msg, const Model& m)
{
    string st = stackTrace(s);
    string key = kind + "|" + msg + "|" + st.substr(0, st.find('\n'));
    if (!violKeys.insert(key).second) return;
    Violation v { kind, msg, st, {}, {}, s.cps, {} };
    flat(s, m, v.vals, v.obs, &v.ws);
    violations.push_back(v);
    fprintf(stderr, "hsmx: VIOLATION %s: %s (checkpoints %d)\n%s", kind.c_str(), msg.c_str(), s.cps, st.c_str());
    if ((int)violations.size() >= optMaxViol) { incomplete = "stopped after " + std::to_string(optMaxViol) + " violations"; writeJson(); exit(1); }
}
struct PathEnd {}; // thrown to stop the current path

// ---------------------------------------------------------------- memory access
static vector<SP>* spawn; // where forks go
static Obj* lookup(State& s, u64 addr, u64& off, OP** slotOut)
{
    off = (addr & (WIN - 1)) - OFF0;
    switch (addr >> 60) {
    case 3: {
        u32 slot = (addr >> 24) & 0xffff, gen = (addr >> 40) & 0xfffff;
        if (slot >= s.stack.size() || s.stack[slot].gen != gen) return nullptr;
        if (slotOut) *slotOut = &s.stack[slot].o; return s.stack[slot].o.p;
    }
    case 2: { u64 id = (addr >> 24) & 0xfffffffffull; Obj* o = s.heap.get(id); if (o && slotOut) *slotOut = &s.heap.slot(id); return o; }
    case 1: { u64 id = (addr >> 24) & 0xfffffffffull; Obj* o = s.glob.get(id); if (o && slotOut) *slotOut = &s.glob.slot(id); return o; }
    }
    return nullptr;
}
[[noreturn]] static void memErr(State& s, const string& msg) { report(s, "memory", msg, *s.model); throw PathEnd {}; }
static string describe(State& s, u64 addr, u64 n)
{
    char b[200]; const char* k = "unmapped";
    u64 kind = addr >> 60;
    if (addr < WIN) k = "null"; else if (kind == 2) k = "heap"; else if (kind == 3) k = "stack"; else if (kind == 1) k = "global"; else if (kind == 4) k = "code";
    u64 off; Obj* o = lookup(s, addr, off, nullptr);
    if (o) snprintf(b, sizeof b, "%s object of %u bytes, offset %lld, access of %llu bytes", k, o->size, (long long)(i64)off, (unsigned long long)n);
    else snprintf(b, sizeof b, "%s address (no live object), access of %llu bytes", k, (unsigned long long)n);
    return b;
}
static Obj* rd(State& s, u64 addr, u64 n, u64& off)
{
    nMemObl++;
    Obj* o = lookup(s, addr, off, nullptr);
    if (o && o->dead) memErr(s, "use of a local after its scope ended");
    if (!o || off > o->size || n > o->size - off) memErr(s, "invalid read: " + describe(s, addr, n));
    if (o->ext) unsupported("read of external global");
    return o;
}
static Obj* wr(State& s, u64 addr, u64 n, u64& off)
{
    nMemObl++;
    OP* sl = nullptr; Obj* o = lookup(s, addr, off, &sl);
    if (o && o->dead) memErr(s, "use of a local after its scope ended");
    if (!o || off > o->size || n > o->size - off) memErr(s, "invalid write: " + describe(s, addr, n));
    if (o->ro) memErr(s, "write to constant memory: " + describe(s, addr, n));
    if (o->rc > 1) { *sl = OP(new Obj(*o)); o = sl->p; }
    return o;
}
static E undefByte(State& s) { return symE(8, s.undefCnt++, true); }
static Val loadScalar(State& s, u64 addr, unsigned w, u64 n)
{
    u64 off; Obj* o = rd(s, addr, n, off);
    u64 stw = 0; memcpy(&stw, o->st + off, n);
    if (!stw) { u64 v = 0; memcpy(&v, o->d + off, n); return Val(v & mask(w)); }
    // materialise undefined bytes so repeated reads agree
    for (u64 i = 0; i < n; i++) if (o->st[off + i] == S_UNDEF) { o = wr(s, addr, 0, off); break; } // un-share (also for read-only: none are undef)
    E r = nullptr;
    for (u64 i = 0; i < n; i++) {
        u64 k = off + i; E b;
        if (o->st[k] == S_UNDEF) { o->needSy(); o->st[k] = S_SYM; o->sy[k] = undefByte(s); }
        b = o->st[k] == S_CONC ? cst(8, o->d[k]) : o->sy[k];
        r = r ? mkConcat(b, r) : b;
    }
    if (r->w > w) r = mkExtract(r, 0, w);
    return Val::ex(r);
}
static void storeScalar(State& s, u64 addr, const Val& v, unsigned w, u64 n)
{
    u64 off; Obj* o = wr(s, addr, n, off);
    if (!v.e) { u64 x = v.c; memcpy(o->d + off, &x, n); memset(o->st + off, 0, n); return; }
    E e = v.e; if (e->w < n * 8) e = mkZExt(e, (unsigned)n * 8);
    o->needSy();
    for (u64 i = 0; i < n; i++) {
        E b = mkExtract(e, (unsigned)i * 8, 8);
        if (isC(b)) { o->st[off + i] = S_CONC; o->d[off + i] = (u8)b->c; } else { o->st[off + i] = S_SYM; o->sy[off + i] = b; }
    }
}
static Val loadTy(State& s, u64 addr, const Ty* t)
{
    if (t->kind == 1) { if (t->w > 64) unsupported("wide load"); return loadScalar(s, addr, t->w, t->size); }
    if (t->kind == 2) { vector<Val> v; for (size_t i = 0; i < t->el.size(); i++) v.push_back(loadTy(s, addr + t->off[i], t->el[i])); return Val::agg(std::move(v)); }
    unsupported("load type");
}
static void storeTy(State& s, u64 addr, const Val& v, const Ty* t)
{
    if (t->kind == 1) { if (t->w > 64) unsupported("wide store"); return storeScalar(s, addr, v, t->w, t->size); }
    if (t->kind == 2) { for (size_t i = 0; i < t->el.size(); i++) storeTy(s, addr + t->off[i], v.a->v[i], t->el[i]); return; }
    unsupported("store type");
}
static u64 newHeap(State& s, u64 n, u8 kind)
{
    if (n > WIN - 2 * OFF0) memErr(s, "allocation of " + std::to_string(n) + " bytes exceeds the 16 MB window");
    u64 id = s.nextHeap++; Obj* o = new Obj(n, kind, S_UNDEF); o->site = s.fr.back().f; s.heap.slot(id) = OP(o);
    if (kind != A_EXC) s.liveHeap++;
    return K_HEAP | (id << 24) | OFF0;
}
static void freeHeap(State& s, u64 addr, u8 kind)
{
    if (!addr) return;
    nMemObl++;
    u64 off; if ((addr >> 60) != 2) memErr(s, "free of non-heap pointer: " + describe(s, addr, 0));
    Obj* o = lookup(s, addr, off, nullptr);
    if (!o) memErr(s, "double free / free of dead heap object");
    if (off) memErr(s, "free of interior pointer");
    if (o->kind != kind && !(kind == A_EXC)) memErr(s, "mismatched deallocation");
    if (o->kind != A_EXC) s.liveHeap--;
    s.heap.slot((addr >> 24) & 0xfffffffffull) = OP();
}
static u64 newStack(State& s, u64 n)
{
    u32 slot = (u32)s.stack.size(); if (slot >= 0xffff) memErr(s, "stack overflow (more than 65535 live locals)");
    s.gen = (s.gen + 1) & 0xfffff; if (!s.gen) s.gen = 1;
    Slot sl; sl.gen = s.gen; sl.o = OP(new Obj(n, A_STACK, S_UNDEF)); s.stack.push_back(std::move(sl));
    return K_STACK | ((u64)s.gen << 40) | ((u64)slot << 24) | OFF0;
}

// ---------------------------------------------------------------- globals / constants
static Val constVal(const llvm::Constant* c);
static u64 addrOfGlobal(const llvm::GlobalVariable* g);
static u64 constAddr(const llvm::Constant* c)
{
    Val v = constVal(c); if (v.e || v.a) unsupported("constant address"); return v.c;
}
static State* init0;
static void initGlobal(State& s, u64 addr, const llvm::Constant* c)
{
    const Ty* t = tyOf(c->getType());
    if (llvm::isa<llvm::UndefValue>(c)) return; // stays zero (static storage)
    if (c->isNullValue()) return;
    if (auto* a = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) {
        u64 es = a->getElementByteSize();
        for (unsigned i = 0; i < a->getNumElements(); i++) storeScalar(s, addr + i * es, Val(a->getElementAsInteger(i)), (unsigned)es * 8, es);
        return;
    }
    if (t->kind == 2) { for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(s, addr + t->off[i], llvm::cast<llvm::Constant>(c->getOperand(i))); return; }
    if (t->w > 64 || t->kind != 1) unsupported("global initialiser");
    storeScalar(s, addr, constVal(c), t->w, t->size);
}
static u64 addrOfGlobal(const llvm::GlobalVariable* g)
{
    auto it = gAddr.find(g); if (it != gAddr.end()) return it->second;
    unsupported("unknown global");
}
static Func* getFunc(llvm::Function* f)
{
    auto it = funcOf.find(f); if (it != funcOf.end()) return it->second;
    Func* n = new Func; n->f = f; n->idx = (int)funcs.size(); n->name = f->getName().str(); funcs.push_back(n); funcOf[f] = n; return n;
}
static Val constVal(const llvm::Constant* c)
{
    const Ty* t = tyOf(c->getType());
    if (auto* i = llvm::dyn_cast<llvm::ConstantInt>(c)) { if (i->getBitWidth() > 64) unsupported("wide constant"); return Val(i->getZExtValue()); }
    if (llvm::isa<llvm::ConstantPointerNull>(c)) return Val(0);
    if (llvm::isa<llvm::UndefValue>(c)) {
        static u64 undefConst = 1ull << 40; // each undef/poison operand is an arbitrary value of its own
        std::function<Val(const Ty*)> mk = [&](const Ty* q) -> Val {
            if (q->kind == 2) { vector<Val> v; for (auto* e : q->el) v.push_back(mk(e)); return Val::agg(std::move(v)); }
            if (q->w == 0 || q->w > 64) unsupported("undef constant");
            return Val::ex(symE(q->w, undefConst++, true));
        };
        return mk(t);
    }
    if (auto* g = llvm::dyn_cast<llvm::GlobalVariable>(c)) return Val(addrOfGlobal(g));
    if (auto* f = llvm::dyn_cast<llvm::Function>(c)) return Val(funcAddr(getFunc(const_cast<llvm::Function*>(f))));
    if (auto* a = llvm::dyn_cast<llvm::GlobalAlias>(c)) return constVal(a->getAliasee());
    if (auto* f = llvm::dyn_cast<llvm::ConstantFP>(c)) return Val(f->getValueAPF().bitcastToAPInt().getZExtValue());
    if (c->isNullValue() && t->kind == 2) { vector<Val> v; for (unsigned i = 0; i < t->el.size(); i++) v.push_back(constVal(c->getAggregateElement(i))); return Val::agg(std::move(v)); }
    if (llvm::isa<llvm::ConstantAggregate>(c) || llvm::isa<llvm::ConstantDataSequential>(c)) { vector<Val> v; for (unsigned i = 0; i < t->el.size(); i++) v.push_back(constVal(c->getAggregateElement(i))); return Val::agg(std::move(v)); }
    if (auto* e = llvm::dyn_cast<llvm::ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case llvm::Instruction::GetElementPtr: {
            llvm::APInt off(64, 0); if (!llvm::cast<llvm::GEPOperator>(e)->accumulateConstantOffset(*DL, off)) unsupported("const gep");
            return Val(constAddr(e->getOperand(0)) + (u64)off.getSExtValue());
        }
        case llvm::Instruction::BitCast: case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::AddrSpaceCast: { Val v = constVal(e->getOperand(0)); v.c &= mask(t->w); return v; }
        case llvm::Instruction::Trunc: { Val v = constVal(e->getOperand(0)); v.c &= mask(t->w); return v; }
        case llvm::Instruction::Sub: return Val((constVal(e->getOperand(0)).c - constVal(e->getOperand(1)).c) & mask(t->w));
        case llvm::Instruction::Add: return Val((constVal(e->getOperand(0)).c + constVal(e->getOperand(1)).c) & mask(t->w));
        default: unsupported(string("constant expression ") + e->getOpcodeName());
        }
    }
    unsupported("constant");
}

// ---------------------------------------------------------------- builtins
enum class B : int { None = -1, Nop, RetZero, RetArg0, New, NewArr, Del, DelArr, Malloc, Free, Memcpy, Memset, Trap, Expect, TypeIdFor, Assume, UMulO, SMulO, UAddO, SAddO, USubO, SSubO, UMax, UMin, SMax, SMin, USubSat, UAddSat, SSubSat, SAddSat, Fshl, Fshr, BitRev, LifeStart, LifeEnd, IsConst, ObjSize, Strcmp, Strlen, Memcmp,
    AllocExc, FreeExc, Throw, Rethrow, BeginCatch, EndCatch, Terminate, PureVirt, ThrowStd, GlAssert, GuardAcq, GuardRel, Abort, UncaughtExc, BSwap, Ctpop, Ctlz, Cttz, Abs, CurPrimExc, ExcCtor, MemchrB,
    VSym, VAssume, VAssert, VCover, VObserve, VCheckpoint, VLive, VConc, VNote, VIsSym, VExit, VAddrState, ThreadActive };
static B builtinOf(const string& n)
{
    static const std::map<string, B> m = {
        { "_Znwm", B::New }, { "vp_raw_new", B::New }, { "_ZnwmRKSt9nothrow_t", B::New }, { "_ZnwmSt11align_val_t", B::New }, { "_Znam", B::NewArr }, { "_ZnamRKSt9nothrow_t", B::NewArr },
        { "_ZdlPv", B::Del }, { "_ZdlPvm", B::Del }, { "_ZdlPvRKSt9nothrow_t", B::Del }, { "_ZdlPvSt11align_val_t", B::Del }, { "_ZdlPvmSt11align_val_t", B::Del }, { "_ZdaPv", B::DelArr }, { "_ZdaPvm", B::DelArr },
        { "malloc", B::Malloc }, { "free", B::Free }, { "memcpy", B::Memcpy }, { "memmove", B::Memcpy }, { "memset", B::Memset }, { "strcmp", B::Strcmp }, { "strlen", B::Strlen }, { "memcmp", B::Memcmp }, { "bcmp", B::Memcmp },
        { "__cxa_allocate_exception", B::AllocExc }, { "__cxa_free_exception", B::FreeExc }, { "__cxa_throw", B::Throw }, { "__cxa_rethrow", B::Rethrow }, { "__cxa_begin_catch", B::BeginCatch }, { "__cxa_end_catch", B::EndCatch },
        { "_ZSt9terminatev", B::Terminate }, { "__cxa_pure_virtual", B::PureVirt }, { "__cxa_deleted_virtual", B::PureVirt }, { "_ZSt21__glibcxx_assert_failPKciS0_S0_", B::GlAssert }, { "__assert_fail", B::GlAssert },
        { "__cxa_guard_acquire", B::GuardAcq }, { "__cxa_guard_release", B::GuardRel }, { "__cxa_guard_abort", B::Nop }, { "abort", B::Abort }, { "__cxa_atexit", B::RetZero }, { "_ZNSt8ios_base4InitC1Ev", B::Nop }, { "_ZNSt8ios_base4InitD1Ev", B::Nop },
        { "_ZSt18uncaught_exceptionv", B::UncaughtExc }, { "_ZSt19uncaught_exceptionsv", B::UncaughtExc }, { "__gxx_personality_v0", B::Nop },
        { "vp_sym", B::VSym }, { "vp_assume", B::VAssume }, { "vp_assert", B::VAssert }, { "vp_cover", B::VCover }, { "vp_observe", B::VObserve }, { "vp_checkpoint", B::VCheckpoint }, { "vp_live_heap", B::VLive }, { "vp_concretize", B::VConc }, { "vp_is_symbolic", B::VIsSym }, { "vp_exit", B::VExit }
    };
    auto it = m.find(n); if (it != m.end()) return it->second;
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != string::npos) return B::ThrowStd;
    if (n.rfind("llvm.", 0) == 0) {
        auto p = [&](const char* x) { return n.rfind(x, 0) == 0; };
        if (p("llvm.memcpy") || p("llvm.memmove")) return B::Memcpy;
        if (p("llvm.memset")) return B::Memset;
        if (p("llvm.lifetime.start")) return B::LifeStart;
        if (p("llvm.lifetime.end")) return B::LifeEnd;
        if (p("llvm.trap") || p("llvm.ubsantrap") || p("llvm.debugtrap")) return B::Trap;
        if (p("llvm.expect")) return B::RetArg0;
        if (p("llvm.launder.invariant") || p("llvm.strip.invariant") || p("llvm.threadlocal.address")) return B::RetArg0;
        if (p("llvm.eh.typeid.for")) return B::TypeIdFor;
        if (p("llvm.assume")) return B::Assume;
        if (p("llvm.umul.with")) return B::UMulO; if (p("llvm.smul.with")) return B::SMulO;
        if (p("llvm.uadd.with")) return B::UAddO; if (p("llvm.sadd.with")) return B::SAddO;
        if (p("llvm.usub.with")) return B::USubO; if (p("llvm.ssub.with")) return B::SSubO;
        if (p("llvm.usub.sat")) return B::USubSat; if (p("llvm.uadd.sat")) return B::UAddSat; if (p("llvm.ssub.sat")) return B::SSubSat; if (p("llvm.sadd.sat")) return B::SAddSat;
        if (p("llvm.fshl")) return B::Fshl; if (p("llvm.fshr")) return B::Fshr; if (p("llvm.bitreverse")) return B::BitRev;
        if (p("llvm.umax")) return B::UMax; if (p("llvm.umin")) return B::UMin; if (p("llvm.smax")) return B::SMax; if (p("llvm.smin")) return B::SMin;
        if (p("llvm.is.constant")) return B::IsConst; if (p("llvm.objectsize")) return B::ObjSize;
        if (p("llvm.dbg") || p("llvm.experimental.noalias") || p("llvm.donothing") || p("llvm.prefetch") || p("llvm.var.annotation") || p("llvm.invariant.end")) return B::Nop;
        if (p("llvm.invariant.start") || p("llvm.stacksave")) return B::RetZero;
        if (p("llvm.stackrestore")) return B::Nop;
        if (p("llvm.bswap")) return B::BSwap; if (p("llvm.ctpop")) return B::Ctpop; if (p("llvm.ctlz")) return B::Ctlz; if (p("llvm.cttz")) return B::Cttz; if (p("llvm.abs")) return B::Abs;
    }
    return B::None;
}

// ---------------------------------------------------------------- decoding
static void decode(Func* F)
{
    F->decoded = true;
    llvm::Function& f = *F->f;
    std::unordered_map<const llvm::Value*, int> reg; std::unordered_map<const llvm::BasicBlock*, int> bi;
    int n = 0;
    for (auto& a : f.args()) { reg[&a] = n; F->argRegs.push_back(n); n++; }
    int k = 0; for (auto& b : f) { bi[&b] = k++; for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; }
    F->nregs = n; F->blocks.resize(k);
    std::unordered_map<const llvm::Constant*, int> cidx;
    auto opnd = [&](const llvm::Value* v) -> int {
        auto it = reg.find(v); if (it != reg.end()) return it->second;
        if (auto* c = llvm::dyn_cast<llvm::Constant>(v)) {
            auto j = cidx.find(c); if (j != cidx.end()) return ~j->second;
            int id = (int)F->consts.size(); cidx[c] = id; F->consts.push_back(constVal(c)); return ~id;
        }
        if (llvm::isa<llvm::MetadataAsValue>(v)) { int id = (int)F->consts.size(); F->consts.push_back(Val(0)); return ~id; }
        unsupported("operand");
    };
    for (auto& b : f) {
        Block& B_ = F->blocks[bi[&b]]; B_.start = (int)F->code.size();
        for (auto& i : b) {
            if (auto* p = llvm::dyn_cast<llvm::PHINode>(&i)) {
                for (unsigned q = 0; q < p->getNumIncomingValues(); q++) B_.phis[bi[p->getIncomingBlock(q)]].push_back({ reg[p], opnd(p->getIncomingValue(q)) });
                continue;
            }
            if (llvm::isa<llvm::DbgInfoIntrinsic>(&i)) continue;
            Ins x; x.li = &i; x.dst = i.getType()->isVoidTy() ? -1 : reg[&i]; x.ty = tyOf(i.getType()); x.w = (u8)x.ty->w;
            using L = llvm::Instruction;
            switch (i.getOpcode()) {
            case L::Add: x.sub = (u8)Op::Add; goto bin; case L::Sub: x.sub = (u8)Op::Sub; goto bin; case L::Mul: x.sub = (u8)Op::Mul; goto bin;
            case L::UDiv: x.sub = (u8)Op::UDiv; goto bin; case L::SDiv: x.sub = (u8)Op::SDiv; goto bin; case L::URem: x.sub = (u8)Op::URem; goto bin; case L::SRem: x.sub = (u8)Op::SRem; goto bin;
            case L::And: x.sub = (u8)Op::And; goto bin; case L::Or: x.sub = (u8)Op::Or; goto bin; case L::Xor: x.sub = (u8)Op::Xor; goto bin;
            case L::Shl: x.sub = (u8)Op::Shl; goto bin; case L::LShr: x.sub = (u8)Op::LShr; goto bin; case L::AShr: x.sub = (u8)Op::AShr; goto bin;
            bin: x.op = I::Bin; if (x.ty->kind != 1 || x.ty->w > 64) unsupported("wide arithmetic in " + F->name.substr(0, 100)); x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); break;
            case L::ICmp: { x.op = I::Cmp; x.sub = (u8)llvm::cast<llvm::ICmpInst>(i).getPredicate(); auto* t = tyOf(i.getOperand(0)->getType()); if (t->kind != 1 || t->w > 64) unsupported("wide compare"); x.w2 = (u8)t->w; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); break; }
            case L::Trunc: case L::ZExt: case L::SExt: case L::PtrToInt: case L::IntToPtr: case L::BitCast: case L::AddrSpaceCast: {
                x.op = I::Cast; auto* t = tyOf(i.getOperand(0)->getType()); if (t->kind != 1 || t->w > 64 || x.ty->kind != 1 || x.ty->w > 64) unsupported("wide cast in " + F->name.substr(0, 100)); x.w2 = (u8)t->w; x.sub = i.getOpcode() == L::SExt; x.a = opnd(i.getOperand(0)); break; }
            case L::Load: x.op = I::Load; x.a = opnd(i.getOperand(0)); break;
            case L::Store: x.op = I::Store; x.ty = tyOf(i.getOperand(0)->getType()); x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); break;
            case L::GetElementPtr: {
                x.op = I::Gep; x.a = opnd(i.getOperand(0)); u64 cst = 0;
                for (auto it = llvm::gep_type_begin(i), e = llvm::gep_type_end(i); it != e; ++it) {
                    if (auto* st = it.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(llvm::cast<llvm::ConstantInt>(it.getOperand())->getZExtValue()); continue; }
                    u64 es = DL->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(it.getOperand())) { cst += (u64)ci->getSExtValue() * es; continue; }
                    x.args.push_back(opnd(it.getOperand())); x.aux.push_back(es); x.aux.push_back(tyOf(it.getOperand()->getType())->w);
                }
                x.aux.push_back(cst); break;
            }
            case L::Alloca: { x.op = I::Alloca; auto& al = llvm::cast<llvm::AllocaInst>(i); x.a = opnd(al.getArraySize()); x.aux.push_back(DL->getTypeAllocSize(al.getAllocatedType())); break; }
            case L::Br: { auto& br = llvm::cast<llvm::BranchInst>(i); if (br.isConditional()) { x.op = I::CondBr; x.a = opnd(br.getCondition()); x.t0 = bi[br.getSuccessor(0)]; x.t1 = bi[br.getSuccessor(1)]; } else { x.op = I::Br; x.t0 = bi[br.getSuccessor(0)]; } break; }
            case L::Switch: { auto& sw = llvm::cast<llvm::SwitchInst>(i); x.op = I::Switch; x.a = opnd(sw.getCondition()); x.w2 = (u8)tyOf(sw.getCondition()->getType())->w; x.t0 = bi[sw.getDefaultDest()];
                for (auto& c : sw.cases()) { x.aux.push_back(c.getCaseValue()->getZExtValue()); x.args.push_back(bi[c.getCaseSuccessor()]); } break; }
            case L::Ret: x.op = I::Ret; if (i.getNumOperands()) { x.a = opnd(i.getOperand(0)); x.sub = 1; } break;
            case L::Unreachable: x.op = I::Unreachable; break;
            case L::Call: case L::Invoke: {
                auto& cb = llvm::cast<llvm::CallBase>(i); x.op = i.getOpcode() == L::Call ? I::Call : I::Invoke;
                for (unsigned q = 0; q < cb.arg_size(); q++) { x.args.push_back(opnd(cb.getArgOperand(q))); if (cb.isByValArgument(q)) x.byval.push_back({ q, DL->getTypeAllocSize(cb.getParamByValType(q)) }); }
                for (unsigned q = 0; q < cb.arg_size(); q++) x.aux.push_back(tyOf(cb.getArgOperand(q)->getType())->w);
                if (cb.isInlineAsm()) unsupported("inline asm");
                llvm::Value* cv = cb.getCalledOperand()->stripPointerCastsAndAliases();
                if (auto* cf = llvm::dyn_cast<llvm::Function>(cv)) x.callee = getFunc(cf); else x.b = opnd(cv);
                if (auto* iv = llvm::dyn_cast<llvm::InvokeInst>(&i)) { x.t0 = bi[iv->getNormalDest()]; x.t1 = bi[iv->getUnwindDest()]; }
                break;
            }
            case L::LandingPad: {
                x.op = I::LandingPad; auto& lp = llvm::cast<llvm::LandingPadInst>(i); x.sub = lp.isCleanup();
                for (unsigned q = 0; q < lp.getNumClauses(); q++) {
                    if (lp.isCatch(q)) { x.aux.push_back(0); x.aux.push_back(1); x.aux.push_back(constAddr(lp.getClause(q))); }
                    else { auto* arr = lp.getClause(q); unsigned m = llvm::cast<llvm::ArrayType>(arr->getType())->getNumElements(); x.aux.push_back(1); x.aux.push_back(m); for (unsigned z = 0; z < m; z++) x.aux.push_back(constAddr(arr->getAggregateElement(z))); }
                }
                B_.lpad = (int)F->code.size(); break;
            }
            case L::Resume: x.op = I::Resume; x.a = opnd(i.getOperand(0)); break;
            case L::ExtractValue: { x.op = I::ExtractV; x.a = opnd(i.getOperand(0)); for (unsigned q : llvm::cast<llvm::ExtractValueInst>(i).indices()) x.aux.push_back(q); break; }
            case L::InsertValue: { x.op = I::InsertV; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); for (unsigned q : llvm::cast<llvm::InsertValueInst>(i).indices()) x.aux.push_back(q); break; }
            case L::Select: x.op = I::Select; x.a = opnd(i.getOperand(0)); x.b = opnd(i.getOperand(1)); x.c = opnd(i.getOperand(2)); break;
            case L::Freeze: x.op = I::Freeze; x.a = opnd(i.getOperand(0)); break;
            case L::AtomicRMW: { auto& r = llvm::cast<llvm::AtomicRMWInst>(i); x.op = I::AtomicRMW; x.a = opnd(r.getPointerOperand()); x.b = opnd(r.getValOperand()); x.sub = (u8)r.getOperation(); break; }
            case L::AtomicCmpXchg: { auto& r = llvm::cast<llvm::AtomicCmpXchgInst>(i); x.op = I::CmpXchg; x.a = opnd(r.getPointerOperand()); x.b = opnd(r.getCompareOperand()); x.c = opnd(r.getNewValOperand()); x.ty = tyOf(r.getCompareOperand()->getType()); break; }
            case L::Fence: x.op = I::Fence; break;
            default: unsupported(string("instruction ") + i.getOpcodeName() + " in " + demangle(F->name));
            }
            F->blockOf.push_back(bi[&b]); F->code.push_back(std::move(x));
        }
    }
}
static void computeLive(Func* F)
{
    // live-in per block (registers), backward data flow
    F->live = true; size_t nb = F->blocks.size(); F->liveOut.assign(nb, vector<bool>(F->nregs));
    auto& in = F->liveOut; bool ch = true;
    auto blockEnd = [&](size_t b) { return b + 1 < nb ? F->blocks[b + 1].start : (int)F->code.size(); };
    while (ch) {
        ch = false;
        for (size_t bb = nb; bb-- > 0;) {
            vector<bool> l(F->nregs); Ins& term = F->code[blockEnd(bb) - 1];
            vector<int> succ;
            if (term.op == I::Br) succ = { term.t0 }; else if (term.op == I::CondBr || term.op == I::Invoke) succ = { term.t0, term.t1 }; else if (term.op == I::Switch) { succ = term.args; succ.push_back(term.t0); }
            for (int s : succ) { for (int r = 0; r < F->nregs; r++) if (in[s][r]) l[r] = true; }
            for (int s : succ) { auto it = F->blocks[s].phis.find((int)bb); if (it != F->blocks[s].phis.end()) { for (auto& p : it->second) l[p.dst] = false; for (auto& p : it->second) if (p.src >= 0) l[p.src] = true; } }
            for (int i = blockEnd(bb) - 1; i >= F->blocks[bb].start; i--) {
                Ins& x = F->code[i]; if (x.dst >= 0) l[x.dst] = false;
                auto use = [&](int r) { if (r >= 0 && r < F->nregs) l[r] = true; };
                if (x.op != I::Br && x.op != I::Unreachable && x.op != I::LandingPad && x.op != I::Fence && !(x.op == I::Ret && !x.sub)) {
                    if (x.op == I::Call || x.op == I::Invoke) { for (int a : x.args) use(a); if (!x.callee) use(x.b); }
                    else { use(x.a); if (x.op == I::Bin || x.op == I::Cmp || x.op == I::Store || x.op == I::InsertV || x.op == I::Select || x.op == I::AtomicRMW || x.op == I::CmpXchg) use(x.b); if (x.op == I::Select || x.op == I::CmpXchg) use(x.c); if (x.op == I::Gep) for (int a : x.args) use(a); }
                }
            }
            for (auto& kv : F->blocks[bb].phis) for (auto& p : kv.second) l[p.dst] = false;
            if (l != in[bb]) { in[bb] = l; ch = true; }
        }
    }
}
static vector<bool> liveAfter(Func* F, int pc)
{
    if (!F->live) computeLive(F);
    size_t bb = F->blockOf[pc], nb = F->blocks.size(); int end = bb + 1 < nb ? F->blocks[bb + 1].start : (int)F->code.size();
    vector<bool> l(F->nregs); Ins& term = F->code[end - 1]; vector<int> succ;
    if (term.op == I::Br) succ = { term.t0 }; else if (term.op == I::CondBr || term.op == I::Invoke) succ = { term.t0, term.t1 }; else if (term.op == I::Switch) { succ = term.args; succ.push_back(term.t0); }
    for (int s : succ) for (int r = 0; r < F->nregs; r++) if (F->liveOut[s][r]) l[r] = true;
    for (int s : succ) { auto it = F->blocks[s].phis.find((int)bb); if (it != F->blocks[s].phis.end()) { for (auto& p : it->second) l[p.dst] = false; for (auto& p : it->second) if (p.src >= 0) l[p.src] = true; } }
    for (int i = end - 1; i > pc; i--) {
        Ins& x = F->code[i]; if (x.dst >= 0) l[x.dst] = false;
        auto use = [&](int r) { if (r >= 0 && r < F->nregs) l[r] = true; };
        if (x.op != I::Br && x.op != I::Unreachable && x.op != I::LandingPad && x.op != I::Fence && !(x.op == I::Ret && !x.sub)) {
            if (x.op == I::Call || x.op == I::Invoke) { for (int a : x.args) use(a); if (!x.callee) use(x.b); }
            else { use(x.a); if (x.op == I::Bin || x.op == I::Cmp || x.op == I::Store || x.op == I::InsertV || x.op == I::Select || x.op == I::AtomicRMW || x.op == I::CmpXchg) use(x.b); if (x.op == I::Select || x.op == I::CmpXchg) use(x.c); if (x.op == I::Gep) for (int a : x.args) use(a); }
        }
    }
    if (F->code[pc].dst >= 0) l[F->code[pc].dst] = false;
    return l;
}
#include "exec.inc"
