// Execution loop, exceptions, checkpoints, driver.  Included by interp.cpp.
static std::deque<SP> nextLayer; static vector<SP> work;
static std::unordered_set<u64> seenA; static std::set<std::pair<u64, u64>> seen;

static std::map<string, u64> synthTi; static std::map<u64, string> synthName;
static string tiName(u64 a)
{
    auto it = gOfAddr.find(a); if (it != gOfAddr.end()) return it->second->getName().str();
    auto j = synthName.find(a); return j == synthName.end() ? "" : j->second;
}
static u64 tiAddr(const string& n)
{
    if (auto* g = M->getGlobalVariable(n, true)) return addrOfGlobal(g);
    auto it = synthTi.find(n); if (it != synthTi.end()) return it->second;
    u64 a = K_GLOBAL | ((0x800000000ull + synthTi.size()) << 24) | OFF0; synthTi[n] = a; synthName[a] = n; return a;
}
static bool derives(const string& t, const string& target)
{
    if (t == target) return true;
    static const std::map<string, string> par = { { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" }, { "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt11logic_error", "_ZTISt9exception" }, { "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt11range_error", "_ZTISt13runtime_error" }, { "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" } };
    auto it = par.find(t); if (it != par.end()) return derives(it->second, target);
    auto* g = M->getGlobalVariable(t, true);
    if (g && g->hasInitializer()) if (auto* st = llvm::dyn_cast<llvm::ConstantStruct>(g->getInitializer()))
        for (unsigned i = 2; i < st->getNumOperands(); i++) if (auto* b = llvm::dyn_cast<llvm::GlobalVariable>(st->getOperand(i)->stripPointerCasts())) if (b->getName().startswith("_ZTI") && derives(b->getName().str(), target)) return true;
    return false;
}
static std::map<u64, int> selIdx;
static int selector(u64 ti) { auto it = selIdx.find(ti); if (it != selIdx.end()) return it->second; int n = (int)selIdx.size() + 1; selIdx[ti] = n; return n; }
// returns selector >0 when a clause of the landing pad matches, 0 otherwise
static int matchLpad(Ins& lp, u64 ti)
{
    string tn = tiName(ti);
    for (size_t i = 0; i < lp.aux.size();) {
        u64 k = lp.aux[i], n = lp.aux[i + 1];
        if (k == 0) { u64 c = lp.aux[i + 2]; if (!c || derives(tn, tiName(c))) return selector(c); }
        else { bool in = false; for (u64 z = 0; z < n; z++) if (derives(tn, tiName(lp.aux[i + 2 + z]))) in = true; if (!in) return -1; }
        i += 2 + n;
    }
    return 0;
}
static void popFrame(State& s) { auto& f = s.fr.back(); s.stack.resize(f.slotBase); s.fr.pop_back(); }
static void jump(State& s, Frame& f, int to)
{
    Block& b = f.f->blocks[to];
    if (!b.phis.empty()) {
        auto it = b.phis.find(f.blk); if (it == b.phis.end()) unsupported("phi edge");
        if (it->second.size() == 1) { auto& p = it->second[0]; f.r[p.dst] = p.src >= 0 ? f.r[p.src] : f.f->consts[~p.src]; }
        else { vector<Val> t; for (auto& p : it->second) t.push_back(p.src >= 0 ? f.r[p.src] : f.f->consts[~p.src]); int i = 0; for (auto& p : it->second) f.r[p.dst] = std::move(t[i++]); }
    }
    f.blk = to; f.pc = b.start;
}
static void unwind(State& s, u64 ptr, bool phase1)
{
    Exc* ex = nullptr; for (auto& e : s.excs) if (e.ptr == ptr) ex = &e;
    if (!ex) unsupported("unwind of unknown exception");
    if (phase1) {
        bool found = false;
        for (int i = (int)s.fr.size() - 1; i >= 0 && !found; i--) {
            auto& f = s.fr[i]; Ins& x = f.f->code[f.pc];
            if (x.op == I::Invoke) { int lp = f.f->blocks[x.t1].lpad; if (lp >= 0 && matchLpad(f.f->code[lp], ex->tinfo)) found = true; }
            else if (i < (int)s.fr.size() - 1 && f.f->f->doesNotThrow()) break;
        }
        if (!found) { report(s, "terminate", "uncaught exception of type " + demangle(tiName(ex->tinfo)) + " (std::terminate)", *s.model); throw PathEnd {}; }
    }
    while (!s.fr.empty()) {
        auto& f = s.fr.back(); Ins& x = f.f->code[f.pc];
        if (x.op == I::Invoke) {
            int lp = f.f->blocks[x.t1].lpad; if (lp < 0) unsupported("invoke without landingpad");
            Ins& L = f.f->code[lp]; int sel = matchLpad(L, ex->tinfo);
            if (sel || L.sub) {
                jump(s, f, x.t1);
                f.r[L.dst] = Val::agg({ Val(ptr), Val((u64)(u32)sel) }); f.pc = lp + 1; return;
            }
        }
        popFrame(s);
    }
    unsupported("unwound past main");
}
static void throwExc(State& s, u64 ptr, u64 ti, u64 dtor)
{
    s.excs.push_back({ ptr, ti, dtor, 0, true }); unwind(s, ptr, true);
}

static inline const Val& V(Frame& f, int o) { return o >= 0 ? f.r[o] : f.f->consts[~o]; }

static void checkUndef(State& s, E c, const char* what)
{
    if (c->undef && Z->dependsOnUndef(s.pc, c)) { report(s, "uninit", string(what) + " depends on uninitialised memory", *s.model); throw PathEnd {}; }
}
static void forkWith(State& s, E c) // clone that re-executes the current instruction under c, if feasible
{
    std::shared_ptr<Model> m;
    if (!feasible(s, c, m)) return;
    SP n = std::make_unique<State>(s); addPc(*n, c, m); nForks++; spawn->push_back(std::move(n));
}
static u64 concretize(State& s, const Val& v, unsigned w, const char* what)
{
    if (!v.e) return v.c;
    checkUndef(s, v.e, what);
    u64 x = evalE(v.e, *s.model);
    E eq = mkBin(Op::Eq, v.e, cst(w, x));
    if (!isC(eq)) { forkWith(s, mkNot1(eq)); addPc(s, eq, s.model); }
    return x;
}
static void copyMem(State& s, u64 d, u64 sr, u64 n)
{
    if (!n) return;
    u64 so, dof; Obj* so_ = rd(s, sr, n, so);
    vector<u8> dat(so_->d + so, so_->d + so + n), st(so_->st + so, so_->st + so + n); vector<E> sy; if (so_->sy) sy.assign(so_->sy + so, so_->sy + so + n);
    Obj* o = wr(s, d, n, dof);
    memcpy(o->d + dof, dat.data(), n); memcpy(o->st + dof, st.data(), n);
    if (!sy.empty()) { o->needSy(); memcpy(o->sy + dof, sy.data(), n * sizeof(E)); }
}
static Frame& pushFrame(State& s, Func* F, vector<Val>& args, int dst)
{
    if (!F->decoded) { decode(F); }
    if (s.fr.size() > 3000) { report(s, "recursion", "call depth exceeds 3000 frames", *s.model); throw PathEnd {}; }
    F->calls++;
    s.fr.emplace_back(); Frame& n = s.fr.back(); n.f = F; n.r.resize(F->nregs); n.retDst = dst; n.slotBase = (int)s.stack.size();
    for (size_t i = 0; i < F->argRegs.size() && i < args.size(); i++) n.r[F->argRegs[i]] = std::move(args[i]);
    n.pc = 0; n.blk = 0; return n;
}
static string cstr(State& s, u64 a)
{
    string r; for (int i = 0; i < 400; i++) { Val v = loadScalar(s, a + i, 8, 1); if (v.e) return r + "?"; if (!v.c) break; r += (char)v.c; } return r;
}
static std::map<string, const char*> intern; static const char* internS(const string& x) { auto it = intern.find(x); if (it == intern.end()) it = intern.emplace(x, strdup(x.c_str())).first; return it->second; }

// ---- checkpoints
static FILE* dumpF;
struct HashS { u64 a = 0x1234567, b = 0x9876543; void add(u64 v) { if (dumpF) fprintf(dumpF, " %llx", (unsigned long long)v); a = mix(a, v); b = mix(b ^ 0x5bd1e995, v * 0x9E3779B97F4A7C15ull + 1); } };
static bool undefOnly(E e) { if (!e->syms) return true; std::function<bool(E)> f = [&](E x) -> bool { if (!x) return true; if (x->op == Op::Sym) return x->undef; if (!x->syms) return true; return f(x->a) && f(x->b) && f(x->d); }; return f(e); }
// true when a symbolic input is still live; otherwise fills h with a canonical hash of the live state
static bool liveSymbolic(State& s, HashS& h)
{
    std::unordered_map<u64, u64> num; std::deque<u64> q; bool sym = false;
    auto ptr = [&](u64 v) -> bool { // canonicalise a concrete word that points to a live heap object
        if ((v >> 60) == 2) { u64 id = (v >> 24) & 0xfffffffffull; u64 off = v & (WIN - 1); if (off < OFF0 - 64 || off > WIN / 2) return false; if (!s.heap.get(id)) { if (id < s.nextHeap) { h.add(0xdeadull); return true; } return false; }
            auto it = num.find(id); if (it == num.end()) { it = num.emplace(id, num.size()).first; q.push_back(id); } h.add(0x7000000000ull + it->second); h.add(off); return true; }
        if ((v >> 60) == 3) { u32 sl = (v >> 24) & 0xffff, gen = (v >> 40) & 0xfffff; if (sl < s.stack.size() && s.stack[sl].gen == gen) { h.add(0x6000000000ull + sl); h.add(v & (WIN - 1)); } else h.add(0xdeadull); return true; }
        return false;
    };
    auto val = [&](const Val& v, auto&& self) -> void { if (v.a) { for (auto& x : v.a->v) self(x, self); return; } if (v.e) { if (!undefOnly(v.e)) sym = true; h.add(0x77); return; } if (!ptr(v.c)) h.add(v.c); };
    auto obj = [&](Obj* o) {
        h.add(o->size);
        for (u32 i = 0; i < o->size;) {
            if (!(i & 7) && i + 8 <= o->size) { u64 stw; memcpy(&stw, o->st + i, 8); if (!stw) { u64 v; memcpy(&v, o->d + i, 8); if (!ptr(v)) h.add(v); i += 8; continue; } }
            if (o->st[i] == S_CONC) h.add(o->d[i]); else if (o->st[i] == S_UNDEF) h.add(0x1234); else { if (undefOnly(o->sy[i])) h.add(0x1234); else sym = true; }
            i++;
        }
    };
    for (auto& f : s.fr) {
        h.add(f.f->idx); h.add(f.pc); vector<bool> l = liveAfter(f.f, f.pc);
        for (int r = 0; r < f.f->nregs; r++) if (l[r]) { h.add(r); val(f.r[r], val); } else f.r[r] = Val();
    }
    for (auto& sl : s.stack) { if (sl.o.p->dead) h.add(0xdd); else obj(sl.o.p); }
    for (u64 i = 0; i < nGlobals; i++) if (Obj* o = s.glob.get(i)) if (!o->ro && !o->ext) { h.add(i); obj(o); }
    while (!q.empty()) { u64 id = q.front(); q.pop_front(); obj(s.heap.get(id)); }
    for (u64 id = 1; id < s.nextHeap; id++) { if (!(id & 63) && (id >> 6) < s.heap.c.size() && !s.heap.c[id >> 6]) { id += 63; continue; } Obj* o = s.heap.get(id); if (o && !num.count(id)) { h.add(0xfeed); obj(o); while (!q.empty()) { u64 k = q.front(); q.pop_front(); if (k != id) obj(s.heap.get(k)); } } }
    h.add(s.excs.size()); h.add(s.caught.size());
    return sym;
}
static u64 rngState = 88172645463325252ull;
static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static u64 sampleSeen;
static void samplePath(State& s, const char* how)
{
    sampleSeen++;
    bool take = samples.size() < optSamples; size_t at = samples.size();
    if (!take && optSamples) { u64 r = rnd() % sampleSeen; if (r < optSamples) { take = true; at = r; } }
    if (!take) return;
    Sample x; x.cps = s.cps; x.end = how; flat(s, *s.model, x.vals, x.obs);
    if (at == samples.size()) samples.push_back(x); else samples[at] = x;
}
static void atCheckpoint(SP s)
{
    anyCheckpoint = true; s->cps++; s->steps = 0; maxLayerSeen = std::max(maxLayerSeen, s->cps);
    for (auto& f : s->fr) (void)f;
    HashS h; bool sym = liveSymbolic(*s, h); if (dumpF) fprintf(dumpF, "\n");
    // the current frame's pc is the checkpoint call; continue after it
    s->fr.back().pc++;
    if (!sym) {
        auto n = std::make_shared<Hist>(); n->prev = s->hist;
        for (auto& r : s->syms) { n->vals.push_back({ r.name, evalE(r.e, *s->model) }); n->w.push_back(r.w); }
        for (auto& o : s->obs) n->obs.push_back(o.e ? evalE(o.e, *s->model) : o.c);
        s->hist = n; s->syms.clear(); s->obs.clear(); s->pc.clear(); s->known.clear(); s->model = std::make_shared<Model>();
        if (!seen.insert({ h.a, h.b }).second) { nMerged++; samplePath(*s, "merged"); return; }
        nStatesCk++;
    }
    if (s->cps >= optMaxCk) { nDepthCut++; closureReached = false; nPaths++; samplePath(*s, "bound"); return; }
    nextLayer.push_back(std::move(s));
}

enum class R { Next, Stop, Ckpt };
static R builtin(State& s, Frame& f, Ins& x, B b, Func* callee)
{
    auto A = [&](int i) -> const Val& { return V(f, x.args[i]); };
    auto done = [&]() { if (x.op == I::Invoke) jump(s, f, x.t0); else f.pc++; };
    auto ret = [&](Val v) { if (x.dst >= 0) f.r[x.dst] = std::move(v); done(); };
    auto W = [&](int i) { return (unsigned)x.aux[i]; };
    switch (b) {
    case B::Nop: case B::LifeStart: case B::LifeEnd: {
        if (b != B::Nop) {
            u64 a = A(1).c, off; OP* sl = nullptr; Obj* o = lookup(s, a, off, &sl);
            if (o && o->kind == A_STACK) { if (o->rc > 1) { *sl = OP(new Obj(*o)); o = sl->p; } memset(o->st, S_UNDEF, o->size); o->dead = b == B::LifeEnd; }
        }
        ret(Val(0)); return R::Next;
    }
    case B::RetZero: ret(Val(0)); return R::Next;
    case B::RetArg0: ret(A(0)); return R::Next;
    case B::New: case B::NewArr: case B::Malloc: { u64 n = concretize(s, A(0), 64, "allocation size"); ret(Val(newHeap(s, n, b == B::New ? A_NEW : b == B::NewArr ? A_NEWARR : A_MALLOC))); return R::Next; }
    case B::Del: case B::DelArr: case B::Free: { u64 p = concretize(s, A(0), 64, "freed pointer"); freeHeap(s, p, b == B::Del ? A_NEW : b == B::DelArr ? A_NEWARR : A_MALLOC); ret(Val(0)); return R::Next; }
    case B::Memcpy: { u64 n = concretize(s, A(2), W(2), "copy length"), d = concretize(s, A(0), 64, "copy destination"), r = concretize(s, A(1), 64, "copy source"); copyMem(s, d, r, n); ret(A(0)); return R::Next; }
    case B::Memset: {
        u64 n = concretize(s, A(2), W(2), "memset length"), d = concretize(s, A(0), 64, "memset destination");
        if (n) { u64 off; Obj* o = wr(s, d, n, off); const Val& v = A(1); if (v.e) { E e = v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e; o->needSy(); for (u64 i = 0; i < n; i++) { o->st[off + i] = S_SYM; o->sy[off + i] = e; } } else { memset(o->d + off, (int)v.c, n); memset(o->st + off, 0, n); } }
        ret(A(0)); return R::Next;
    }
    case B::Trap: report(s, "ub", "undefined behaviour trap", *s.model); return R::Stop;
    case B::TypeIdFor: ret(Val((u64)selector(A(0).c))); return R::Next;
    case B::Assume: { if (x.args.size() && W(0) == 1 && !A(0).e && !A(0).c) { report(s, "ub", "assumption violated", *s.model); return R::Stop; } ret(Val(0)); return R::Next; }
    case B::UMulO: case B::SMulO: case B::UAddO: case B::SAddO: case B::USubO: case B::SSubO: {
        unsigned w = x.ty->el[0]->w; bool sg = b == B::SMulO || b == B::SAddO || b == B::SSubO;
        Op op = b == B::UMulO || b == B::SMulO ? Op::Mul : b == B::UAddO || b == B::SAddO ? Op::Add : Op::Sub;
        if (!A(0).e && !A(1).e) {
            __int128 p = sg ? (__int128)sext(A(0).c, w) : (__int128)A(0).c, q = sg ? (__int128)sext(A(1).c, w) : (__int128)A(1).c, r;
            bool ov = false; if (op == Op::Mul) { if (!sg && w == 64) { unsigned __int128 uu = (unsigned __int128)A(0).c * A(1).c; ov = uu >> 64; r = (__int128)uu; } else r = p * q; } else r = op == Op::Add ? p + q : p - q;
            u64 lo = (u64)r & mask(w); if (!ov) ov = sg ? (__int128)sext(lo, w) != r : (op == Op::Mul && w == 64 ? ov : (__int128)lo != r);
            ret(Val::agg({ Val(lo), Val((u64)ov) })); return R::Next;
        }
        E p = A(0).toE(w), q = A(1).toE(w), r = mkBin(op, p, q), ov;
        if (b == B::UAddO) ov = mkBin(Op::Ult, r, p); else if (b == B::USubO) ov = mkBin(Op::Ult, p, q);
        else if (b == B::UMulO && w <= 32) { E wide = mkBin(Op::Mul, mkZExt(p, 64), mkZExt(q, 64)); ov = mkNot1(mkBin(Op::Eq, wide, mkZExt(mkExtract(wide, 0, w), 64))); }
        else if (b == B::UMulO) { // exact: q != 0 && r / q != p
            ov = mkBin(Op::And, mkNot1(mkBin(Op::Eq, q, cst(w, 0))), mkNot1(mkBin(Op::Eq, mkBin(Op::UDiv, r, q), p)));
        } else if (w <= 32) { E wide = mkBin(op, mkSExt(p, 64), mkSExt(q, 64)); ov = mkNot1(mkBin(Op::Eq, wide, mkSExt(mkExtract(wide, 0, w), 64))); }
        else if (b == B::SAddO || b == B::SSubO) { E sp = mkExtract(p, w - 1, 1), sq = mkExtract(q, w - 1, 1), sr = mkExtract(r, w - 1, 1); E same = mkBin(Op::Eq, sp, b == B::SAddO ? sq : mkNot1(sq)); ov = mkBin(Op::And, same, mkNot1(mkBin(Op::Eq, sr, sp))); }
        else unsupported("signed 64-bit multiply overflow");
        ret(Val::agg({ Val::ex(r), Val::ex(ov) })); return R::Next;
    }
    case B::UMax: case B::UMin: case B::SMax: case B::SMin: { unsigned w = x.ty->w; E p = A(0).toE(w), q = A(1).toE(w); E c = b == B::UMax ? mkBin(Op::Ule, q, p) : b == B::UMin ? mkBin(Op::Ule, p, q) : b == B::SMax ? mkBin(Op::Sle, q, p) : mkBin(Op::Sle, p, q); ret(Val::ex(mkIte(c, p, q))); return R::Next; }
    case B::USubSat: { unsigned w = x.ty->w; E p = A(0).toE(w), q = A(1).toE(w); ret(Val::ex(mkIte(mkBin(Op::Ult, p, q), cst(w, 0), mkBin(Op::Sub, p, q)))); return R::Next; }
    case B::UAddSat: { unsigned w = x.ty->w; E p = A(0).toE(w), q = A(1).toE(w), r = mkBin(Op::Add, p, q); ret(Val::ex(mkIte(mkBin(Op::Ult, r, p), cst(w, mask(w)), r))); return R::Next; }
    case B::SSubSat: case B::SAddSat: {
        unsigned w = x.ty->w; E p = A(0).toE(w), q = A(1).toE(w), r = mkBin(b == B::SAddSat ? Op::Add : Op::Sub, p, q), z = cst(w, 0);
        E np = mkBin(Op::Slt, p, z), nq = mkBin(Op::Slt, q, z), nr = mkBin(Op::Slt, r, z); E same = mkBin(Op::Eq, np, b == B::SAddSat ? nq : mkNot1(nq));
        E ov = mkBin(Op::And, same, mkNot1(mkBin(Op::Eq, nr, np))); u64 mn = 1ull << (w - 1); ret(Val::ex(mkIte(ov, mkIte(np, cst(w, mn), cst(w, mn - 1)), r))); return R::Next;
    }
    case B::Fshl: case B::Fshr: {
        unsigned w = x.ty->w; E p = A(0).toE(w), q = A(1).toE(w), k = mkBin(Op::URem, A(2).toE(w), cst(w, w)), inv = mkBin(Op::Sub, cst(w, w), k), z = mkBin(Op::Eq, k, cst(w, 0));
        if (b == B::Fshl) ret(Val::ex(mkIte(z, p, mkBin(Op::Or, mkBin(Op::Shl, p, k), mkBin(Op::LShr, q, inv))))); else ret(Val::ex(mkIte(z, q, mkBin(Op::Or, mkBin(Op::LShr, q, k), mkBin(Op::Shl, p, inv))))); return R::Next;
    }
    case B::BitRev: { unsigned w = x.ty->w; E p = A(0).toE(w), r = nullptr; for (unsigned i = 0; i < w; i++) { E e = mkExtract(p, i, 1); r = r ? mkConcat(r, e) : e; } ret(Val::ex(r)); return R::Next; }
    case B::Abs: { unsigned w = x.ty->w; E p = A(0).toE(w); ret(Val::ex(mkIte(mkBin(Op::Slt, p, cst(w, 0)), mkBin(Op::Sub, cst(w, 0), p), p))); return R::Next; }
    case B::BSwap: { unsigned w = x.ty->w; E p = A(0).toE(w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E e = mkExtract(p, i, 8); r = r ? mkConcat(r, e) : e; } ret(Val::ex(r)); return R::Next; }
    case B::Ctpop: { unsigned w = x.ty->w; E p = A(0).toE(w), r = cst(w, 0); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(p, i, 1), w)); ret(Val::ex(r)); return R::Next; }
    case B::Ctlz: case B::Cttz: { unsigned w = x.ty->w; E p = A(0).toE(w), r = cst(w, w); for (unsigned i = 0; i < w; i++) { unsigned k = b == B::Ctlz ? i : w - 1 - i; r = mkIte(mkBin(Op::Eq, mkExtract(p, k, 1), cst(1, 1)), cst(w, b == B::Ctlz ? w - 1 - k : k), r); } ret(Val::ex(r)); return R::Next; }
    case B::IsConst: ret(Val(0)); return R::Next;
    case B::ObjSize: ret(Val(mask(x.ty->w))); return R::Next;
    case B::Strlen: { u64 a = concretize(s, A(0), 64, "string"); ret(Val(cstr(s, a).size())); return R::Next; }
    case B::Strcmp: { u64 p = concretize(s, A(0), 64, "string"), q = concretize(s, A(1), 64, "string"); int r = strcmp(cstr(s, p).c_str(), cstr(s, q).c_str()); ret(Val((u64)(u32)r)); return R::Next; }
    case B::Memcmp: {
        u64 n = concretize(s, A(2), 64, "memcmp length"), p = concretize(s, A(0), 64, "memcmp"), q = concretize(s, A(1), 64, "memcmp");
        E r = cst(32, 0); for (u64 i = n; i-- > 0;) { E a = loadScalar(s, p + i, 8, 1).toE(8), c = loadScalar(s, q + i, 8, 1).toE(8); r = mkIte(mkBin(Op::Eq, a, c), r, mkIte(mkBin(Op::Ult, a, c), cst(32, 0xffffffff), cst(32, 1))); }
        ret(Val::ex(r)); return R::Next;
    }
    case B::AllocExc: ret(Val(newHeap(s, A(0).c, A_EXC))); return R::Next;
    case B::FreeExc: freeHeap(s, A(0).c, A_EXC); ret(Val(0)); return R::Next;
    case B::Throw: throwExc(s, A(0).c, A(1).c, A(2).c); return R::Next;
    case B::ThrowStd: {
        const string& n = callee->name; string t = "_ZTISt9exception";
        static const vector<std::pair<string, string>> k = { { "out_of_range", "_ZTISt12out_of_range" }, { "length_error", "_ZTISt12length_error" }, { "invalid_argument", "_ZTISt16invalid_argument" }, { "logic_error", "_ZTISt11logic_error" }, { "bad_alloc", "_ZTISt9bad_alloc" }, { "bad_array_new", "_ZTISt20bad_array_new_length" }, { "bad_function_call", "_ZTISt17bad_function_call" }, { "runtime_error", "_ZTISt13runtime_error" } };
        for (auto& kv : k) if (n.find(kv.first) != string::npos) { t = kv.second; break; }
        u64 p = newHeap(s, 16, A_EXC); throwExc(s, p, tiAddr(t), 0); return R::Next;
    }
    case B::Rethrow: { if (s.caught.empty()) unsupported("rethrow without exception"); u64 p = s.caught.back(); for (auto& e : s.excs) if (e.ptr == p) e.inflight = true; unwind(s, p, true); return R::Next; }
    case B::BeginCatch: { u64 p = A(0).c; for (auto& e : s.excs) if (e.ptr == p) { e.handlers++; e.inflight = false; } s.caught.push_back(p); ret(Val(p)); return R::Next; }
    case B::EndCatch: {
        u64 p = s.caught.back(); s.caught.pop_back(); u64 dt = 0; bool kill = false;
        for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].ptr == p) { if (--s.excs[i].handlers == 0 && !s.excs[i].inflight) { dt = s.excs[i].dtor; kill = true; s.excs.erase(s.excs.begin() + i); } break; }
        if (kill && dt) { Func* F = funcs[((dt >> 24) & 0xfffffffff) - 1]; if (!F->f->isDeclaration()) { vector<Val> a { Val(p) }; Frame& n = pushFrame(s, F, a, -1); n.excFree = p; return R::Next; } }
        if (kill) freeHeap(s, p, A_EXC);
        ret(Val(0)); return R::Next;
    }
    case B::UncaughtExc: { u64 n = 0; for (auto& e : s.excs) n += e.inflight; ret(Val(callee->name.find("exceptionsv") != string::npos ? n : n > 0)); return R::Next; }
    case B::Terminate: report(s, "terminate", "std::terminate called", *s.model); return R::Stop;
    case B::PureVirt: report(s, "terminate", "pure virtual call", *s.model); return R::Stop;
    case B::Abort: report(s, "terminate", "abort called", *s.model); return R::Stop;
    case B::GlAssert: { string m = "library assertion failed"; report(s, "libassert", m, *s.model); return R::Stop; }
    case B::GuardAcq: { u64 a = A(0).c; Val v = loadScalar(s, a, 8, 1); ret(Val(v.c ? 0 : 1)); return R::Next; }
    case B::GuardRel: storeScalar(s, A(0).c, Val(1), 8, 1); ret(Val(0)); return R::Next;
    // ---- harness interface
    case B::VSym: { unsigned w = (unsigned)A(0).c; if (w < 1 || w > 64) unsupported("vp_sym width"); E e = symE(w, s.syms.size(), false); s.syms.push_back({ internS(cstr(s, concretize(s, A(1), 64, "message"))), w, e }); ret(Val::ex(mkZExt(e, 64))); return R::Next; }
    case B::VAssume: {
        E c = A(0).e ? mkNot1(mkBin(Op::Eq, A(0).e, cst(A(0).e->w, 0))) : cst(1, A(0).c != 0);
        if (isC(c)) { if (!c->c) { nAssumeCut++; return R::Stop; } ret(Val(0)); return R::Next; }
        checkUndef(s, c, "assumption"); std::shared_ptr<Model> m; if (!feasible(s, c, m)) { nAssumeCut++; return R::Stop; } addPc(s, c, m); ret(Val(0)); return R::Next;
    }
    case B::VAssert: {
        nAsserts++; string msg = cstr(s, concretize(s, A(1), 64, "message")); asserted.insert(msg);
        E c = A(0).e ? mkNot1(mkBin(Op::Eq, A(0).e, cst(A(0).e->w, 0))) : cst(1, A(0).c != 0);
        if (isC(c)) { if (!c->c) { report(s, "assert", msg, *s.model); return R::Stop; } ret(Val(0)); return R::Next; }
        nAssertsSym++; std::shared_ptr<Model> m; nAssertQ++;
        if (feasible(s, mkNot1(c), m)) { report(s, "assert", msg, *m); std::shared_ptr<Model> m2; if (!feasible(s, c, m2)) return R::Stop; addPc(s, c, m2); }
        else if (!s.known.count(c)) { s.known.emplace(c, true); s.known.emplace(mkNot1(c), false); } // implied
        ret(Val(0)); return R::Next;
    }
    case B::VCover: covers[cstr(s, concretize(s, A(0), 64, "message"))]++; ret(Val(0)); return R::Next;
    case B::VObserve: { const Val& v = A(0); if (v.e && v.e->undef && Z->dependsOnUndef(s.pc, v.e)) { report(s, "uninit", "observed value depends on uninitialised memory", *s.model); return R::Stop; } s.obs.push_back(v); ret(Val(0)); return R::Next; }
    case B::VCheckpoint: return R::Ckpt;
    case B::VLive: ret(Val((u64)s.liveHeap)); return R::Next;
    case B::VConc: { u64 v = concretize(s, A(0), 64, "concretised value"); ret(Val(v)); return R::Next; }
    case B::VIsSym: ret(Val(A(0).e ? 1 : 0)); return R::Next;
    case B::VExit: return R::Stop;
    default: unsupported("external function " + demangle(callee->name));
    }
}

static R step(State& s)
{
    Frame& f = s.fr.back(); Ins& x = f.f->code[f.pc];
    switch (x.op) {
    case I::Bin: {
        const Val &a = V(f, x.a), &b = V(f, x.b); Op op = (Op)x.sub; u64 r;
        if (!a.e && !b.e && foldBin(op, x.w, a.c, b.c, r)) { f.r[x.dst] = Val(r); f.pc++; return R::Next; }
        E ea = a.toE(x.w), eb = b.toE(x.w);
        if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
            E z = mkBin(Op::Eq, eb, cst(x.w, 0)); std::shared_ptr<Model> m; nMemObl++;
            if (feasible(s, z, m)) { report(s, "ub", "division by zero", *m); if (isC(z)) return R::Stop; std::shared_ptr<Model> m2; if (!feasible(s, mkNot1(z), m2)) return R::Stop; addPc(s, mkNot1(z), m2); }
        }
        f.r[x.dst] = Val::ex(mkBin(op, ea, eb)); f.pc++; return R::Next;
    }
    case I::Cmp: {
        const Val &a = V(f, x.a), &b = V(f, x.b); Op op = Op::Eq; bool neg = false, sw = false;
        using P = llvm::CmpInst;
        switch ((P::Predicate)x.sub) {
        case P::ICMP_EQ: break; case P::ICMP_NE: neg = true; break;
        case P::ICMP_ULT: op = Op::Ult; break; case P::ICMP_ULE: op = Op::Ule; break; case P::ICMP_UGT: op = Op::Ult; sw = true; break; case P::ICMP_UGE: op = Op::Ule; sw = true; break;
        case P::ICMP_SLT: op = Op::Slt; break; case P::ICMP_SLE: op = Op::Sle; break; case P::ICMP_SGT: op = Op::Slt; sw = true; break; case P::ICMP_SGE: op = Op::Sle; sw = true; break;
        default: unsupported("predicate");
        }
        const Val &p = sw ? b : a, &q = sw ? a : b;
        if (!p.e && !q.e) { u64 r; foldBin(op, x.w2, p.c, q.c, r); f.r[x.dst] = Val(neg ? !r : r); }
        else { E e = mkBin(op, p.toE(x.w2), q.toE(x.w2)); f.r[x.dst] = Val::ex(neg ? mkNot1(e) : e); }
        f.pc++; return R::Next;
    }
    case I::Cast: {
        const Val& a = V(f, x.a);
        if (!a.e) f.r[x.dst] = Val((x.sub ? (u64)sext(a.c, x.w2) : a.c) & mask(x.w));
        else if (x.w <= x.w2) f.r[x.dst] = Val::ex(mkExtract(a.e, 0, x.w)); else f.r[x.dst] = Val::ex(x.sub ? mkSExt(a.e, x.w) : mkZExt(a.e, x.w));
        f.pc++; return R::Next;
    }
    case I::Load: { u64 p = concretize(s, V(f, x.a), 64, "load address"); f.r[x.dst] = loadTy(s, p, x.ty); f.pc++; return R::Next; }
    case I::Store: { u64 p = concretize(s, V(f, x.b), 64, "store address"); storeTy(s, p, V(f, x.a), x.ty); f.pc++; return R::Next; }
    case I::Gep: {
        const Val& a = V(f, x.a); u64 c = x.aux.back(); bool sym = a.e;
        for (int o : x.args) if (V(f, o).e) sym = true;
        if (!sym) { u64 r = a.c + c; for (size_t i = 0; i < x.args.size(); i++) r += (u64)sext(V(f, x.args[i]).c, (unsigned)x.aux[2 * i + 1]) * x.aux[2 * i]; f.r[x.dst] = Val(r); }
        else { E r = mkBin(Op::Add, a.toE(64), cst(64, c)); for (size_t i = 0; i < x.args.size(); i++) r = mkBin(Op::Add, r, mkBin(Op::Mul, mkSExt(V(f, x.args[i]).toE((unsigned)x.aux[2 * i + 1]), 64), cst(64, x.aux[2 * i]))); f.r[x.dst] = Val::ex(r); }
        f.pc++; return R::Next;
    }
    case I::Alloca: { u64 n = V(f, x.a).c * x.aux[0]; f.r[x.dst] = Val(newStack(s, n)); f.pc++; return R::Next; }
    case I::Br: jump(s, f, x.t0); return R::Next;
    case I::CondBr: {
        const Val& a = V(f, x.a);
        if (!a.e) { jump(s, f, a.c ? x.t0 : x.t1); return R::Next; }
        E c = a.e; checkUndef(s, c, "branch");
        auto k = s.known.find(c); bool take;
        if (k != s.known.end()) take = k->second;
        else {
            take = evalE(c, *s.model); E mine = take ? c : mkNot1(c), other = take ? mkNot1(c) : c;
            std::shared_ptr<Model> m;
            if (feasible(s, other, m)) {
                SP n = std::make_unique<State>(s); addPc(*n, other, m); nForks++; jump(*n, n->fr.back(), take ? x.t1 : x.t0); spawn->push_back(std::move(n));
                addPc(s, mine, s.model);
            } else { s.known.emplace(mine, true); s.known.emplace(other, false); }
        }
        Frame& f2 = s.fr.back(); jump(s, f2, take ? x.t0 : x.t1); return R::Next;
    }
    case I::Switch: {
        const Val& a = V(f, x.a); u64 v = a.c;
        if (a.e) {
            checkUndef(s, a.e, "switch"); v = evalE(a.e, *s.model); E c = nullptr; bool hit = false;
            for (u64 k : x.aux) if (k == v) hit = true;
            if (hit) c = mkBin(Op::Eq, a.e, cst(x.w2, v)); else for (u64 k : x.aux) { E n = mkNot1(mkBin(Op::Eq, a.e, cst(x.w2, k))); c = c ? mkBin(Op::And, c, n) : n; }
            if (c && !isC(c)) { forkWith(s, mkNot1(c)); addPc(s, c, s.model); }
        }
        int t = x.t0; for (size_t i = 0; i < x.aux.size(); i++) if (x.aux[i] == v) { t = x.args[i]; break; }
        jump(s, s.fr.back(), t); return R::Next;
    }
    case I::Ret: {
        Val v; if (x.sub) v = V(f, x.a); u64 ef = f.excFree; popFrame(s);
        if (s.fr.empty()) return R::Stop;
        Frame& c = s.fr.back(); Ins& ci = c.f->code[c.pc];
        if (ef) freeHeap(s, ef, A_EXC);
        if (ci.dst >= 0 && !ef) c.r[ci.dst] = std::move(v);
        if (ci.op == I::Invoke) jump(s, c, ci.t0); else c.pc++;
        return R::Next;
    }
    case I::Unreachable: report(s, "ub", "unreachable code reached", *s.model); return R::Stop;
    case I::Call: case I::Invoke: {
        Func* F = x.callee;
        if (!F) {
            u64 p = concretize(s, V(f, x.b), 64, "call target");
            u64 id = (p >> 24) & 0xfffffffffull; nMemObl++;
            if ((p >> 60) != 4 || (p & (WIN - 1)) || !id || id > funcs.size()) memErr(s, "indirect call through an invalid function pointer");
            F = funcs[id - 1];
        }
        if (F->builtin == -2) { if (!F->f->isDeclaration()) F->builtin = -1; else { B b = builtinOf(F->name); F->builtin = b == B::None ? 9999 : (int)b; } }
        if (F->builtin == 9999) unsupported("external function " + demangle(F->name));
        if (F->builtin >= 0) { Frame& ff = s.fr.back(); return builtin(s, ff, x, (B)F->builtin, F); }
        vector<Val> args; args.reserve(x.args.size()); for (int o : x.args) args.push_back(V(f, o));
        if (args.size() != F->argRegs.size() && F->decoded) { if (F->argRegs.size() > args.size()) unsupported("argument count"); }
        vector<std::pair<u32, u64>> bv = x.byval;
        pushFrame(s, F, args, x.dst);
        for (auto& p : bv) { u64 src = s.fr.back().r[F->argRegs[p.first]].c; u64 d = newStack(s, p.second); copyMem(s, d, src, p.second); s.fr.back().r[F->argRegs[p.first]] = Val(d); }
        return R::Next;
    }
    case I::LandingPad: unsupported("fell into landingpad");
    case I::Resume: { u64 p = V(f, x.a).a->v[0].c; popFrame(s); if (s.fr.empty()) unsupported("resume in outermost frame"); unwind(s, p, false); return R::Next; }
    case I::ExtractV: { Val v = V(f, x.a); for (u64 i : x.aux) { Val t = v.a->v[i]; v = t; } f.r[x.dst] = v; f.pc++; return R::Next; }
    case I::InsertV: {
        std::function<Val(const Val&, size_t)> ins = [&](const Val& v, size_t k) -> Val { if (k == x.aux.size()) return V(f, x.b); vector<Val> e = v.a->v; e[x.aux[k]] = ins(v.a->v[x.aux[k]], k + 1); return Val::agg(std::move(e)); };
        f.r[x.dst] = ins(V(f, x.a), 0); f.pc++; return R::Next;
    }
    case I::Select: {
        const Val& c = V(f, x.a);
        if (!c.e) f.r[x.dst] = Val(c.c ? V(f, x.b) : V(f, x.c));
        else if (x.ty->kind == 1) f.r[x.dst] = Val::ex(mkIte(c.e, V(f, x.b).toE(x.w), V(f, x.c).toE(x.w)));
        else unsupported("aggregate select");
        f.pc++; return R::Next;
    }
    case I::Freeze: { Val v = V(f, x.a); f.r[x.dst] = v; f.pc++; return R::Next; }
    case I::AtomicRMW: {
        u64 p = concretize(s, V(f, x.a), 64, "atomic address"); Val o = loadTy(s, p, x.ty); E a = o.toE(x.w), b = V(f, x.b).toE(x.w), r;
        using A_ = llvm::AtomicRMWInst;
        switch ((A_::BinOp)x.sub) { case A_::Xchg: r = b; break; case A_::Add: r = mkBin(Op::Add, a, b); break; case A_::Sub: r = mkBin(Op::Sub, a, b); break; case A_::And: r = mkBin(Op::And, a, b); break; case A_::Or: r = mkBin(Op::Or, a, b); break; default: unsupported("atomicrmw"); }
        storeTy(s, p, Val::ex(r), x.ty); f.r[x.dst] = o; f.pc++; return R::Next;
    }
    case I::CmpXchg: { u64 p = concretize(s, V(f, x.a), 64, "atomic address"); Val o = loadTy(s, p, x.ty); Val e = V(f, x.b); if (o.e || e.e) unsupported("symbolic cmpxchg"); if (o.c == e.c) storeTy(s, p, V(f, x.c), x.ty); f.r[x.dst] = Val::agg({ o, Val((u64)(o.c == e.c)) }); f.pc++; return R::Next; }
    case I::Fence: case I::Move: f.pc++; return R::Next;
    }
    return R::Stop;
}
static void noteLine(const llvm::Instruction* i)
{
    auto* d = i->getDebugLoc().get(); if (!d || !seenLoc.insert(d).second) return;
    string fn = d->getFilename().str(); size_t k = fn.find("include/hsm/"); if (k == string::npos) return;
    hsmLines.insert({ fn.substr(k + 8), d->getLine() });
}
static bool traceOn;
// runs one path until it ends (true: normal)
static void runPath(SP sp)
{
    State& s = *sp; cur = sp.get(); u64 tick = 0;
    try {
        while (true) {
            Frame& f = s.fr.back(); Ins& x = f.f->code[f.pc];
            if (f.f->isHsm || x.op == I::Call) if (x.li) noteLine(x.li);
            nInstr++; s.steps++;
            if (traceOn) { fprintf(stderr, "[%zu] %s %s\n", s.fr.size(), locOf(x.li).c_str(), x.li->getOpcodeName()); }
            if (s.steps > optMaxInstr) { report(s, "nontermination", "instruction bound exceeded between two checkpoints (" + std::to_string(optMaxInstr) + ")", *s.model); break; }
            if (!(++tick & 0xffff) && now() > optTime) { incomplete = "time limit"; cur = nullptr; return; }
            R r = step(s);
            if (r == R::Next) continue;
            if (r == R::Stop) { break; }
            cur = nullptr; atCheckpoint(std::move(sp)); return;
        }
    } catch (PathEnd&) { nPaths++; cur = nullptr; return; }
    nPaths++; if (s.fr.empty()) samplePath(s, "end"); cur = nullptr;
}

static string js(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void writeJson()
{
    if (optOut.empty()) return;
    std::ofstream o(optOut);
    auto vals = [&](const vector<std::pair<string, u64>>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += "[" + js(v[i].first) + "," + std::to_string(v[i].second) + "]"; } return r + "]"; };
    auto nums = [&](const vector<u64>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; };
    o << "{\"violations\":[";
    for (size_t i = 0; i < violations.size(); i++) { auto& v = violations[i]; if (i) o << ","; o << "\n {\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"stack\":" << js(v.stack) << ",\"cps\":" << v.cps << ",\"vals\":" << vals(v.vals) << ",\"obs\":" << nums(v.obs) << "}"; }
    o << "],\n\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) { auto& v = samples[i]; if (i) o << ","; o << "\n {\"end\":" << js(v.end) << ",\"cps\":" << v.cps << ",\"vals\":" << vals(v.vals) << ",\"obs\":" << nums(v.obs) << "}"; }
    o << "],\n\"covers\":{"; bool first = true;
    for (auto& c : covers) { if (!first) o << ","; first = false; o << js(c.first) << ":" << c.second; }
    o << "},\n\"asserts\":["; first = true; for (auto& a : asserted) { if (!first) o << ","; first = false; o << js(a); }
    u64 nf = 0, nh = 0; for (auto* f : funcs) if (f->calls) { nf++; if (f->isHsm) nh++; }
    std::map<string, vector<unsigned>> fl; for (auto& l : hsmLines) fl[l.first].push_back(l.second);
    o << "],\n\"hsm_lines\":{"; first = true; for (auto& kv : fl) { if (!first) o << ","; first = false; o << js(kv.first) << ":["; for (size_t i = 0; i < kv.second.size(); i++) o << (i ? "," : "") << kv.second[i]; o << "]"; }
    o << "},\n\"stats\":{\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"query_cache_hits\":" << nCacheHits << ",\"solver_s\":" << solverTime << ",\"instructions\":" << nInstr << ",\"merged\":" << nMerged << ",\"distinct_states\":" << nStatesCk
      << ",\"max_depth\":" << maxLayerSeen << ",\"depth_cut\":" << nDepthCut << ",\"assume_cut\":" << nAssumeCut << ",\"asserts\":" << nAsserts << ",\"asserts_symbolic\":" << nAssertsSym << ",\"memory_obligations\":" << nMemObl << ",\"functions\":" << nf << ",\"hsm_functions\":" << nh << ",\"wall_s\":" << now()
      << ",\"closure\":" << (anyCheckpoint && closureReached && incomplete.empty() ? "true" : "false") << ",\"checkpoints\":" << (anyCheckpoint ? "true" : "false") << ",\"incomplete\":" << js(incomplete) << "}}\n";
}

int main(int argc, char** argv)
{
    T0 = std::chrono::steady_clock::now(); string in;
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return string(argv[++i]); };
        if (a == "--out") optOut = nx(); else if (a == "--max-checkpoints") optMaxCk = std::stoi(nx()); else if (a == "--max-instr") optMaxInstr = std::stoull(nx()); else if (a == "--max-violations") optMaxViol = std::stoi(nx()); else if (a == "--time") optTime = std::stod(nx()); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--seed") optSeed = std::stoull(nx()); else if (a == "--entry") optEntry = nx(); else if (a == "--trace") traceOn = true; else if (a == "--max-states") optMaxStates = std::stoull(nx()); else in = a;
    }
    if (const char* d = getenv("HSMX_DUMP")) dumpF = fopen(d, "w");
    rngState ^= optSeed * 0x9E3779B97F4A7C15ull;
    llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto mod = llvm::parseIRFile(in, err, ctx);
    if (!mod) { fprintf(stderr, "cannot read %s: %s\n", in.c_str(), err.getMessage().str().c_str()); return 3; }
    {   // library runtime model, only what the harness module references
        string self = llvm::sys::fs::getMainExecutable(argv[0], (void*)(intptr_t)main); string rt = self.substr(0, self.rfind('/') + 1) + "rt.bc";
        auto r = llvm::parseIRFile(rt, err, ctx); if (!r) { fprintf(stderr, "cannot read %s\n", rt.c_str()); return 3; }
        llvm::Linker L(*mod); if (L.linkInModule(std::move(r), llvm::Linker::Flags::LinkOnlyNeeded)) { fprintf(stderr, "link failed\n"); return 3; }
    }
    M = mod.get(); DL = &M->getDataLayout(); Z = new Solver;
    SP init = std::make_unique<State>(); cur = init.get();
    for (auto& f : *M) { Func* F = getFunc(&f); F->isHsm = f.getName().find("3hsm") != llvm::StringRef::npos; }
    for (auto& g : M->globals()) { u64 a = K_GLOBAL | (nGlobals++ << 24) | OFF0; gAddr[&g] = a; gOfAddr[a] = &g; }
    for (auto& g : M->globals()) {
        u64 id = (gAddr[&g] >> 24) & 0xfffffffffull; u64 sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 0;
        if (sz > WIN / 2) unsupported("large global");
        string n = g.getName().str();
        if (n.rfind("llvm.", 0) == 0) continue;
        Obj* o = new Obj(g.hasInitializer() ? sz : std::max<u64>(sz, 256), A_STATIC, S_CONC); init->glob.slot(id) = OP(o);
        if (n == "__libc_single_threaded") { o->d[0] = 1; continue; }
        if (!g.hasInitializer()) { o->ext = true; continue; }
        initGlobal(*init, gAddr[&g], g.getInitializer());
        init->glob.get(id)->ro = g.isConstant();
    }
    spawn = &work;
    // static initialisers, concretely, before main
    vector<Func*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = llvm::dyn_cast<llvm::ConstantArray>(gc->getInitializer())) {
        vector<std::pair<u64, Func*>> l; for (auto& op : arr->operands()) { auto* st = llvm::cast<llvm::ConstantStruct>(op); l.push_back({ llvm::cast<llvm::ConstantInt>(st->getOperand(0))->getZExtValue(), getFunc(llvm::cast<llvm::Function>(st->getOperand(1)->stripPointerCasts())) }); }
        std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : l) ctors.push_back(p.second);
    }
    for (Func* c : ctors) {
        vector<Val> none; pushFrame(*init, c, none, -1);
        try { while (!init->fr.empty()) { if (nInstr++ > 200000000) unsupported("static initialiser runs too long"); R r = step(*init); if (r != R::Next) break; } } catch (PathEnd&) { writeJson(); return 1; }
        if (!init->fr.empty() || !work.empty()) unsupported("static initialiser forks or stops");
    }
    auto* mf = M->getFunction(optEntry); if (!mf) { fprintf(stderr, "no entry\n"); return 3; }
    vector<Val> a2; for (unsigned i = 0; i < mf->arg_size(); i++) a2.push_back(Val(0));
    pushFrame(*init, getFunc(mf), a2, -1);
    nextLayer.push_back(std::move(init));
    while (!nextLayer.empty() && incomplete.empty()) {
        std::deque<SP> layer; layer.swap(nextLayer);
        if (getenv("HSMX_PROGRESS")) fprintf(stderr, "layer %d states %zu seen %zu t=%.1f q=%llu paths=%llu\n", maxLayerSeen, layer.size(), seen.size(), now(), (unsigned long long)nQueries, (unsigned long long)nPaths);
        while (!layer.empty() && incomplete.empty()) {
            work.push_back(std::move(layer.front())); layer.pop_front();
            while (!work.empty() && incomplete.empty()) { SP s = std::move(work.back()); work.pop_back(); runPath(std::move(s)); if (seen.size() > optMaxStates) incomplete = "state limit"; if (now() > optTime) incomplete = "time limit"; }
        }
    }
    cur = nullptr; writeJson();
    fprintf(stderr, "hsmx: paths %llu merged %llu states %llu depth %d queries %llu (%.2fs) asserts %llu viol %zu instr %llu wall %.1f %s%s\n", (unsigned long long)nPaths, (unsigned long long)nMerged, (unsigned long long)nStatesCk, maxLayerSeen, (unsigned long long)nQueries, solverTime, (unsigned long long)nAsserts, violations.size(), (unsigned long long)nInstr, now(), anyCheckpoint ? (closureReached ? "closed" : "depth-bounded") : "", incomplete.empty() ? "" : (" INCOMPLETE " + incomplete).c_str());
    if (!violations.empty()) return 1;
    if (!incomplete.empty()) return 4;
    return 0;
}
