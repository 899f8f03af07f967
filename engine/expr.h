// Hash-consed bit-vector expressions (width 1..64) with light simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <functional>

namespace sx {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

enum class Op : u8 { Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat };

struct Expr;
using E = const Expr*;

// Symbol identity: `ord` is the per-path creation index (undef symbols use their own range).
struct Expr {
    Op op; u8 w; bool undef; // undef: mentions an uninitialised-value symbol
    u64 c;                   // const value / symbol ord / extract offset
    E a, b, d;
    u64 h;
    u32 id;
    std::vector<u32>* syms;  // sorted ids of symbol expressions mentioned
};

inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

struct Pool {
    struct H { size_t operator()(E e) const { return e->h; } };
    struct Q { bool operator()(E x, E y) const { return x->op == y->op && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
    std::unordered_set<E, H, Q> set;
    u32 next = 0;
    E mk(Op op, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr, bool undefSym = false)
    {
        Expr t; t.op = op; t.w = (u8)w; t.c = c; t.a = a; t.b = b; t.d = d; t.syms = nullptr;
        u64 h = mix((u64)op * 131 + w, c); h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, d ? d->id + 1 : 0);
        t.h = h;
        auto it = set.find(&t);
        if (it != set.end()) return *it;
        Expr* n = new Expr(t);
        n->id = next++;
        n->undef = undefSym || (a && a->undef) || (b && b->undef) || (d && d->undef);
        if (op == Op::Sym) { n->syms = new std::vector<u32> { n->id }; }
        else {
            std::vector<u32> s;
            for (E x : { a, b, d }) if (x && x->syms) { std::vector<u32> r; std::set_union(s.begin(), s.end(), x->syms->begin(), x->syms->end(), std::back_inserter(r)); s.swap(r); }
            if (a && a->syms && s.size() == a->syms->size()) n->syms = a->syms;
            else if (b && b->syms && s.size() == b->syms->size()) n->syms = b->syms;
            else if (d && d->syms && s.size() == d->syms->size()) n->syms = d->syms;
            else if (!s.empty()) n->syms = new std::vector<u32>(std::move(s));
        }
        set.insert(n);
        return n;
    }
};
inline Pool& pool() { static Pool p; return p; }

inline bool isC(E e) { return e->op == Op::Const; }
inline E cst(unsigned w, u64 v) { return pool().mk(Op::Const, w, v & mask(w)); }
inline E symE(unsigned w, u64 ord, bool undef) { return pool().mk(Op::Sym, w, ord | (undef ? 1ull << 62 : 0), nullptr, nullptr, nullptr, undef); }

inline bool foldBin(Op op, unsigned w, u64 x, u64 y, u64& r)
{
    u64 m = mask(w);
    switch (op) {
    case Op::Add: r = (x + y) & m; return true;
    case Op::Sub: r = (x - y) & m; return true;
    case Op::Mul: r = (x * y) & m; return true;
    case Op::UDiv: if (!y) return false; r = x / y; return true;
    case Op::URem: if (!y) return false; r = x % y; return true;
    case Op::SDiv: { i64 a = sext(x, w), b = sext(y, w); if (!b || (b == -1)) { if (b == -1) { r = (0 - x) & m; return true; } return false; } r = (u64)(a / b) & m; return true; }
    case Op::SRem: { i64 a = sext(x, w), b = sext(y, w); if (!b) return false; if (b == -1) { r = 0; return true; } r = (u64)(a % b) & m; return true; }
    case Op::And: r = x & y; return true;
    case Op::Or: r = x | y; return true;
    case Op::Xor: r = x ^ y; return true;
    case Op::Shl: r = y >= w ? 0 : (x << y) & m; return true;
    case Op::LShr: r = y >= w ? 0 : (x >> y); return true;
    case Op::AShr: r = (u64)(sext(x, w) >> (y >= w ? w - 1 : y)) & m; return true;
    case Op::Eq: r = x == y; return true;
    case Op::Ult: r = x < y; return true;
    case Op::Ule: r = x <= y; return true;
    case Op::Slt: r = sext(x, w) < sext(y, w); return true;
    case Op::Sle: r = sext(x, w) <= sext(y, w); return true;
    default: return false;
    }
}
inline bool isCmp(Op o) { return o >= Op::Eq && o <= Op::Sle; }

E mkBin(Op op, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);

inline E mkNot1(E a) { // boolean negation (w == 1)
    if (isC(a)) return cst(1, !a->c);
    if (a->op == Op::Xor && isC(a->b) && a->b->c == 1) return a->a;
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->b, a->a);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->b, a->a);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->b, a->a);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->b, a->a);
    return pool().mk(Op::Xor, 1, 0, a, cst(1, 1));
}
inline E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : mkNot1(c);
    return pool().mk(Op::Ite, a->w, 0, c, a, b);
}
inline E mkZExt(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return cst(w, a->c);
    if (a->op == Op::ZExt) return mkZExt(a->a, w);
    return pool().mk(Op::ZExt, w, 0, a);
}
inline E mkSExt(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return cst(w, (u64)sext(a->c, a->w));
    if (a->op == Op::ZExt && a->a->w < a->w) return mkZExt(a->a, w);
    return pool().mk(Op::SExt, w, 0, a);
}
inline E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst(w, (hi->c << lo->w) | lo->c);
    if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, (unsigned)lo->c, w);
    // byte-wise reassembly where the low part is a whole value's low bytes
    if (hi->op == Op::Extract && hi->a == lo && hi->c == lo->w) return mkExtract(lo, 0, w); // (unreachable by width, kept for safety)
    return pool().mk(Op::Concat, w, 0, hi, lo);
}
inline E mkExtract(E a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return cst(w, a->c >> off);
    if (a->op == Op::Extract) return mkExtract(a->a, off + (unsigned)a->c, w);
    if (a->op == Op::ZExt) {
        if (off >= a->a->w) return cst(w, 0);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off == 0) return mkZExt(a->a, w);
    }
    if (a->op == Op::SExt && off + w <= a->a->w) return mkExtract(a->a, off, w);
    if (a->op == Op::Concat) {
        unsigned lw = a->b->w;
        if (off + w <= lw) return mkExtract(a->b, off, w);
        if (off >= lw) return mkExtract(a->a, off - lw, w);
    }
    if (a->op == Op::Ite && isC(a->b) && isC(a->d)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->d, off, w));
    if (off == 0 && (a->op == Op::And || a->op == Op::Or || a->op == Op::Xor)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    return pool().mk(Op::Extract, w, off, a);
}
inline E mkBin(Op op, E a, E b)
{
    unsigned w = a->w;
    unsigned rw = isCmp(op) ? 1 : w;
    u64 r;
    if (isC(a) && isC(b) && foldBin(op, w, a->c, b->c, r)) return cst(rw, r);
    // canonical: constant on the right for commutative ops
    if (isC(a) && (op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq)) std::swap(a, b);
    switch (op) {
    case Op::Add: if (isC(b) && b->c == 0) return a;
        if (isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, cst(w, a->b->c + b->c)); break;
    case Op::Sub: if (isC(b)) return mkBin(Op::Add, a, cst(w, 0 - b->c)); if (a == b) return cst(w, 0); break;
    case Op::Mul: if (isC(b) && b->c == 0) return b; if (isC(b) && b->c == 1) return a; break;
    case Op::UDiv: if (isC(b) && b->c == 1) return a; break;
    case Op::And: if (a == b) return a; if (isC(b)) { if (b->c == 0) return b; if (b->c == mask(w)) return a; }
        if (isC(b) && a->op == Op::ZExt && (b->c & mask(a->a->w)) == mask(a->a->w)) return a; break;
    case Op::Or: if (a == b) return a; if (isC(b)) { if (b->c == 0) return a; if (b->c == mask(w)) return b; } break;
    case Op::Xor: if (a == b) return cst(w, 0); if (isC(b)) { if (b->c == 0) return a; if (w == 1) return mkNot1(a); } break;
    case Op::Shl: case Op::LShr: case Op::AShr: if (isC(b) && b->c == 0) return a; break;
    case Op::Eq:
        if (a == b) return cst(1, 1);
        if (w == 1 && isC(b)) return b->c ? a : mkNot1(a);
        if (isC(b) && a->op == Op::ZExt) { if (b->c > mask(a->a->w)) return cst(1, 0); return mkBin(Op::Eq, a->a, cst(a->a->w, b->c)); }
        if (isC(b) && a->op == Op::Ite && isC(a->b) && isC(a->d)) {
            bool x = a->b->c == b->c, y = a->d->c == b->c;
            if (x && y) return cst(1, 1); if (!x && !y) return cst(1, 0);
            return x ? a->a : mkNot1(a->a);
        }
        if (isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Eq, a->a, cst(w, b->c - a->b->c));
        break;
    case Op::Ult: if (a == b) return cst(1, 0); if (isC(b) && b->c == 0) return cst(1, 0);
        if (a->op == Op::ZExt && isC(b) && b->c > mask(a->a->w)) return cst(1, 1); break;
    case Op::Ule: if (a == b) return cst(1, 1); if (isC(a) && a->c == 0) return cst(1, 1); break;
    case Op::Slt: if (a == b) return cst(1, 0); break;
    case Op::Sle: if (a == b) return cst(1, 1); break;
    default: break;
    }
    if ((op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq) && !isC(b) && a->id > b->id) std::swap(a, b);
    return pool().mk(op, rw, 0, a, b);
}

// Evaluation under an assignment symExprId -> value (missing symbols are 0).
struct Model {
    std::unordered_map<u32, u64> v;
};
inline u64 evalE(E e, const Model& m, std::unordered_map<E, u64>& memo)
{
    switch (e->op) {
    case Op::Const: return e->c;
    case Op::Sym: { auto it = m.v.find(e->id); return it == m.v.end() ? 0 : it->second; }
    default: break;
    }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u64 r = 0, a = evalE(e->a, m, memo);
    switch (e->op) {
    case Op::Ite: r = a ? evalE(e->b, m, memo) : evalE(e->d, m, memo); break;
    case Op::ZExt: r = a; break;
    case Op::SExt: r = (u64)sext(a, e->a->w) & mask(e->w); break;
    case Op::Extract: r = (a >> e->c) & mask(e->w); break;
    case Op::Concat: r = (a << e->b->w) | evalE(e->b, m, memo); break;
    default: {
        u64 b = evalE(e->b, m, memo);
        if (!foldBin(e->op, e->a->w, a, b, r)) { // SMT-LIB division-by-zero semantics
            if (e->op == Op::UDiv) r = mask(e->w); else if (e->op == Op::URem || e->op == Op::SRem) r = a;
            else if (e->op == Op::SDiv) r = sext(a, e->w) < 0 ? 1 : mask(e->w);
        }
    } }
    memo.emplace(e, r);
    return r;
}
inline u64 evalE(E e, const Model& m) { std::unordered_map<E, u64> memo; return evalE(e, m, memo); }
inline std::string show(E e, int depth = 6)
{
    static const char* n[] = { "const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat" };
    if (e->op == Op::Const) return std::to_string(e->c);
    if (e->op == Op::Sym) return (e->undef ? "undef" : "s") + std::to_string(e->c & ~(1ull << 62));
    if (!depth) return "...";
    std::string s = std::string("(") + n[(int)e->op];
    if (e->op == Op::Extract) s += " " + std::to_string(e->c) + ":" + std::to_string(e->w);
    for (E x : { e->a, e->b, e->d }) if (x) s += " " + show(x, depth - 1);
    return s + ")";
}
}
