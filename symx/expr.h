// Hash-consed bit-vector / IEEE-float expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <memory>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;

enum Kind : uint8_t {
    KConst, KVar,
    KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KEq, KUlt, KUle, KSlt, KSle, KIte, KConcat, KExtract, KZExt, KSExt,
    // floating point, operands and results are IEEE bit patterns
    KFAdd, KFSub, KFMul, KFDiv, KFRem, KFOeq, KFOlt, KFOle, KFUno,
    KFToSI, KFToUI, KSIToF, KUIToF, KFExt, KFTrunc, KFSqrt, KFRound,
    KAgg
};

struct Expr;
typedef const Expr *Ref;
struct Val { u64 c; Ref e; };  // e==nullptr: concrete value of at most 64 bits

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
    Kind k; uint8_t sub; uint16_t w; uint32_t id; uint32_t hash;
    Ref a[3];
    u128 c;             // constant value, variable index, extract low bit
    const VarSet *vars;
    const std::vector<Val> *agg;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline s128 sext128(u128 v, unsigned w) { unsigned s = 128 - w; return ((s128)(v << s)) >> s; }
static inline int64_t sext64(u64 v, unsigned w) { unsigned s = 64 - w; return s == 0 ? (int64_t)v : (s >= 64 ? 0 : ((int64_t)(v << s)) >> s); }

struct ExprHash { size_t operator()(Ref e) const { return e->hash; } };
struct ExprEq { bool operator()(Ref x, Ref y) const {
    return x->k == y->k && x->sub == y->sub && x->w == y->w && x->c == y->c && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2]; } };

struct ExprCtx {
    std::unordered_set<Ref, ExprHash, ExprEq> table;
    uint32_t nextId = 1;
    std::vector<unsigned> varWidth;
    std::vector<std::string> varName;
    VarSet emptySet;
    std::vector<Expr *> pool; size_t poolUsed = 0;
    std::vector<Ref> varExprs;

    Expr *alloc() {
        if (pool.empty() || poolUsed == 4096) { pool.push_back((Expr *)calloc(4096, sizeof(Expr))); poolUsed = 0; }
        return &pool.back()[poolUsed++];
    }
    static const VarSet *unite(const VarSet *x, const VarSet *y) {
        if (!x || x->v.empty()) return y;
        if (!y || y->v.empty()) return x;
        if (x == y) return x;
        if (x->v.size() >= y->v.size() && std::includes(x->v.begin(), x->v.end(), y->v.begin(), y->v.end())) return x;
        if (y->v.size() > x->v.size() && std::includes(y->v.begin(), y->v.end(), x->v.begin(), x->v.end())) return y;
        auto *r = new VarSet();
        std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r->v));
        return r;
    }
    Ref intern(Kind k, unsigned w, Ref a = nullptr, Ref b = nullptr, Ref c = nullptr, u128 cv = 0, unsigned sub = 0) {
        Expr t; memset(&t, 0, sizeof t);
        t.k = k; t.sub = sub; t.w = w; t.c = cv; t.a[0] = a; t.a[1] = b; t.a[2] = c;
        u64 h = k * 0x9E3779B97F4A7C15ull + w * 131 + sub * 7;
        h ^= (u64)cv * 0xC2B2AE3D27D4EB4Full; h ^= (u64)(cv >> 64) * 0x165667B19E3779F9ull; h = (h << 13) | (h >> 51);
        for (int i = 0; i < 3; i++) if (t.a[i]) { h ^= t.a[i]->id * 0x9E3779B185EBCA87ull; h = (h << 17) | (h >> 47); h *= 0xD6E8FEB86659FD93ull; }
        t.hash = (uint32_t)(h ^ (h >> 32));
        auto it = table.find(&t);
        if (it != table.end()) return *it;
        Expr *n = alloc(); *n = t; n->id = nextId++;
        const VarSet *vs = &emptySet;
        if (k == KVar) { auto *s = new VarSet(); s->v.push_back((uint32_t)cv); vs = s; }
        else for (int i = 0; i < 3; i++) if (t.a[i]) vs = unite(vs, t.a[i]->vars);
        n->vars = vs;
        table.insert(n);
        return n;
    }
    Ref cst(u128 v, unsigned w) { return intern(KConst, w, 0, 0, 0, v & maskw(w)); }
    Ref newVar(unsigned w, const std::string &name) {
        unsigned i = varWidth.size(); varWidth.push_back(w); varName.push_back(name);
        Ref e = intern(KVar, w, 0, 0, 0, i); varExprs.push_back(e); return e;
    }
    static bool isC(Ref e) { return e->k == KConst; }
    static bool isC(Ref e, u128 v) { return e->k == KConst && e->c == v; }

    // ---- native floating point helpers
    static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
    static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
    static long double asL(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
    static u128 frD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
    static u128 frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
    static u128 frL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return x; }
    static long double toLD(u128 v, unsigned w) { return w == 32 ? (long double)asF(v) : w == 64 ? (long double)asD(v) : asL(v); }
    static u128 frLD(long double v, unsigned w) { return w == 32 ? frF((float)v) : w == 64 ? frD((double)v) : frL(v); }

    static u128 foldF2(Kind k, unsigned w, u128 x, u128 y) {
        #define DOF(T,as,fr) { T p = as(x), q = as(y); switch (k) { case KFAdd: return fr(p+q); case KFSub: return fr(p-q); case KFMul: return fr(p*q); case KFDiv: return fr(p/q); case KFRem: return fr(std::fmod(p,q)); \
            case KFOeq: return p==q; case KFOlt: return p<q; case KFOle: return p<=q; case KFUno: return p!=p || q!=q; default: abort(); } }
        if (w == 32) DOF(float, asF, frF) else if (w == 64) DOF(double, asD, frD) else DOF(long double, asL, frL)
        #undef DOF
    }
    static u128 foldRound(unsigned mode, unsigned w, u128 x) {
        long double v = toLD(x, w), r;
        switch (mode) { case 0: r = floorl(v); break; case 1: r = ceill(v); break; case 2: r = truncl(v); break; case 3: r = roundl(v); break; default: r = rintl(v); }
        return frLD(r, w);
    }
    // fold a node with constant children
    static u128 fold(Kind k, unsigned w, unsigned sub, u128 cv, unsigned wa, u128 x, unsigned wb, u128 y, u128 z) {
        u128 m = maskw(w);
        switch (k) {
        case KAdd: return (x + y) & m; case KSub: return (x - y) & m; case KMul: return (x * y) & m;
        case KUDiv: return y ? x / y : m; case KURem: return y ? x % y : x;
        case KSDiv: { s128 p = sext128(x, w), q = sext128(y, w); if (!q) return p < 0 ? 1 : m; if (q == -1) return (u128)(0 - (u128)p) & m; return (u128)(p / q) & m; }
        case KSRem: { s128 p = sext128(x, w), q = sext128(y, w); if (!q) return x; if (q == -1) return 0; return (u128)(p % q) & m; }
        case KAnd: return x & y; case KOr: return x | y; case KXor: return x ^ y;
        case KShl: return y >= w ? 0 : (x << (unsigned)y) & m;
        case KLShr: return y >= w ? 0 : x >> (unsigned)y;
        case KAShr: { s128 p = sext128(x, w); return (u128)(p >> (unsigned)(y >= w ? w - 1 : (unsigned)y)) & m; }
        case KEq: return x == y; case KUlt: return x < y; case KUle: return x <= y;
        case KSlt: return sext128(x, wa) < sext128(y, wa); case KSle: return sext128(x, wa) <= sext128(y, wa);
        case KIte: return x ? y : z;
        case KConcat: return (x << wb) | y;
        case KExtract: return (x >> (unsigned)cv) & m;
        case KZExt: return x;
        case KSExt: return (u128)sext128(x, wa) & m;
        case KFAdd: case KFSub: case KFMul: case KFDiv: case KFRem: return foldF2(k, w, x, y);
        case KFOeq: case KFOlt: case KFOle: case KFUno: return foldF2(k, wa, x, y);
        case KFToSI: { long double v = toLD(x, wa); if (!(v > -9.3e18L && v < 9.3e18L)) return ((u128)1 << (w - 1)); if (w <= 32) return (u128)(int64_t)v & m; return (u128)(s128)v & m; }
        case KFToUI: { long double v = toLD(x, wa); if (!(v > -9.3e18L && v < 1.9e19L)) return w >= 64 ? ((u128)1 << 63) & m : 0; if (v < 0) return (u128)(int64_t)v & m; return (u128)v & m; }
        case KSIToF: { s128 p = sext128(x, wa); return w == 32 ? frF((float)p) : w == 64 ? frD((double)p) : frL((long double)p); }
        case KUIToF: { return w == 32 ? frF((float)x) : w == 64 ? frD((double)x) : frL((long double)x); }
        case KFExt: case KFTrunc: if (wa == 32 && w == 64) return frD((double)asF(x)); if (wa == 64 && w == 32) return frF((float)asD(x)); return frLD(toLD(x, wa), w);
        case KFSqrt: return w == 32 ? frF(std::sqrt(asF(x))) : w == 64 ? frD(std::sqrt(asD(x))) : frL(sqrtl(asL(x)));
        case KFRound: return foldRound(sub, w, x);
        default: abort();
        }
    }

    Ref notb(Ref e) { return xorE(e, cst(1, 1)); }

    Ref add(Ref a, Ref b) {
        if (isC(a) && isC(b)) return cst(a->c + b->c, a->w);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == KAdd && isC(a->a[1])) return add(a->a[0], cst(a->a[1]->c + b->c, a->w));
        if (isC(b) && a->k == KIte && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], add(a->a[1], b), add(a->a[2], b));
        if (!isC(b)) {
            if (a->k == KAdd && isC(a->a[1])) return add(add(a->a[0], b), a->a[1]);
            if (b->k == KAdd && isC(b->a[1])) return add(add(a, b->a[0]), b->a[1]);
            if (b->k == KSub && b->a[1] == a) return b->a[0];
            if (a->k == KSub && a->a[1] == b) return a->a[0];
            if (a->id > b->id) std::swap(a, b);
        }
        return intern(KAdd, a->w, a, b);
    }
    Ref sub(Ref a, Ref b) {
        if (a == b) return cst(0, a->w);
        if (isC(b)) return add(a, cst(0 - b->c, a->w));
        if (a->k == KAdd) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
        if (a->k == KAdd && isC(a->a[1])) return add(sub(a->a[0], b), a->a[1]);
        if (b->k == KAdd && isC(b->a[1])) return add(sub(a, b->a[0]), cst(0 - b->a[1]->c, a->w));
        return intern(KSub, a->w, a, b);
    }
    Ref mul(Ref a, Ref b) {
        if (isC(a) && isC(b)) return cst(a->c * b->c, a->w);
        if (isC(a)) std::swap(a, b);
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return shl(a, cst(s, a->w)); }
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        return intern(KMul, a->w, a, b);
    }
    Ref bin(Kind k, Ref a, Ref b) {
        switch (k) { case KAdd: return add(a, b); case KSub: return sub(a, b); case KMul: return mul(a, b); case KAnd: return andE(a, b); case KOr: return orE(a, b); case KXor: return xorE(a, b);
            case KShl: return shl(a, b); case KLShr: return lshr(a, b); case KEq: return eq(a, b); case KUlt: return ult(a, b); case KUle: return ule(a, b); case KSlt: return slt(a, b); case KSle: return sle(a, b); default: break; }
        unsigned w = (k >= KFOeq && k <= KFUno) ? 1 : a->w;
        if (isC(a) && isC(b)) return cst(fold(k, w, 0, 0, a->w, a->c, b->w, b->c, 0), w);
        if (k == KUDiv && isC(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return lshr(a, cst(s, a->w)); } }
        if (k == KURem && isC(b)) { if (b->c == 1) return cst(0, a->w); if (b->c && (b->c & (b->c - 1)) == 0) return andE(a, cst(b->c - 1, a->w)); }
        if (k == KSDiv && isC(b, 1)) return a;
        if (k == KAShr && isC(b, 0)) return a;
        return intern(k, w, a, b);
    }
    Ref andE(Ref a, Ref b) {
        if (a == b) return a;
        if (isC(a) && isC(b)) return cst(a->c & b->c, a->w);
        if (isC(a)) std::swap(a, b);
        if (isC(b)) {
            if (b->c == 0) return b;
            if (b->c == maskw(a->w)) return a;
            if (a->k == KAnd && isC(a->a[1])) return andE(a->a[0], cst(a->a[1]->c & b->c, a->w));
            if (a->k == KZExt) { // and with zext
                u128 m = maskw(a->a[0]->w); if ((b->c & m) == m) return a; return zext(andE(a->a[0], cst(b->c & m, a->a[0]->w)), a->w); }
            // low mask -> zext(extract)
            if ((b->c & (b->c + 1)) == 0) { unsigned n = 0; while (n < 128 && ((b->c >> n) & 1)) n++; if (n % 8 == 0) return zext(extract(a, 0, n), a->w); }
        } else {
            if (a->w == 1 && (a == notOf(b) || b == notOf(a))) return cst(0, 1);
            if (a->id > b->id) std::swap(a, b);
        }
        return intern(KAnd, a->w, a, b);
    }
    Ref notOf(Ref e) { return (e->k == KXor && e->w == 1 && isC(e->a[1], 1)) ? e->a[0] : nullptr; }
    Ref orE(Ref a, Ref b) {
        if (a == b) return a;
        if (isC(a) && isC(b)) return cst(a->c | b->c, a->w);
        if (isC(a)) std::swap(a, b);
        if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(a->w)) return b; if (a->k == KOr && isC(a->a[1])) return orE(a->a[0], cst(a->a[1]->c | b->c, a->w)); }
        else {
            if (a->w == 1 && (a == notOf(b) || b == notOf(a))) return cst(1, 1);
            // (zext x) | (y << k) with non overlapping -> concat
            for (int sw = 0; sw < 2; sw++) {
                Ref x = sw ? b : a, y = sw ? a : b;
                if (y->k == KConcat && isC(y->a[1], 0)) {
                    unsigned lo = y->a[1]->w;
                    if (x->k == KZExt && x->a[0]->w <= lo) return concat(y->a[0], zext(x->a[0], lo));
                    if (x->k == KConcat && isC(x->a[0], 0) && x->a[1]->w <= lo) return concat(y->a[0], zext(x->a[1], lo));
                    if (x->k == KZExt && x->a[0]->k == KConcat) { /* fallthrough */ }
                }
                if (y->k == KZExt && y->a[0]->k == KConcat && isC(y->a[0]->a[1], 0)) {
                    unsigned lo = y->a[0]->a[1]->w;
                    if (x->k == KZExt && x->a[0]->w <= lo) return zext(concat(y->a[0]->a[0], zext(x->a[0], lo)), a->w);
                }
            }
            if (a->id > b->id) std::swap(a, b);
        }
        return intern(KOr, a->w, a, b);
    }
    Ref xorE(Ref a, Ref b) {
        if (a == b) return cst(0, a->w);
        if (isC(a) && isC(b)) return cst(a->c ^ b->c, a->w);
        if (isC(a)) std::swap(a, b);
        if (isC(b)) { if (b->c == 0) return a; if (a->k == KXor && isC(a->a[1])) return xorE(a->a[0], cst(a->a[1]->c ^ b->c, a->w));
            if (a->w == 1) { // negation
                if (a->k == KUlt) return ule(a->a[1], a->a[0]);
                if (a->k == KUle) return ult(a->a[1], a->a[0]);
                if (a->k == KSlt) return sle(a->a[1], a->a[0]);
                if (a->k == KSle) return slt(a->a[1], a->a[0]);
                if (a->k == KIte) return ite(a->a[0], notb(a->a[1]), notb(a->a[2]));
            } }
        else if (a->id > b->id) std::swap(a, b);
        return intern(KXor, a->w, a, b);
    }
    Ref shl(Ref a, Ref b) {
        if (isC(a) && isC(b)) return cst(fold(KShl, a->w, 0, 0, a->w, a->c, b->w, b->c, 0), a->w);
        if (isC(b)) { unsigned s = b->c >= a->w ? a->w : (unsigned)b->c; if (s == 0) return a; if (s >= a->w) return cst(0, a->w); return concat(extract(a, 0, a->w - s), cst(0, s)); }
        return intern(KShl, a->w, a, b);
    }
    Ref lshr(Ref a, Ref b) {
        if (isC(a) && isC(b)) return cst(fold(KLShr, a->w, 0, 0, a->w, a->c, b->w, b->c, 0), a->w);
        if (isC(b)) { unsigned s = b->c >= a->w ? a->w : (unsigned)b->c; if (s == 0) return a; if (s >= a->w) return cst(0, a->w); return zext(extract(a, s, a->w - s), a->w); }
        return intern(KLShr, a->w, a, b);
    }
    Ref ite(Ref c, Ref t, Ref f) {
        if (isC(c)) return c->c ? t : f;
        if (t == f) return t;
        if (t->w == 1) {
            if (isC(t, 1) && isC(f, 0)) return c;
            if (isC(t, 0) && isC(f, 1)) return notb(c);
            if (isC(t, 1)) return orE(c, f);
            if (isC(f, 0)) return andE(c, t);
            if (isC(t, 0)) return andE(notb(c), f);
            if (isC(f, 1)) return orE(notb(c), t);
        }
        if (Ref n = notOf(c)) return ite(n, f, t);
        if (t->k == KIte && t->a[0] == c) t = t->a[1];
        if (f->k == KIte && f->a[0] == c) f = f->a[2];
        if (t == f) return t;
        return intern(KIte, t->w, c, t, f);
    }
    Ref concat(Ref h, Ref l) {
        unsigned w = h->w + l->w;
        if (isC(h) && isC(l)) return cst((h->c << l->w) | l->c, w);
        if (h->k == KExtract && l->k == KExtract && h->a[0] == l->a[0] && h->c == l->c + l->w) return extract(h->a[0], (unsigned)l->c, w);
        if (h->k == KExtract && h->a[0] == l && h->c == l->w) { if (h->w + l->w == l->w) return l; }
        if (isC(h, 0)) return zext(l, w);
        if (l->k == KConcat) return concat(concat(h, l->a[0]), l->a[1]);
        // concat(concat(x, ext hi), ext lo) merging
        if (h->k == KConcat) { Ref x = h->a[1];
            if (x->k == KExtract && l->k == KExtract && x->a[0] == l->a[0] && x->c == l->c + l->w) return concat(h->a[0], extract(x->a[0], (unsigned)l->c, x->w + l->w));
            if (isC(x) && isC(l)) return concat(h->a[0], cst((x->c << l->w) | l->c, x->w + l->w)); }
        if (h->k == KIte && isC(h->a[1]) && isC(h->a[2]) && l->k == KIte && l->a[0] == h->a[0] && isC(l->a[1]) && isC(l->a[2])) return ite(h->a[0], concat(h->a[1], l->a[1]), concat(h->a[2], l->a[2]));
        if (h->k == KIte && l->k == KIte && l->a[0] == h->a[0]) return ite(h->a[0], concat(h->a[1], l->a[1]), concat(h->a[2], l->a[2]));
        if (h->k == KZExt) return zext(concat(h->a[0], l), w);
        return intern(KConcat, w, h, l);
    }
    Ref extract(Ref a, unsigned lo, unsigned n) {
        if (lo == 0 && n == a->w) return a;
        if (isC(a)) return cst(a->c >> lo, n);
        switch (a->k) {
        case KExtract: return extract(a->a[0], (unsigned)a->c + lo, n);
        case KConcat: { unsigned lw = a->a[1]->w; if (lo + n <= lw) return extract(a->a[1], lo, n); if (lo >= lw) return extract(a->a[0], lo - lw, n);
            return concat(extract(a->a[0], 0, lo + n - lw), extract(a->a[1], lo, lw - lo)); }
        case KZExt: { unsigned lw = a->a[0]->w; if (lo >= lw) return cst(0, n); if (lo + n <= lw) return extract(a->a[0], lo, n); return zext(extract(a->a[0], lo, lw - lo), n); }
        case KSExt: { unsigned lw = a->a[0]->w; if (lo + n <= lw) return extract(a->a[0], lo, n); if (lo == 0) return sext(a->a[0], n); break; }
        case KIte: return ite(a->a[0], extract(a->a[1], lo, n), extract(a->a[2], lo, n));
        case KAnd: case KOr: case KXor: if (isC(a->a[1]) || n == 8) return bin(a->k, extract(a->a[0], lo, n), extract(a->a[1], lo, n)); break;
        case KAdd: case KSub: case KMul: if (lo == 0 && (n <= 32)) return bin(a->k, extract(a->a[0], 0, n), extract(a->a[1], 0, n)); break;
        default: break;
        }
        return intern(KExtract, n, a, nullptr, nullptr, lo);
    }
    Ref zext(Ref a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a)) return cst(a->c, w);
        if (a->k == KZExt) return zext(a->a[0], w);
        if (a->k == KIte && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], zext(a->a[1], w), zext(a->a[2], w));
        return intern(KZExt, w, a);
    }
    Ref sext(Ref a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a)) return cst((u128)sext128(a->c, a->w), w);
        if (a->k == KZExt) return zext(a->a[0], w);
        if (a->k == KSExt) return sext(a->a[0], w);
        if (a->k == KIte && isC(a->a[1]) && isC(a->a[2])) return ite(a->a[0], sext(a->a[1], w), sext(a->a[2], w));
        return intern(KSExt, w, a);
    }
    Ref eq(Ref a, Ref b) {
        if (a == b) return cst(1, 1);
        if (isC(a) && isC(b)) return cst(a->c == b->c, 1);
        if (isC(a)) std::swap(a, b);
        if (a->w == 1 && isC(b)) return b->c ? a : notb(a);
        if (isC(b)) {
            switch (a->k) {
            case KZExt: { unsigned lw = a->a[0]->w; if (b->c >> lw) return cst(0, 1); return eq(a->a[0], cst(b->c, lw)); }
            case KSExt: { unsigned lw = a->a[0]->w; u128 t = b->c & maskw(lw); if (((u128)sext128(t, lw) & maskw(a->w)) != b->c) return cst(0, 1); return eq(a->a[0], cst(t, lw)); }
            case KConcat: { unsigned lw = a->a[1]->w; return andE(eq(a->a[0], cst(b->c >> lw, a->a[0]->w)), eq(a->a[1], cst(b->c, lw))); }
            case KIte: { Ref x = a->a[1], y = a->a[2]; if (isC(x) || isC(y)) return ite(a->a[0], eq(x, b), eq(y, b)); break; }
            case KAdd: if (isC(a->a[1])) return eq(a->a[0], cst(b->c - a->a[1]->c, a->w)); break;
            case KXor: if (isC(a->a[1])) return eq(a->a[0], cst(b->c ^ a->a[1]->c, a->w)); break;
            case KSub: if (b->c == 0) return eq(a->a[0], a->a[1]); break;
            default: break;
            }
        } else {
            if (a->k == KZExt && b->k == KZExt && a->a[0]->w == b->a[0]->w) return eq(a->a[0], b->a[0]);
            if (a->k == KAdd && b->k == KAdd && a->a[1] == b->a[1]) return eq(a->a[0], b->a[0]);
            if (a->k == KAdd && a->a[0] == b) return eq(a->a[1], cst(0, a->w));
            if (b->k == KAdd && b->a[0] == a) return eq(b->a[1], cst(0, a->w));
            if (a->k == KConcat && b->k == KConcat && a->a[1]->w == b->a[1]->w) return andE(eq(a->a[0], b->a[0]), eq(a->a[1], b->a[1]));
            if (a->id > b->id) std::swap(a, b);
        }
        return intern(KEq, 1, a, b);
    }
    Ref ult(Ref a, Ref b) {
        if (a == b) return cst(0, 1);
        if (isC(a) && isC(b)) return cst(a->c < b->c, 1);
        if (isC(b, 0)) return cst(0, 1);
        if (isC(b, 1)) return eq(a, cst(0, a->w));
        if (isC(a, 0)) return notb(eq(b, cst(0, a->w)));
        if (isC(a) && a->c == maskw(a->w)) return cst(0, 1);
        if (a->k == KZExt && isC(b)) { unsigned lw = a->a[0]->w; if (b->c > maskw(lw)) return cst(1, 1); return ult(a->a[0], cst(b->c, lw)); }
        if (b->k == KZExt && isC(a)) { unsigned lw = b->a[0]->w; if (a->c >= maskw(lw)) return cst(0, 1); return ult(cst(a->c, lw), b->a[0]); }
        if (a->k == KZExt && b->k == KZExt && a->a[0]->w == b->a[0]->w) return ult(a->a[0], b->a[0]);
        return intern(KUlt, 1, a, b);
    }
    Ref ule(Ref a, Ref b) {
        if (a == b) return cst(1, 1);
        if (isC(a) && isC(b)) return cst(a->c <= b->c, 1);
        if (isC(a, 0)) return a->w ? cst(1, 1) : nullptr;
        if (isC(b) && b->c == maskw(b->w)) return cst(1, 1);
        if (isC(b, 0)) return eq(a, b);
        if (isC(b)) return ult(a, cst(b->c + 1, a->w));
        if (a->k == KZExt && isC(b)) { unsigned lw = a->a[0]->w; if (b->c >= maskw(lw)) return cst(1, 1); return ule(a->a[0], cst(b->c, lw)); }
        if (b->k == KZExt && isC(a)) { unsigned lw = b->a[0]->w; if (a->c > maskw(lw)) return cst(0, 1); return ule(cst(a->c, lw), b->a[0]); }
        if (a->k == KZExt && b->k == KZExt && a->a[0]->w == b->a[0]->w) return ule(a->a[0], b->a[0]);
        return intern(KUle, 1, a, b);
    }
    Ref slt(Ref a, Ref b) {
        if (a == b) return cst(0, 1);
        if (isC(a) && isC(b)) return cst(sext128(a->c, a->w) < sext128(b->c, a->w), 1);
        if (a->k == KZExt && a->w > a->a[0]->w) { // a is non negative
            if (isC(b)) { if (sext128(b->c, b->w) <= 0) return cst(0, 1); return ult(a, b); }
            if (b->k == KZExt) return ult(a, b);
        }
        if (b->k == KZExt && isC(a)) { if (sext128(a->c, a->w) < 0) return cst(1, 1); return ult(a, b); }
        return intern(KSlt, 1, a, b);
    }
    Ref sle(Ref a, Ref b) {
        if (a == b) return cst(1, 1);
        if (isC(a) && isC(b)) return cst(sext128(a->c, a->w) <= sext128(b->c, a->w), 1);
        if (a->k == KZExt && a->w > a->a[0]->w) {
            if (isC(b)) { if (sext128(b->c, b->w) < 0) return cst(0, 1); return ule(a, b); }
            if (b->k == KZExt) return ule(a, b);
        }
        if (b->k == KZExt && isC(a)) { if (sext128(a->c, a->w) <= 0) return cst(1, 1); return ule(a, b); }
        return intern(KSle, 1, a, b);
    }
    Ref un(Kind k, Ref a, unsigned w, unsigned sub = 0) {
        if (isC(a)) return cst(fold(k, w, sub, 0, a->w, a->c, 0, 0, 0), w);
        if (k == KIte) abort();
        return intern(k, w, a, nullptr, nullptr, 0, sub);
    }
    Ref mkAgg(std::vector<Val> *v) { Expr *n = alloc(); memset(n, 0, sizeof *n); n->k = KAgg; n->id = nextId++; n->agg = v; n->vars = &emptySet; return n; }

    // ---- evaluation under a model (variable index -> value)
    std::unordered_map<Ref, u128> evalMemo;
    u128 evalRec(Ref e, const std::vector<u64> &m) {
        if (e->k == KConst) return e->c;
        if (e->k == KVar) { size_t i = (size_t)e->c; return (i < m.size() ? m[i] : 0) & maskw(e->w); }
        auto it = evalMemo.find(e); if (it != evalMemo.end()) return it->second;
        u128 r;
        if (e->k == KIte) r = evalRec(e->a[0], m) ? evalRec(e->a[1], m) : evalRec(e->a[2], m);
        else {
            u128 x = evalRec(e->a[0], m), y = e->a[1] ? evalRec(e->a[1], m) : 0;
            r = fold(e->k, e->w, e->sub, e->c, e->a[0]->w, x, e->a[1] ? e->a[1]->w : 0, y, 0);
        }
        evalMemo.emplace(e, r);
        return r;
    }
    u128 eval(Ref e, const std::vector<u64> &m) { evalMemo.clear(); return evalRec(e, m); }
};
