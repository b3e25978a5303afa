// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <cassert>

enum Kind : uint8_t {
    K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
    K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_ITE
};

struct VarSet { std::vector<int> v; };

struct Expr {
    Kind k; uint8_t w; uint16_t aux; uint32_t id;
    uint64_t c;                 // K_CONST value, K_SYM variable index
    const Expr *a, *b, *d;
    const VarSet *vars;
    uint64_t hash;
    mutable uint64_t evalGen; mutable uint64_t evalVal;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

struct VarSetHash { size_t operator()(const std::vector<int> &v) const { uint64_t h = v.size(); for (int i : v) h = mix(h, i); return h; } };
struct VarSets {
    std::unordered_map<std::vector<int>, VarSet *, VarSetHash> tab;
    std::unordered_map<uint64_t, const VarSet *> umemo;
    const VarSet *empty;
    VarSets() { empty = get({}); }
    const VarSet *get(const std::vector<int> &v) {
        auto it = tab.find(v); if (it != tab.end()) return it->second;
        VarSet *s = new VarSet; s->v = v; tab.emplace(v, s); return s;
    }
    const VarSet *uni(const VarSet *a, const VarSet *b) {
        if (a == b || b->v.empty()) return a;
        if (a->v.empty()) return b;
        uint64_t key = mix((uint64_t)a, (uint64_t)b);
        auto it = umemo.find(key); if (it != umemo.end()) return it->second;
        std::vector<int> r; r.reserve(a->v.size() + b->v.size());
        std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
        const VarSet *s = get(r); umemo.emplace(key, s); return s;
    }
};

static VarSets g_vs;
static uint64_t g_evalGen = 1;

struct ExprTable {
    std::vector<Expr *> buckets; size_t n = 0; std::vector<Expr *> next_; // open chain via vector index
    std::vector<E> all;
    std::unordered_multimap<uint64_t, E> tab;
    ExprTable() { tab.reserve(1 << 20); }
    E mk(Kind k, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr, unsigned aux = 0) {
        uint64_t h = mix(mix(mix(mix(mix(k * 131 + w, c), (uint64_t)a), (uint64_t)b), (uint64_t)d), aux);
        auto r = tab.equal_range(h);
        for (auto it = r.first; it != r.second; ++it) {
            E e = it->second;
            if (e->k == k && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d && e->aux == aux) return e;
        }
        Expr *e = new Expr; e->k = k; e->w = w; e->aux = aux; e->c = c; e->a = a; e->b = b; e->d = d; e->hash = h;
        e->id = (uint32_t)all.size(); e->evalGen = 0; e->evalVal = 0;
        if (k == K_SYM) e->vars = g_vs.get({(int)c});
        else {
            const VarSet *s = g_vs.empty;
            if (a) s = g_vs.uni(s, a->vars);
            if (b) s = g_vs.uni(s, b->vars);
            if (d) s = g_vs.uni(s, d->vars);
            e->vars = s;
        }
        all.push_back(e); tab.emplace(h, e); return e;
    }
};
static ExprTable g_et;

static inline E xConst(uint64_t c, unsigned w) { return g_et.mk(K_CONST, w, c & maskw(w)); }
static inline E xSym(int idx, unsigned w) { return g_et.mk(K_SYM, w, idx); }
static inline bool isC(E e) { return e->k == K_CONST; }
static inline bool isC(E e, uint64_t v) { return e->k == K_CONST && e->c == (v & maskw(e->w)); }

static E xExtract(E a, unsigned off, unsigned w);
static E xZext(E a, unsigned w);
static E xSext(E a, unsigned w);
static E xConcat(E hi, E lo);
static E xIte(E c, E t, E f);
static E xEq(E a, E b);
static E xBin(Kind k, E a, E b);
static inline E xNot(E a) { return xBin(K_XOR, a, xConst(~0ULL, a->w)); }

static uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w);
    switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? (a / b) & m : m;
    case K_UREM: return b ? (a % b) & m : a;
    case K_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case K_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m;
    case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? (w - 1 < 63 ? w - 1 : 63) : b)) & m;
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sx(a, w) < sx(b, w);
    case K_SLE: return sx(a, w) <= sx(b, w);
    default: assert(0); return 0;
    }
}

static inline bool isNotOf(E x, E y) { return x->w == y->w && x->k == K_XOR && isC(x->b, ~0ULL) && x->a == y; }

static E xEq(E a, E b) {
    if (a == b) return xConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return xConst(a->c == b->c, 1);
    if (isC(b)) {
        uint64_t v = b->c; unsigned w = a->w;
        if (w == 1) return v ? a : xNot(a);
        switch (a->k) {
        case K_ZEXT: if (v >> a->a->w) return xConst(0, 1); return xEq(a->a, xConst(v, a->a->w));
        case K_SEXT: { unsigned sw = a->a->w; if (((uint64_t)sx(v & maskw(sw), sw) & maskw(w)) != v) return xConst(0, 1); return xEq(a->a, xConst(v, sw)); }
        case K_CONCAT: return xBin(K_AND, xEq(a->a, xConst(v >> a->b->w, a->a->w)), xEq(a->b, xConst(v, a->b->w)));
        case K_XOR: if (isC(a->b)) return xEq(a->a, xConst(a->b->c ^ v, w)); break;
        case K_ADD: if (isC(a->b)) return xEq(a->a, xConst(v - a->b->c, w)); break;
        case K_SUB: if (v == 0) return xEq(a->a, a->b); if (isC(a->a)) return xEq(a->b, xConst(a->a->c - v, w)); break;
        case K_AND: if (isC(a->b) && (v & ~a->b->c)) return xConst(0, 1); break;
        case K_OR: if (isC(a->b) && (~v & a->b->c)) return xConst(0, 1);
            if (v == 0) return xBin(K_AND, xEq(a->a, xConst(0, w)), xEq(a->b, xConst(0, w))); break;
        case K_ITE: {
            bool tc = isC(a->b), fc = isC(a->d);
            if (tc && fc) {
                bool t = a->b->c == v, f = a->d->c == v;
                return t ? (f ? xConst(1, 1) : a->a) : (f ? xNot(a->a) : xConst(0, 1));
            }
            if (tc) return a->b->c == v ? xBin(K_OR, a->a, xEq(a->d, b)) : xBin(K_AND, xNot(a->a), xEq(a->d, b));
            if (fc) return a->d->c == v ? xBin(K_OR, xNot(a->a), xEq(a->b, b)) : xBin(K_AND, a->a, xEq(a->b, b));
            break;
        }
        default: break;
        }
    } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return xEq(a->a, b->a);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return xEq(a->a, b->a);
        if (a->w == 1) return xNot(xBin(K_XOR, a, b));
        if (a->id > b->id) std::swap(a, b);
    }
    return g_et.mk(K_EQ, 1, 0, a, b);
}

static uint64_t umaxOf(E a) { // cheap upper bound
    if (isC(a)) return a->c;
    if (a->k == K_ZEXT) return umaxOf(a->a);
    if (a->k == K_AND && isC(a->b)) return a->b->c;
    if (a->k == K_ITE) { uint64_t x = umaxOf(a->b), y = umaxOf(a->d); return x > y ? x : y; }
    if (a->k == K_UREM && isC(a->b) && a->b->c) return a->b->c - 1;
    if (a->k == K_LSHR && isC(a->b) && a->b->c < a->w) return maskw(a->w) >> a->b->c;
    return maskw(a->w);
}

static E xBin(Kind k, E a, E b) {
    unsigned w = a->w;
    assert(a->w == b->w);
    bool cmp = k >= K_EQ && k <= K_SLE;
    if (k == K_EQ) return xEq(a, b);
    if (isC(a) && isC(b)) return xConst(foldBin(k, a->c, b->c, w), cmp ? 1 : w);
    uint64_t m = maskw(w);
    switch (k) {
    case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR:
        if (isC(a)) std::swap(a, b);
        break;
    default: break;
    }
    switch (k) {
    case K_ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->k == K_ADD && isC(a->b)) return xBin(K_ADD, a->a, xConst(a->b->c + b->c, w));
        if (isC(b) && a->k == K_SUB && isC(a->a)) return xBin(K_SUB, xConst(a->a->c + b->c, w), a->b);
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return xIte(a->a, xConst(a->b->c + b->c, w), xConst(a->d->c + b->c, w));
        break;
    case K_SUB:
        if (a == b) return xConst(0, w);
        if (isC(b)) return xBin(K_ADD, a, xConst(0 - b->c, w));
        break;
    case K_MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && (b->c & (b->c - 1)) == 0) return xBin(K_SHL, a, xConst(__builtin_ctzll(b->c), w));
        break;
    case K_UREM: case K_SREM:
        if (isC(b) && (b->c == 1 || (k == K_SREM && b->c == maskw(w)))) return xConst(0, w);
        break;
    case K_UDIV: case K_SDIV:
        if (isC(b) && k == K_SDIV && b->c == maskw(w) && w > 1) return xBin(K_SUB, xConst(0, w), a);
        if (isC(b, 1)) return a;
        break;
    case K_AND:
        if (isC(b, 0)) return b;
        if (isC(b, m)) return a;
        if (a == b) return a;
        if (isNotOf(a, b) || isNotOf(b, a)) return xConst(0, w);
        if (isC(b) && a->k == K_AND && isC(a->b)) return xBin(K_AND, a->a, xConst(a->b->c & b->c, w));
        if (isC(b) && a->k == K_ZEXT) {
            if ((b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
            return xZext(xBin(K_AND, a->a, xConst(b->c, a->a->w)), w);
        }
        if (isC(b) && b->c != 0 && (b->c & (b->c + 1)) == 0) { // low mask
            unsigned n = __builtin_popcountll(b->c);
            if (n < w) return xZext(xExtract(a, 0, n), w);
        }
        if (w == 1 && a->k == K_AND && (a->a == b || a->b == b)) return a;
        break;
    case K_OR:
        if (isC(b, 0)) return a;
        if (isC(b, m)) return b;
        if (a == b) return a;
        if (isNotOf(a, b) || isNotOf(b, a)) return xConst(m, w);
        if (w == 1 && a->k == K_OR && (a->a == b || a->b == b)) return a;
        // shl(zext hi) | zext lo -> concat
        for (int t = 0; t < 2; ++t) {
            E s = t ? b : a, l = t ? a : b;
            if (s->k == K_SHL && isC(s->b) && l->k == K_ZEXT && l->a->w <= s->b->c) {
                unsigned sh = (unsigned)s->b->c;
                E lo = xZext(l->a, sh); if (lo->w != sh) break;
                return xConcat(xExtract(s->a, 0, w - sh), lo);
            }
        }
        break;
    case K_XOR:
        if (isC(b, 0)) return a;
        if (a == b) return xConst(0, w);
        if (isC(b) && a->k == K_XOR && isC(a->b)) return xBin(K_XOR, a->a, xConst(a->b->c ^ b->c, w));
        if (w == 1 && isC(b, 1)) {
            switch (a->k) { // push negation into comparisons
            case K_ULT: return xBin(K_ULE, a->b, a->a);
            case K_ULE: return xBin(K_ULT, a->b, a->a);
            case K_SLT: return xBin(K_SLE, a->b, a->a);
            case K_SLE: return xBin(K_SLT, a->b, a->a);
            default: break;
            }
        }
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return xIte(a->a, xConst(a->b->c ^ b->c, w), xConst(a->d->c ^ b->c, w));
        break;
    case K_SHL:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c >= w) return xConst(0, w);
        break;
    case K_LSHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c >= w) return xConst(0, w);
        if (isC(b)) return xZext(xExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        break;
    case K_ASHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c < w) return xSext(xExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        break;
    case K_ULT:
        if (a == b) return xConst(0, 1);
        if (isC(b, 0)) return xConst(0, 1);
        if (isC(a, m)) return xConst(0, 1);
        if (isC(b) && umaxOf(a) < b->c) return xConst(1, 1);
        if (isC(a) && umaxOf(b) <= a->c) return xConst(0, 1);
        if (isC(b, 1)) return xEq(a, xConst(0, w));
        if (a->k == K_ZEXT && isC(b)) { return xBin(K_ULT, a->a, xConst(b->c, a->a->w)); } // b fits: else umax case
        if (b->k == K_ZEXT && isC(a)) { return xBin(K_ULT, xConst(a->c, b->a->w), b->a); }
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return xBin(K_ULT, a->a, b->a);
        if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return xIte(a->a, xConst(a->b->c < b->c, 1), xConst(a->d->c < b->c, 1));
        break;
    case K_ULE:
        if (a == b) return xConst(1, 1);
        if (isC(a, 0)) return xConst(1, 1);
        if (isC(b, m)) return xConst(1, 1);
        if (isC(b)) return xBin(K_ULT, a, xConst(b->c + 1, w));
        if (isC(a)) return xBin(K_ULT, xConst(a->c - 1, w), b);
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return xBin(K_ULE, a->a, b->a);
        break;
    case K_SLT: case K_SLE: {
        if (a == b) return xConst(k == K_SLE, 1);
        E x = a, y = b;
        bool an = isC(x) ? sx(x->c, w) >= 0 : umaxOf(x) < (1ULL << (w - 1));
        bool bn = isC(y) ? sx(y->c, w) >= 0 : umaxOf(y) < (1ULL << (w - 1));
        if (an && bn) return xBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (an && isC(y)) return xConst(0, 1);   // nonneg < negative
        if (bn && isC(x)) return xConst(1, 1);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return xBin(k, a->a, b->a);
        if (a->k == K_SEXT && isC(b)) { unsigned sw = a->a->w; int64_t v = sx(b->c, w);
            if (v == sx(v & maskw(sw), sw)) return xBin(k, a->a, xConst(v, sw));
            return xConst(v > 0, 1); }
        if (b->k == K_SEXT && isC(a)) { unsigned sw = b->a->w; int64_t v = sx(a->c, w);
            if (v == sx(v & maskw(sw), sw)) return xBin(k, xConst(v, sw), b->a);
            return xConst(v < 0, 1); }
        break;
    }
    default: break;
    }
    if (!cmp && isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d) && k != K_ADD && k != K_XOR)
        return xIte(a->a, xConst(foldBin(k, a->b->c, b->c, w), w), xConst(foldBin(k, a->d->c, b->c, w), w));
    if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR) && !isC(b) && a->id > b->id) std::swap(a, b);
    return g_et.mk(k, cmp ? 1 : w, 0, a, b);
}

static E xZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return xConst(a->c, w);
    if (a->k == K_ZEXT) return xZext(a->a, w);
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return xIte(a->a, xConst(a->b->c, w), xConst(a->d->c, w));
    return g_et.mk(K_ZEXT, w, 0, a);
}
static E xSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return xConst((uint64_t)sx(a->c, a->w), w);
    if (a->k == K_SEXT) return xSext(a->a, w);
    if (a->k == K_ZEXT) return xZext(a->a, w);
    if (a->w == 1) return xIte(a, xConst(~0ULL, w), xConst(0, w));
    return g_et.mk(K_SEXT, w, 0, a);
}
static E xExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && a->w == w) return a;
    if (isC(a)) return xConst(a->c >> off, w);
    switch (a->k) {
    case K_EXTRACT: return xExtract(a->a, a->aux + off, w);
    case K_ZEXT:
        if (off >= a->a->w) return xConst(0, w);
        if (off + w <= a->a->w) return xExtract(a->a, off, w);
        return xZext(xExtract(a->a, off, a->a->w - off), w);
    case K_SEXT:
        if (off + w <= a->a->w) return xExtract(a->a, off, w);
        break;
    case K_CONCAT:
        if (off >= a->b->w) return xExtract(a->a, off - a->b->w, w);
        if (off + w <= a->b->w) return xExtract(a->b, off, w);
        return xConcat(xExtract(a->a, 0, off + w - a->b->w), xExtract(a->b, off, a->b->w - off));
    case K_ITE:
        if (isC(a->b) || isC(a->d) || a->b->k == K_ZEXT || a->d->k == K_ZEXT) return xIte(a->a, xExtract(a->b, off, w), xExtract(a->d, off, w));
        break;
    case K_AND: case K_OR: case K_XOR:
        if (isC(a->b)) return xBin(a->k, xExtract(a->a, off, w), xExtract(a->b, off, w));
        break;
    case K_ADD: case K_SUB: case K_MUL:
        if (off == 0 && isC(a->b) && (a->k == K_ADD || w >= 32)) return xBin(a->k, xExtract(a->a, 0, w), xExtract(a->b, 0, w));
        if (off == 0 && w >= 32) {   // arithmetic modulo 2^w only needs the low bits
            static std::unordered_map<uint64_t, E> memo;
            uint64_t key = (uint64_t)(uintptr_t)a * 64 + (w & 63);
            auto it = memo.find(key); if (it != memo.end()) return it->second;
            E r = xBin(a->k, xExtract(a->a, 0, w), xExtract(a->b, 0, w)); memo.emplace(key, r); return r;
        }
        break;
    default: break;
    }
    return g_et.mk(K_EXTRACT, w, 0, a, nullptr, nullptr, off);
}
static E xConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 64);
    if (isC(hi) && isC(lo)) return xConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return xZext(lo, w);
    if (hi->k == K_EXTRACT && lo->k != K_EXTRACT && hi->aux == lo->w && !isC(lo) && xExtract(hi->a, 0, lo->w) == lo) return xExtract(hi->a, 0, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return xExtract(hi->a, lo->aux, w);
    if (hi->k == K_EXTRACT && hi->a == lo && hi->aux == lo->w) return xExtract(lo, 0, w); // defensive
    if (hi->k == K_CONCAT) { // try to merge neighbours
        E m = xConcat(hi->b, lo);
        if (m->k != K_CONCAT) return xConcat(hi->a, m);
    }
    if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return xIte(hi->a, xConcat(hi->b, lo->b), xConcat(hi->d, lo->d));
    return g_et.mk(K_CONCAT, w, 0, hi, lo);
}
static E xIte(E c, E t, E f) {
    if (isC(c)) return c->c ? t : f;
    if (t == f) return t;
    if (c->k == K_XOR && isC(c->b, 1)) { return xIte(c->a, f, t); }
    if (t->w == 1) {
        if (isC(t, 1)) return xBin(K_OR, c, f);
        if (isC(t, 0)) return xBin(K_AND, xNot(c), f);
        if (isC(f, 1)) return xBin(K_OR, xNot(c), t);
        if (isC(f, 0)) return xBin(K_AND, c, t);
    }
    if (t->k == K_ITE && t->a == c) t = t->b;
    if (f->k == K_ITE && f->a == c) f = f->d;
    return g_et.mk(K_ITE, t->w, 0, c, t, f);
}

// Evaluation under an assignment (model[var index], missing = 0).
static uint64_t evalRec(E e, const std::vector<uint64_t> &m) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_SYM) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
    if (e->evalGen == g_evalGen) return e->evalVal;
    uint64_t r = 0;
    switch (e->k) {
    case K_ZEXT: r = evalRec(e->a, m); break;
    case K_SEXT: r = (uint64_t)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case K_EXTRACT: r = (evalRec(e->a, m) >> e->aux) & maskw(e->w); break;
    case K_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    default: r = foldBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w); break;
    }
    e->evalGen = g_evalGen; e->evalVal = r; return r;
}
static inline uint64_t evalE(E e, const std::vector<uint64_t> &m) { ++g_evalGen; return evalRec(e, m); }
