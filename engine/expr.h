// Hash-consed bit-vector expressions (width 1..64), with a simplifier,
// concrete evaluation under a model, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <z3.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
    SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT, TABLE, INSET,
    UMULO, SMULO, AGG };

struct Support { u64 m[4]; };

struct Expr {
    Op op; uint8_t w; uint32_t id; u64 c;
    const Expr *k[3];
    Support sup; bool heavy, tab;    // heavy: contains division or a product of variables; tab: contains a table lookup
    mutable u64 epoch, val;
    mutable Z3_ast z, zb;
};
typedef const Expr *E;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct EKey { Op op; uint8_t w; u64 c; E k[3]; };
struct EHash { size_t operator()(E e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ULL + e->w;
    h = (h ^ e->c) * 0xff51afd7ed558ccdULL; h ^= h >> 32;
    for (int i = 0; i < 3; i++) { h = (h ^ (u64)e->k[i]) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29; }
    return h; } };
struct EEq { bool operator()(E a, E b) const {
    return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };

// open addressing intern table
struct Intern {
    std::vector<Expr *> tab; size_t n = 0; std::vector<Expr *> chunks; size_t used = 0;
    static const size_t CH = 4096;
    Intern() : tab(1 << 16, nullptr) {}
    Expr *alloc() {
        if (chunks.empty() || used == CH) { chunks.push_back((Expr *)malloc(sizeof(Expr) * CH)); used = 0; }
        return &chunks.back()[used++];
    }
    E get(Op op, unsigned w, u64 c, E a, E b, E d) {
        Expr t; t.op = op; t.w = w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
        size_t m = tab.size() - 1, h = EHash()(&t) & m;
        while (tab[h]) { if (EEq()(tab[h], &t)) return tab[h]; h = (h + 1) & m; }
        if (n * 2 > tab.size()) { grow(); return get(op, w, c, a, b, d); }
        Expr *e = alloc(); *e = t; e->id = n++; e->epoch = 0; e->val = 0; e->z = e->zb = nullptr;
        e->heavy = (op >= UDIV && op <= SREM) || (op == MUL && b->op != CONST);
        e->tab = op == TABLE;
        for (int j = 0; j < 3; j++) if (e->k[j]) { e->heavy |= e->k[j]->heavy; e->tab |= e->k[j]->tab; }
        for (int i = 0; i < 4; i++) {
            e->sup.m[i] = 0;
            for (int j = 0; j < 3; j++) if (e->k[j]) e->sup.m[i] |= e->k[j]->sup.m[i];
        }
        if (op == VAR) e->sup.m[(c >> 8 & 255) >> 6] |= 1ULL << ((c >> 8) & 63);
        tab[h] = e; return e;
    }
    void grow() {
        std::vector<Expr *> o; o.swap(tab); tab.assign(o.size() * 2, nullptr);
        size_t m = tab.size() - 1;
        for (auto e : o) if (e) { size_t h = EHash()(e) & m; while (tab[h]) h = (h + 1) & m; tab[h] = e; }
    }
};
static Intern IT;

struct Table { std::vector<u64> v; };
struct Set { std::vector<std::pair<u64, u64>> r; };   // sorted disjoint closed ranges
static std::vector<Table *> TABLES;
static std::vector<Set *> SETS;
static std::vector<std::vector<E>> AGGS;

static E mk(Op op, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) { return IT.get(op, w, c, a, b, d); }
static E K(u64 v, unsigned w) { return mk(CONST, w, v & mask(w)); }
// variable: c = index << 8 | width
static E mkVar(unsigned idx, unsigned w) { return mk(VAR, w, (u64)idx << 8 | w); }
static bool isC(E e) { return e->op == CONST; }
static bool isC(E e, u64 v) { return e->op == CONST && e->c == (v & mask(e->w)); }
static E mkAgg(const std::vector<E> &v) {
    for (size_t i = 0; i < AGGS.size() && AGGS.size() < 64; i++) if (AGGS[i] == v) return mk(AGG, 0, i);
    AGGS.push_back(v); return mk(AGG, 0, AGGS.size() - 1);
}

static E mkNot(E a); static E mkInSet(const std::vector<std::pair<u64, u64>> &r, E x);
// tables big enough to be simplified entry by entry
static bool bigT(E e) { return e->op == TABLE && TABLES[e->c]->v.size() > 1024; }
// table of f(entry); cached by (table, operation, constant)
struct TKey { u64 t, c; unsigned op, w; bool operator==(const TKey &o) const { return t == o.t && c == o.c && op == o.op && w == o.w; } };
struct TKeyH { size_t operator()(const TKey &k) const { return (k.t * 1000003 + k.c) * 0x9E3779B97F4A7C15ULL + k.op * 131 + k.w; } };
template <class F> static E mapTable(E a, unsigned op, u64 c, unsigned w, F f) {
    static std::unordered_map<TKey, u64, TKeyH> cache;
    TKey k{a->c, c, op, w}; auto it = cache.find(k); u64 id;
    if (it != cache.end()) id = it->second;
    else {
        Table *n = new Table; Table *t = TABLES[a->c]; n->v.reserve(t->v.size());
        for (u64 v : t->v) n->v.push_back(f(v) & mask(w));
        TABLES.push_back(n); id = cache[k] = TABLES.size() - 1;
    }
    auto &t = TABLES[id]->v; bool same = true; for (u64 v : t) if (v != t[0]) { same = false; break; }
    if (same) return K(t[0], w);
    return mk(TABLE, w, id, a->k[0]);
}
// indices whose entry satisfies f, as a set membership of the index
template <class F> static E selTable(E a, unsigned op, u64 c, F f) {
    static std::unordered_map<TKey, std::vector<std::pair<u64, u64>>, TKeyH> cache;
    TKey k{a->c, c, op, 1}; auto it = cache.find(k);
    if (it == cache.end()) {
        std::vector<std::pair<u64, u64>> r; auto &t = TABLES[a->c]->v;
        for (size_t i = 0; i < t.size(); i++) if (f(t[i])) { if (!r.empty() && r.back().second + 1 == i) r.back().second = i; else r.push_back({i, i}); }
        it = cache.emplace(k, r).first;
    }
    auto &r = it->second; size_t n = TABLES[a->c]->v.size();
    if (r.empty()) { E z = mk(CONST, 1, 0); return z; }
    if (r.size() == 1 && r[0].first == 0 && r[0].second == n - 1) return mk(CONST, 1, 1);
    return mkInSet(r, a->k[0]);
}
static E mkAnd(E a, E b); static E mkOr(E a, E b); static E mkXor(E a, E b);
static E mkIte(E c, E a, E b); static E mkZext(E a, unsigned w); static E mkSext(E a, unsigned w);
static E mkExtract(E a, unsigned off, unsigned w); static E mkEq(E a, E b); static E mkUlt(E a, E b);

static bool iteK(E e) { return e->op == ITE && isC(e->k[1]) && isC(e->k[2]); }

static u64 foldBin(Op op, u64 a, u64 b, unsigned w) {
    u64 m = mask(w);
    switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
    case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return (x >= 0 ? m : 1) & m; if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m;
    case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case EQ: return a == b; case ULT: return a < b; case SLT: return sx(a, w) < sx(b, w);
    case UMULO: return ((u128)a * b) >> w != 0;
    case SMULO: { i128 p = (i128)sx(a, w) * sx(b, w); return p != (i128)sx((u64)p & m, w); }
    default: abort();
    }
}

// Bit layout: bits that may be nonzero, and an expression as a list of slices
// (low to high) of opaque expressions and constants. Sums and unions of
// expressions without common bits become concatenations.
static u64 maybeBits(E e, int depth = 0) {
    u64 m = mask(e->w); if (depth > 12) return m;
    switch (e->op) {
    case CONST: return e->c;
    case ZEXT: return maybeBits(e->k[0], depth + 1);
    case EXTRACT: return (maybeBits(e->k[0], depth + 1) >> e->c) & m;
    case CONCAT: return (maybeBits(e->k[0], depth + 1) << e->k[1]->w | maybeBits(e->k[1], depth + 1)) & m;
    case SHL: if (isC(e->k[1]) && e->k[1]->c < e->w) return (maybeBits(e->k[0], depth + 1) << e->k[1]->c) & m; return m;
    case AND: if (isC(e->k[1])) return e->k[1]->c & maybeBits(e->k[0], depth + 1); return m;
    default: return m;
    }
}
static E mkConcat(E hi, E lo);
// bits [off, off + w) of e, where only layout operations are looked through
static E slice(E e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    switch (e->op) {
    case CONST: return K(e->c >> off, w);
    case ZEXT: { unsigned w2 = e->k[0]->w; if (off >= w2) return K(0, w); if (off + w <= w2) return slice(e->k[0], off, w); return mkConcat(K(0, off + w - w2), slice(e->k[0], off, w2 - off)); }
    case CONCAT: { E hi = e->k[0], lo = e->k[1]; if (off + w <= lo->w) return slice(lo, off, w); if (off >= lo->w) return slice(hi, off - lo->w, w);
        return mkConcat(slice(hi, 0, off + w - lo->w), slice(lo, off, lo->w - off)); }
    case SHL: if (isC(e->k[1]) && e->k[1]->c < e->w) { unsigned s = e->k[1]->c; if (off >= s) return slice(e->k[0], off - s, w); if (off + w <= s) return K(0, w); return mkConcat(slice(e->k[0], 0, off + w - s), K(0, s - off)); } break;
    default: break;
    }
    return mkExtract(e, off, w);
}
// a | b where (maybeBits(a) & maybeBits(b)) == 0 and neither is opaque throughout
static E joinBits(E a, E b, u64 ma, u64 mb) {
    unsigned w = a->w; E r = nullptr;
    for (unsigned i = 0; i < w;) {
        int who = ma >> i & 1 ? 1 : mb >> i & 1 ? 2 : 0; unsigned j = i + 1;
        while (j < w && (ma >> j & 1 ? 1 : mb >> j & 1 ? 2 : 0) == who) j++;
        E p = who == 0 ? K(0, j - i) : slice(who == 1 ? a : b, i, j - i);
        r = r ? mkConcat(p, r) : p; i = j;
    }
    return r;
}
static bool layout(E e, int depth = 0) { // made of slices of opaque expressions, no full-width one
    switch (e->op) { case CONST: return true; case ZEXT: return e->w > 1; case CONCAT: return true; case SHL: return isC(e->k[1]) && e->k[0]->op == ZEXT; case AND: return false; default: return false; }
}
static E mkAdd(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (w <= 16 && w > 1 && layout(a) && layout(b) && !(isC(a) && isC(b)) && !isC(b, 0)) { u64 ma = maybeBits(a), mb = maybeBits(b); if (!(ma & mb)) return joinBits(a, b, ma, mb); }
    if (isC(b)) {
        if (isC(a)) return K(a->c + b->c, w);
        if (b->c == 0) return a;
        if (a->op == ADD && isC(a->k[1])) return mkAdd(a->k[0], K(a->k[1]->c + b->c, w));
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c + b->c, w), K(a->k[2]->c + b->c, w));
        return mk(ADD, w, 0, a, b);
    }
    if (a->op == ADD && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == ADD && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->id > b->id) std::swap(a, b);
    return mk(ADD, w, 0, a, b);
}
static E mkSub(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) return mkAdd(a, K(0 - b->c, w));
    if (a == b) return K(0, w);
    if (a->op == ADD && isC(a->k[1]) ) {
        if (a->k[0] == b) return a->k[1];
        if (b->op == ADD && isC(b->k[1])) return mkAdd(mkSub(a->k[0], b->k[0]), K(a->k[1]->c - b->k[1]->c, w));
    }
    if (isC(a) && iteK(b)) return mkIte(b->k[0], K(a->c - b->k[1]->c, w), K(a->c - b->k[2]->c, w));
    return mk(SUB, w, 0, a, b);
}
static E mkShl(E a, E b); static E mkLshr(E a, E b);
static E mkMul(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return K(a->c * b->c, w);
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) return mkShl(a, K(__builtin_ctzll(b->c), w));
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c * b->c, w), K(a->k[2]->c * b->c, w));
    } else if (a->id > b->id) std::swap(a, b);
    return mk(MUL, w, 0, a, b);
}
static E mkDiv(Op op, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return K(foldBin(op, a->c, b->c, w), w);
    if (isC(b)) {
        u64 c = b->c;
        if (op == UDIV && c == 1) return a;
        if (op == UREM && c == 1) return K(0, w);
        if (op == UDIV && c && (c & (c - 1)) == 0) return mkLshr(a, K(__builtin_ctzll(c), w));
        if (op == UREM && c && (c & (c - 1)) == 0) return mkAnd(a, K(c - 1, w));
        if ((op == UDIV || op == UREM) && a->op == ZEXT && a->k[0]->w > 1) {
            unsigned w2 = a->k[0]->w;
            if (c > mask(w2)) return op == UDIV ? K(0, w) : a;
            return mkZext(mkDiv(op, a->k[0], K(c, w2)), w);
        }
        // signed division of a non-negative value by a positive constant
        if ((op == SDIV || op == SREM) && sx(c, w) > 0 && a->op == ZEXT)
            return mkDiv(op == SDIV ? UDIV : UREM, a, b);
        if (iteK(a) && c) return mkIte(a->k[0], K(foldBin(op, a->k[1]->c, c, w), w), K(foldBin(op, a->k[2]->c, c, w), w));
    }
    return mk(op, w, 0, a, b);
}
static E mkNot(E a) {
    unsigned w = a->w;
    if (isC(a)) return K(~a->c, w);
    if (a->op == XOR && isC(a->k[1], ~0ULL)) return a->k[0];
    return mk(XOR, w, 0, a, K(~0ULL, w));
}
static bool isNot(E a) { return a->op == XOR && isC(a->k[1], ~0ULL); }
static E mkAnd(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return K(a->c & b->c, w);
        if (b->c == 0) return b;
        if (b->c == mask(w)) return a;
        if (a->op == AND && isC(a->k[1])) return mkAnd(a->k[0], K(a->k[1]->c & b->c, w));
        if (a->op == ZEXT) {
            unsigned w2 = a->k[0]->w;
            return mkZext(mkAnd(a->k[0], K(b->c, w2)), w);
        }
        if (a->op == SEXT && (b->c >> a->k[0]->w) == 0) return mkZext(mkAnd(a->k[0], K(b->c, a->k[0]->w)), w);
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c & b->c, w), K(a->k[2]->c & b->c, w));
        if (bigT(a)) return mapTable(a, AND, b->c, w, [&](u64 v) { return v & b->c; });
        if (a->op == CONCAT) return mkConcat(mkAnd(a->k[0], K(b->c >> a->k[1]->w, a->k[0]->w)), mkAnd(a->k[1], K(b->c, a->k[1]->w)));
        // low mask: zext of extract
        if ((b->c & (b->c + 1)) == 0 && a->op != TABLE) { unsigned n = __builtin_popcountll(b->c); return mkZext(mkExtract(a, 0, n), w); }
        return mk(AND, w, 0, a, b);
    }
    if (a == b) return a;
    if (w == 1 && (mkNot(a) == b)) return K(0, 1);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkAnd(a->k[0], b->k[0]), w);
    if (a->id > b->id) std::swap(a, b);
    return mk(AND, w, 0, a, b);
}
static E mkOr(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return K(a->c | b->c, w);
        if (b->c == 0) return a;
        if (b->c == mask(w)) return b;
        if (a->op == OR && isC(a->k[1])) return mkOr(a->k[0], K(a->k[1]->c | b->c, w));
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c | b->c, w), K(a->k[2]->c | b->c, w));
        if (w > 1 && layout(a)) { u64 ma = maybeBits(a); if (!(ma & b->c)) return joinBits(a, b, ma, b->c); }
        return mk(OR, w, 0, a, b);
    }
    if (a == b) return a;
    if (w > 1 && layout(a) && layout(b)) { u64 ma = maybeBits(a), mb = maybeBits(b); if (!(ma & mb)) return joinBits(a, b, ma, mb); }
    if (w == 1 && mkNot(a) == b) return K(1, 1);
    if (a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) return mkZext(mkOr(a->k[0], b->k[0]), w);
    if (a->id > b->id) std::swap(a, b);
    return mk(OR, w, 0, a, b);
}
static E mkXor(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return K(a->c ^ b->c, w);
        if (b->c == 0) return a;
        if (a->op == XOR && isC(a->k[1])) return mkXor(a->k[0], K(a->k[1]->c ^ b->c, w));
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c ^ b->c, w), K(a->k[2]->c ^ b->c, w));
        return mk(XOR, w, 0, a, b);
    }
    if (a == b) return K(0, w);
    if (w == 1) { // keep negations outermost
        if (isNot(a)) return mkNot(mkXor(a->k[0], b));
        if (isNot(b)) return mkNot(mkXor(a, b->k[0]));
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(XOR, w, 0, a, b);
}
static E mkConcat(E hi, E lo);
static E mkShl(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return K(0, w);
        if (isC(a)) return K(a->c << b->c, w);
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c << b->c, w), K(a->k[2]->c << b->c, w));
        if (a->op == SHL && isC(a->k[1])) return mkShl(a->k[0], K(a->k[1]->c + b->c, w));
        return mk(SHL, w, 0, a, b);
    }
    return mk(SHL, w, 0, a, b);
}
static E mkLshr(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return K(0, w);
        if (isC(a)) return K(a->c >> b->c, w);
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c >> b->c, w), K(a->k[2]->c >> b->c, w));
        return mkZext(mkExtract(a, b->c, w - b->c), w);
    }
    return mk(LSHR, w, 0, a, b);
}
static E mkAshr(E a, E b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c == 0) return a;
        u64 s = b->c >= w ? w - 1 : b->c;
        if (isC(a)) return K((u64)(sx(a->c, w) >> s), w);
        if (a->op == ZEXT) return mkLshr(a, K(s, w));
        return mkSext(mkExtract(a, s, w - s), w);
    }
    return mk(ASHR, w, 0, a, b);
}
static E mkEq(E a, E b) {
    unsigned w = a->w;
    if (a == b) return K(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (isC(a)) return K(a->c == b->c, 1);
        if (w == 1) return b->c ? a : mkNot(a);
        u64 c = b->c;
        switch (a->op) {
        case ZEXT: { unsigned w2 = a->k[0]->w; if (c > mask(w2)) return K(0, 1); return mkEq(a->k[0], K(c, w2)); }
        case SEXT: { unsigned w2 = a->k[0]->w; if (((u64)sx(c & mask(w2), w2) & mask(w)) != c) return K(0, 1); return mkEq(a->k[0], K(c, w2)); }
        case ADD: if (isC(a->k[1])) return mkEq(a->k[0], K(c - a->k[1]->c, w)); break;
        case XOR: if (isC(a->k[1])) return mkEq(a->k[0], K(c ^ a->k[1]->c, w)); break;
        case ITE:
            if (isC(a->k[1]) || isC(a->k[2])) {
                return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
            }
            break;
        case CONCAT: { E hi = a->k[0], lo = a->k[1]; return mkAnd(mkEq(hi, K(c >> lo->w, hi->w)), mkEq(lo, K(c, lo->w))); }
        case AND: if (isC(a->k[1]) && (c & ~a->k[1]->c)) return K(0, 1); break;
        case OR: if (isC(a->k[1]) && (a->k[1]->c & ~c)) return K(0, 1); break;
        case SHL: if (isC(a->k[1])) { unsigned s = a->k[1]->c; if (c & mask(s)) return K(0, 1); return mkEq(mkExtract(a->k[0], 0, w - s), K(c >> s, w - s)); } break;
        case TABLE: {
            return selTable(a, EQ, c, [&](u64 v) { return v == c; }); }
        default: break;
        }
        return mk(EQ, 1, 0, a, b);
    }
    if (a->op == ZEXT && b->op == ZEXT) {
        if (a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
        if (a->k[0]->w < b->k[0]->w) std::swap(a, b);
        return mkEq(a->k[0], mkZext(b->k[0], a->k[0]->w));
    }
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (w == 1) return mkNot(mkXor(a, b));
    if (a->id > b->id) std::swap(a, b);
    return mk(EQ, 1, 0, a, b);
}
static E mkUlt(E a, E b) {
    unsigned w = a->w;
    if (a == b) return K(0, 1);
    if (isC(a) && isC(b)) return K(a->c < b->c, 1);
    if (isC(b)) {
        if (b->c == 0) return K(0, 1);
        if (b->c == 1) return mkEq(a, K(0, w));
        if (a->op == ZEXT) { unsigned w2 = a->k[0]->w; if (b->c > mask(w2)) return K(1, 1); return mkUlt(a->k[0], K(b->c, w2)); }
        if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c < b->c, 1), K(a->k[2]->c < b->c, 1));
        if (bigT(a)) return selTable(a, ULT, b->c, [&](u64 v) { return v < b->c; });
    }
    if (isC(a)) {
        if (a->c == mask(w)) return K(0, 1);
        if (a->c == 0) return mkNot(mkEq(b, a));
        if (b->op == ZEXT) { unsigned w2 = b->k[0]->w; if (a->c >= mask(w2)) return K(0, 1); return mkUlt(K(a->c, w2), b->k[0]); }
        if (iteK(b)) return mkIte(b->k[0], K(a->c < b->k[1]->c, 1), K(a->c < b->k[2]->c, 1));
        if (bigT(b)) return mkNot(selTable(b, ULT, a->c + 1, [&](u64 v) { return v <= a->c; }));
    }
    if (w == 1) return mkAnd(mkNot(a), b);
    if (a->op == ZEXT && b->op == ZEXT) {
        unsigned m = std::max(a->k[0]->w, b->k[0]->w);
        if (m < w) return mkUlt(mkZext(a->k[0], m), mkZext(b->k[0], m));
    }
    return mk(ULT, 1, 0, a, b);
}
static E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static E mkSlt(E a, E b) {
    unsigned w = a->w;
    if (a == b) return K(0, 1);
    if (isC(a) && isC(b)) return K(sx(a->c, w) < sx(b->c, w), 1);
    if (isC(b)) {
        i64 c = sx(b->c, w);
        if (a->op == ZEXT) return c <= 0 ? K(0, 1) : mkUlt(a, b);
        if (a->op == SEXT) { unsigned w2 = a->k[0]->w; i64 hi = (i64)(mask(w2) >> 1), lo = -hi - 1;
            if (c > hi) return K(1, 1); if (c <= lo) return K(0, 1); return mkSlt(a->k[0], K(c, w2)); }
        if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
        if (bigT(a)) return selTable(a, SLT, b->c, [&](u64 v) { return sx(v, w) < c; });
    }
    if (isC(a)) {
        i64 c = sx(a->c, w);
        if (b->op == ZEXT) return c < 0 ? K(1, 1) : mkUlt(a, b);
        if (b->op == SEXT) { unsigned w2 = b->k[0]->w; i64 hi = (i64)(mask(w2) >> 1), lo = -hi - 1;
            if (c >= hi) return K(0, 1); if (c < lo) return K(1, 1); return mkSlt(K(c, w2), b->k[0]); }
        if (b->op == ITE && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
        if (bigT(b)) return selTable(b, ASHR, a->c, [&](u64 v) { return c < sx(v, w); });
    }
    if (w == 1) return mkAnd(a, mkNot(b));
    if (a->op == ZEXT && b->op == ZEXT) return mkUlt(a, b);
    if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkSlt(a->k[0], b->k[0]);
    return mk(SLT, 1, 0, a, b);
}
static E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static E mkIte(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (isNot(c)) { c = c->k[0]; std::swap(a, b); }
    if (a->w == 1) {
        if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (a->op == AGG || b->op == AGG) { fprintf(stderr, "ite of aggregates\n"); abort(); }
    return mk(ITE, a->w, 0, c, a, b);
}
static E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return K(a->c, w);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    if (iteK(a)) return mkIte(a->k[0], K(a->k[1]->c, w), K(a->k[2]->c, w));
    return mk(ZEXT, w, 0, a);
}
static E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return K((u64)sx(a->c, a->w), w);
    if (a->op == ZEXT) return mkZext(a->k[0], w);
    if (a->op == SEXT) return mkSext(a->k[0], w);
    if (iteK(a)) return mkIte(a->k[0], K((u64)sx(a->k[1]->c, a->w), w), K((u64)sx(a->k[2]->c, a->w), w));
    if (a->op == TABLE) {
        Table *t = TABLES[a->c]; 
        static std::unordered_map<u64, u64> cache;
        auto it = cache.find(a->c << 8 | w);
        u64 id;
        if (it == cache.end()) {
            Table *n = new Table; for (u64 v : t->v) n->v.push_back((u64)sx(v, a->w) & mask(w));
            TABLES.push_back(n); id = TABLES.size() - 1; cache[a->c << 8 | w] = id;
        } else id = it->second;
        return mk(TABLE, w, id, a->k[0]);
    }
    return mk(SEXT, w, 0, a);
}
static E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi)) { if (isC(lo)) return K(hi->c << lo->w | lo->c, w); if (hi->c == 0) return mkZext(lo, w); }
    if (hi->op == EXTRACT) {
        if (lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, w);
        if (lo->op == CONCAT && lo->k[0]->op == EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->c == lo->k[0]->c + lo->k[0]->w) return mkConcat(mkExtract(hi->k[0], lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    }
    if (hi->op == ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
    if (isC(hi) && lo->op == CONCAT && isC(lo->k[0])) return mkConcat(K(hi->c << lo->k[0]->w | lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
    if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));    // nested to the right
    return mk(CONCAT, w, 0, hi, lo);
}
static E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->op) {
    case CONST: return K(a->c >> off, w);
    case EXTRACT: return mkExtract(a->k[0], a->c + off, w);
    case ZEXT: { unsigned w2 = a->k[0]->w;
        if (off >= w2) return K(0, w);
        if (off + w <= w2) return mkExtract(a->k[0], off, w);
        return mkZext(mkExtract(a->k[0], off, w2 - off), w); }
    case SEXT: { unsigned w2 = a->k[0]->w;
        if (off + w <= w2) return mkExtract(a->k[0], off, w);
        if (off < w2) return mkSext(mkExtract(a->k[0], off, w2 - off), w);
        return mkSext(mkExtract(a->k[0], w2 - 1, 1), w); }
    case CONCAT: { E hi = a->k[0], lo = a->k[1];
        if (off + w <= lo->w) return mkExtract(lo, off, w);
        if (off >= lo->w) return mkExtract(hi, off - lo->w, w);
        return mkConcat(mkExtract(hi, 0, off + w - lo->w), mkExtract(lo, off, lo->w - off)); }
    case ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w)); break;
    case AND: if (isC(a->k[1])) return mkAnd(mkExtract(a->k[0], off, w), K(a->k[1]->c >> off, w)); break;
    case OR: if (isC(a->k[1]) || off) return mkOr(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w)); break;
    case XOR: if (isC(a->k[1])) return mkXor(mkExtract(a->k[0], off, w), K(a->k[1]->c >> off, w)); break;
    case SHL: if (isC(a->k[1])) { unsigned s = a->k[1]->c;
        if (off >= s) return mkExtract(a->k[0], off - s, w);
        if (off + w <= s) return K(0, w);
        return mkShl(mkZext(mkExtract(a->k[0], 0, off + w - s), w), K(s - off, w)); } break;
    case TABLE: if (bigT(a)) return mapTable(a, EXTRACT, off, w, [&](u64 v) { return v >> off; }); break;
    case ADD: if (off == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    default: break;
    }
    return mk(EXTRACT, w, off, a);
}
static E mkBin(Op op, E a, E b) {
    switch (op) {
    case ADD: return mkAdd(a, b); case SUB: return mkSub(a, b); case MUL: return mkMul(a, b);
    case UDIV: case SDIV: case UREM: case SREM: return mkDiv(op, a, b);
    case AND: return mkAnd(a, b); case OR: return mkOr(a, b); case XOR: return mkXor(a, b);
    case SHL: return mkShl(a, b); case LSHR: return mkLshr(a, b); case ASHR: return mkAshr(a, b);
    case EQ: return mkEq(a, b); case ULT: return mkUlt(a, b); case SLT: return mkSlt(a, b);
    default: abort();
    }
}
static E mkMulO(Op op, E a, E b) {
    if (isC(a) && isC(b)) return K(foldBin(op, a->c, b->c, a->w), 1);
    return mk(op, 1, 0, a, b);
}
static E mkInSet(const std::vector<std::pair<u64, u64>> &r, E x) {
    if (isC(x)) { for (auto &p : r) if (x->c >= p.first && x->c <= p.second) return K(1, 1); return K(0, 1); }
    if (r.empty()) return K(0, 1);
    if (r.size() == 1 && r[0].first == r[0].second) return mkEq(x, K(r[0].first, x->w));
    static std::unordered_map<u64, std::vector<size_t>> idx;
    u64 h = r.size(); for (auto &p : r) h = (h ^ p.first ^ (p.second << 20)) * 0x9E3779B97F4A7C15ULL;
    for (size_t i : idx[h]) if (SETS[i]->r == r) return mk(INSET, 1, i, x);
    Set *s = new Set; s->r = r; SETS.push_back(s); idx[h].push_back(SETS.size() - 1);
    return mk(INSET, 1, SETS.size() - 1, x);
}
static bool inSet(const Set *s, u64 v) {
    auto it = std::upper_bound(s->r.begin(), s->r.end(), std::make_pair(v, (u64)~0ULL));
    return it != s->r.begin() && (--it)->second >= v;
}

// ---- evaluation
static u64 NEXTMODEL = 1;
struct Model : std::vector<u64> {         // by variable index; the id tells one content from another
    u64 id = NEXTMODEL++;
    Model() {}
    Model(const Model &o) : std::vector<u64>(o) {}
    Model &operator=(const Model &o) { std::vector<u64>::operator=(o); id = NEXTMODEL++; return *this; }
};
static u64 EPOCH = 0, CURID = 0; static const Model *CURM = nullptr;
static u64 evalRec(E e) {
    if (e->op == CONST) return e->c;
    if (e->epoch == EPOCH) return e->val;
    u64 v, m = mask(e->w);
    switch (e->op) {
    case VAR: { size_t i = e->c >> 8; v = i < CURM->size() ? (*CURM)[i] & m : 0; break; }
    case ITE: v = evalRec(e->k[0]) ? evalRec(e->k[1]) : evalRec(e->k[2]); break;
    case CONCAT: v = evalRec(e->k[0]) << e->k[1]->w | evalRec(e->k[1]); break;
    case EXTRACT: v = (evalRec(e->k[0]) >> e->c) & m; break;
    case ZEXT: v = evalRec(e->k[0]); break;
    case SEXT: v = (u64)sx(evalRec(e->k[0]), e->k[0]->w) & m; break;
    case TABLE: { u64 i = evalRec(e->k[0]); auto &t = TABLES[e->c]->v; v = i < t.size() ? t[i] : t.back(); break; }
    case INSET: v = inSet(SETS[e->c], evalRec(e->k[0])); break;
    default: v = foldBin(e->op, evalRec(e->k[0]), evalRec(e->k[1]), e->k[0]->w);
    }
    e->epoch = EPOCH; e->val = v; return v;
}
static u64 eval(E e, const Model *m) {
    if (e->op == CONST) return e->c;
    CURM = m; if (m->id != CURID) { CURID = m->id; EPOCH++; }
    return evalRec(e);
}
static void modelChanged() { CURID = 0; }

// ---- Z3
static Z3_context Z;
static Z3_ast zBool(E e); static Z3_ast zBV(E e);
static Z3_ast keep(Z3_ast a) { return a; }   // non-rc context: ASTs live as long as the context
static Z3_ast zK(u64 v, unsigned w) { return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w)); }
static Z3_ast zTable(Z3_ast ix, unsigned iw, const std::vector<u64> &t, unsigned w) {
    struct Seg { u64 from; bool affine; u64 base; };
    std::vector<Seg> segs;
    for (size_t i = 0; i < t.size();) {
        size_t j = i + 1; while (j < t.size() && t[j] == t[i]) j++;
        size_t k = i + 1; while (k < t.size() && t[k] == ((t[i] + (k - i)) & mask(w))) k++;
        if (j >= k || k - i < 3) { segs.push_back({i, false, t[i]}); i = j; }
        else { segs.push_back({i, true, (t[i] - i) & mask(w)}); i = k; }
    }
    struct R { const std::vector<Seg> &s; Z3_ast ix; unsigned iw, w;
        Z3_ast leaf(const Seg &g) {
            if (!g.affine) return zK(g.base, w);
            Z3_ast x = iw == w ? ix : iw < w ? Z3_mk_zero_ext(Z, w - iw, ix) : Z3_mk_extract(Z, w - 1, 0, ix);
            return Z3_mk_bvadd(Z, x, zK(g.base, w)); }
        Z3_ast go(size_t a, size_t b) {
            if (b - a == 1) return leaf(s[a]);
            size_t m = (a + b) / 2;
            Z3_ast l = keep(go(a, m)), r = keep(go(m, b));
            Z3_ast q = Z3_mk_ite(Z, Z3_mk_bvult(Z, ix, zK(s[m].from, iw)), l, r);
            return q; } } r{segs, ix, iw, w};
    return r.go(0, segs.size());
}
static Z3_ast zBool(E e) {
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->op) {
    case CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case AND: { Z3_ast a[2] = {zBool(e->k[0]), zBool(e->k[1])}; r = Z3_mk_and(Z, 2, a); break; }
    case OR: { Z3_ast a[2] = {zBool(e->k[0]), zBool(e->k[1])}; r = Z3_mk_or(Z, 2, a); break; }
    case XOR: if (isC(e->k[1], 1)) r = Z3_mk_not(Z, zBool(e->k[0])); else r = Z3_mk_xor(Z, zBool(e->k[0]), zBool(e->k[1])); break;
    case EQ: r = Z3_mk_eq(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case ULT: r = Z3_mk_bvult(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case SLT: r = Z3_mk_bvslt(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case ITE: r = Z3_mk_ite(Z, zBool(e->k[0]), zBool(e->k[1]), zBool(e->k[2])); break;
    case UMULO: r = Z3_mk_not(Z, Z3_mk_bvmul_no_overflow(Z, zBV(e->k[0]), zBV(e->k[1]), false)); break;
    case SMULO: { Z3_ast a[2] = {Z3_mk_bvmul_no_overflow(Z, zBV(e->k[0]), zBV(e->k[1]), true), Z3_mk_bvmul_no_underflow(Z, zBV(e->k[0]), zBV(e->k[1]))};
        r = Z3_mk_not(Z, Z3_mk_and(Z, 2, a)); break; }
    case INSET: { Z3_ast x = zBV(e->k[0]); unsigned w = e->k[0]->w; std::vector<Z3_ast> v;
        for (auto &p : SETS[e->c]->r) {
            if (p.first == p.second) v.push_back(keep(Z3_mk_eq(Z, x, zK(p.first, w))));
            else { Z3_ast a[2] = {Z3_mk_bvuge(Z, x, zK(p.first, w)), Z3_mk_bvule(Z, x, zK(p.second, w))}; v.push_back(keep(Z3_mk_and(Z, 2, a))); }
        }
        r = Z3_mk_or(Z, v.size(), v.data()); break; }
    default: r = Z3_mk_eq(Z, zBV(e), zK(1, 1));
    }
    return e->zb = keep(r);
}
static Z3_ast zBV(E e) {
    if (e->z) return e->z;
    Z3_ast r;
    if (e->w == 1) switch (e->op) {
        case AND: case OR: case XOR: case EQ: case ULT: case SLT: case ITE: case UMULO: case SMULO: case INSET:
            return e->z = keep(Z3_mk_ite(Z, zBool(e), zK(1, 1), zK(0, 1)));
        default: break;
    }
    switch (e->op) {
    case CONST: r = zK(e->c, e->w); break;
    case VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%llu_%u", (unsigned long long)(e->c >> 8), e->w);
        r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, e->w)); break; }
    case ADD: r = Z3_mk_bvadd(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case SUB: r = Z3_mk_bvsub(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case MUL: r = Z3_mk_bvmul(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case UDIV: r = Z3_mk_bvudiv(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case UREM: r = Z3_mk_bvurem(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case SREM: r = Z3_mk_bvsrem(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case AND: r = Z3_mk_bvand(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case OR: r = Z3_mk_bvor(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case XOR: r = isC(e->k[1], ~0ULL) ? Z3_mk_bvnot(Z, zBV(e->k[0])) : Z3_mk_bvxor(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case SHL: r = Z3_mk_bvshl(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case LSHR: r = Z3_mk_bvlshr(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case ASHR: r = Z3_mk_bvashr(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case ITE: r = Z3_mk_ite(Z, zBool(e->k[0]), zBV(e->k[1]), zBV(e->k[2])); break;
    case CONCAT: r = Z3_mk_concat(Z, zBV(e->k[0]), zBV(e->k[1])); break;
    case EXTRACT: r = Z3_mk_extract(Z, e->c + e->w - 1, e->c, zBV(e->k[0])); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, zBV(e->k[0])); break;
    case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, zBV(e->k[0])); break;
    case TABLE: { auto &t = TABLES[e->c]->v; E ix = e->k[0];
        unsigned need = 1; while (need < 64 && (1ULL << need) < t.size()) need++;
        if (need < ix->w) ix = mkExtract(ix, 0, need);
        r = zTable(zBV(ix), ix->w, t, e->w); break; }
    default: fprintf(stderr, "zBV: op %d\n", e->op); abort();
    }
    return e->z = keep(r);
}
