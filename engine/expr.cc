#include "expr.h"
#include <sstream>

std::vector<u64> g_model;
uint32_t g_model_stamp = 1;
u64 g_nexpr = 0;

static Expr *g_arena = nullptr;
static size_t g_arena_left = 0;
static std::vector<Expr *> g_table(1 << 16, nullptr);
static size_t g_count = 0;

static inline size_t hmix(size_t h, size_t x) { return (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); }
static size_t hashKey(Kind k, unsigned w, Expr *a, Expr *b, Expr *c, u128 v) {
    size_t h = hmix(k * 131 + w, (size_t)a >> 4);
    h = hmix(h, (size_t)b >> 4);
    h = hmix(h, (size_t)c >> 4);
    h = hmix(h, (u64)v);
    h = hmix(h, (u64)(v >> 64));
    return h ^ (h >> 32);
}
static void grow() {
    std::vector<Expr *> old(g_table.size() * 2, nullptr);
    old.swap(g_table);
    size_t m = g_table.size() - 1;
    for (Expr *e : old) {
        if (!e) continue;
        size_t h = hashKey(e->k, e->w, e->a, e->b, e->c, e->v) & m;
        while (g_table[h]) h = (h + 1) & m;
        g_table[h] = e;
    }
}

static void setRange(Expr *e) {
    unsigned w = e->w;
    e->rng = w <= 64;
    e->lo = smin(w);
    e->hi = smax(w);
    auto fit = [&](i128 l, i128 h) {
        if (w > 64) {
            if (l >= INT64_MIN && h <= INT64_MAX) { e->rng = true; e->lo = (i64)l; e->hi = (i64)h; }
            return;
        }
        if (l >= smin(w) && h <= smax(w)) { e->lo = (i64)l; e->hi = (i64)h; }
    };
    auto ok = [](Expr *x) { return x && x->rng; };
    Expr *a = e->a, *b = e->b;
    switch (e->k) {
    case K_Const: { i128 s = sext128(e->v, w); fit(s, s); break; }
    case K_Add: if (ok(a) && ok(b)) fit((i128)a->lo + b->lo, (i128)a->hi + b->hi); break;
    case K_Sub: if (ok(a) && ok(b)) fit((i128)a->lo - b->hi, (i128)a->hi - b->lo); break;
    case K_Mul:
        if (ok(a) && ok(b)) {
            i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
            i128 l = p[0], h = p[0];
            for (int i = 1; i < 4; ++i) { if (p[i] < l) l = p[i]; if (p[i] > h) h = p[i]; }
            if (a == b && l < 0) l = 0;
            fit(l, h);
        }
        break;
    case K_SDiv:
        if (ok(a) && ok(b) && (b->lo > 0 || b->hi < 0)) {
            i128 l = 0, h = 0; bool first = true;
            for (i64 x : {a->lo, a->hi}) for (i64 y : {b->lo, b->hi}) {
                i128 q = (i128)x / y;
                if (first || q < l) l = q;
                if (first || q > h) h = q;
                first = false;
            }
            if (a->lo <= 0 && a->hi >= 0) { if (l > 0) l = 0; if (h < 0) h = 0; }
            fit(l, h);
        }
        break;
    case K_SRem:
        if (ok(a) && ok(b) && (b->lo > 0 || b->hi < 0)) {
            i128 m = b->lo > 0 ? (i128)b->hi : -(i128)b->lo;
            i128 l = a->lo >= 0 ? 0 : -(m - 1), h = a->hi <= 0 ? 0 : m - 1;
            if (l < a->lo && a->lo < 0) l = a->lo;
            if (h > a->hi && a->hi > 0) h = a->hi;
            fit(l, h);
        }
        break;
    case K_UDiv: if (ok(a) && ok(b) && a->lo >= 0 && b->lo > 0) fit(a->lo / b->hi, a->hi / b->lo); break;
    case K_URem: if (ok(a) && ok(b) && a->lo >= 0 && b->lo > 0) fit(0, a->hi < b->hi - 1 ? a->hi : b->hi - 1); break;
    case K_And:
        if (ok(a) && ok(b)) {
            if (a->lo >= 0 && b->lo >= 0) fit(0, a->hi < b->hi ? a->hi : b->hi);
            else if (a->lo >= 0) fit(0, a->hi);
            else if (b->lo >= 0) fit(0, b->hi);
        }
        break;
    case K_Or: case K_Xor:
        if (ok(a) && ok(b) && a->lo >= 0 && b->lo >= 0) {
            u64 m = (u64)a->hi | (u64)b->hi;
            int n = m ? 64 - __builtin_clzll(m) : 0;
            if (n < 63) fit(0, ((i128)1 << n) - 1);
        }
        break;
    case K_Shl:
        if (ok(a) && b->k == K_Const && b->v < w && b->v < 62) fit((i128)a->lo << (int)b->v, (i128)a->hi << (int)b->v);
        break;
    case K_LShr:
        if (b->k == K_Const && b->v < w && b->v > 0) {
            if (ok(a) && a->lo >= 0) fit(a->lo >> (int)b->v, a->hi >> (int)b->v);
            else fit(0, (i128)(maskw(w) >> (int)b->v));
        } else if (ok(a) && a->lo >= 0) fit(0, a->hi);
        break;
    case K_AShr:
        if (ok(a) && b->k == K_Const && b->v < w) {
            int s = b->v > 63 ? 63 : (int)b->v;
            fit(a->lo >> s, a->hi >> s);
        }
        break;
    case K_ZExt:
        if (ok(a) && a->lo >= 0) fit(a->lo, a->hi);
        else fit(0, (i128)maskw(a->w > 126 ? 126 : a->w));
        break;
    case K_SExt: if (ok(a)) fit(a->lo, a->hi); break;
    case K_Extract:
        if (e->v == 0 && ok(a)) fit(a->lo, a->hi);
        break;
    case K_Ite: if (ok(b) && ok(e->c)) fit(b->lo < e->c->lo ? b->lo : e->c->lo, b->hi > e->c->hi ? b->hi : e->c->hi); break;
    default: break;
    }
    if (w == 1) { e->lo = -1; e->hi = 0; if (e->k == K_Const) e->lo = e->hi = (e->v ? -1 : 0); }
}

static Expr *intern(Kind k, unsigned w, Expr *a, Expr *b, Expr *c, u128 v) {
    size_t m = g_table.size() - 1;
    size_t h = hashKey(k, w, a, b, c, v) & m;
    while (Expr *e = g_table[h]) {
        if (e->k == k && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
        h = (h + 1) & m;
    }
    if (!g_arena_left) {
        g_arena_left = 4096;
        g_arena = (Expr *)malloc(sizeof(Expr) * g_arena_left);
    }
    Expr *e = g_arena++;
    --g_arena_left;
    e->k = k; e->w = w; e->a = a; e->b = b; e->c = c; e->v = v;
    e->id = (uint32_t)g_nexpr++;
    e->stamp = 0; e->ev = 0; e->zbv = e->zbool = nullptr;
    setRange(e);
    g_table[h] = e;
    if (++g_count * 2 > g_table.size()) grow();
    if (k != K_Const && e->rng && e->lo == e->hi) return mkConst(w, (u128)(i128)e->lo);
    return e;
}

Expr *mkConst(unsigned w, u128 v) { return intern(K_Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr *mkSym(unsigned w, u64 index) { return intern(K_Sym, w, nullptr, nullptr, nullptr, index); }

u128 foldBin(Kind k, unsigned w, u128 a, u128 b) {
    u128 m = maskw(w);
    switch (k) {
    case K_Add: return (a + b) & m;
    case K_Sub: return (a - b) & m;
    case K_Mul: return (a * b) & m;
    case K_UDiv: return b ? (a / b) & m : m;
    case K_URem: return b ? (a % b) & m : a;
    case K_SDiv: {
        i128 x = sext128(a, w), y = sext128(b, w);
        if (!y) return (x >= 0 ? m : 1);
        if (y == -1) return (u128)(0 - (u128)x) & m;
        return (u128)(x / y) & m;
    }
    case K_SRem: {
        i128 x = sext128(a, w), y = sext128(b, w);
        if (!y) return a;
        if (y == -1) return 0;
        return (u128)(x % y) & m;
    }
    case K_Shl: return b >= w ? 0 : (a << (int)b) & m;
    case K_LShr: return b >= w ? 0 : (a >> (int)b) & m;
    case K_AShr: return b >= w ? (sext128(a, w) < 0 ? m : 0) : (u128)(sext128(a, w) >> (int)b) & m;
    case K_And: return a & b;
    case K_Or: return a | b;
    case K_Xor: return a ^ b;
    case K_Eq: return a == b;
    case K_Ult: return a < b;
    case K_Slt: return sext128(a, w) < sext128(b, w);
    default: abort();
    }
}

static inline bool isC(Expr *e) { return e->k == K_Const; }
static inline bool isC(Expr *e, u128 v) { return e->k == K_Const && e->v == v; }
static inline bool isAll(Expr *e) { return e->k == K_Const && e->v == maskw(e->w); }

Expr *mkNot(Expr *e) {
    assert(e->w == 1);
    return mkBin(K_Xor, e, mkConst(1, 1));
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch %d: %d %d\n", k, a->w, b->w); abort(); }
    unsigned w = a->w;
    unsigned rw = (k == K_Eq || k == K_Ult || k == K_Slt) ? 1 : w;
    if (isC(a) && isC(b)) return mkConst(rw, foldBin(k, w, a->v, b->v));
    bool comm = k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    // push constants into ite with a constant arm
    if (isC(b) && a->k == K_Ite && isC(a->b) && isC(a->c))
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && b->k == K_Ite && isC(b->b) && isC(b->c))
        return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    switch (k) {
    case K_Add:
        if (isC(b, 0)) return a;
        if (w == 1) return mkBin(K_Xor, a, b);
        if (isC(b) && a->k == K_Add && isC(a->b)) return mkBin(K_Add, a->a, mkConst(w, a->b->v + b->v));
        if (isC(b) && a->k == K_Sub && isC(a->a)) return mkBin(K_Sub, mkConst(w, a->a->v + b->v), a->b);
        if (a->k == K_Add && isC(a->b) && !isC(b)) return mkBin(K_Add, mkBin(K_Add, a->a, b), a->b);
        if (b->k == K_Add && isC(b->b)) return mkBin(K_Add, mkBin(K_Add, a, b->a), b->b);
        if (a->k == K_Sub && a->b == b) return a->a;
        if (b->k == K_Sub && b->b == a) return b->a;
        break;
    case K_Sub:
        if (w == 1) return mkBin(K_Xor, a, b);
        if (isC(b)) return mkBin(K_Add, a, mkConst(w, 0 - b->v));
        if (a == b) return mkConst(w, 0);
        if (a->k == K_Add && isC(a->b)) return mkBin(K_Add, mkBin(K_Sub, a->a, b), a->b);
        if (b->k == K_Add && isC(b->b)) return mkBin(K_Add, mkBin(K_Sub, a, b->a), mkConst(w, 0 - b->b->v));
        if (a->k == K_Add && a->a == b) return a->b;
        if (a->k == K_Add && a->b == b) return a->a;
        if (b->k == K_Add && b->a == a) return mkBin(K_Sub, mkConst(w, 0), b->b);
        if (b->k == K_Add && b->b == a) return mkBin(K_Sub, mkConst(w, 0), b->a);
        if (isC(a, 0) && b->k == K_Sub) return mkBin(K_Sub, b->b, b->a);
        break;
    case K_Mul:
        if (w == 1) return mkBin(K_And, a, b);
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isAll(b)) return mkBin(K_Sub, mkConst(w, 0), a);
        if (isC(b) && a->k == K_Mul && isC(a->b)) return mkBin(K_Mul, a->a, mkConst(w, a->b->v * b->v));
        break;
    case K_UDiv: if (isC(b, 1)) return a; break;
    case K_SDiv: if (isC(b, 1)) return a; break;
    case K_URem: if (isC(b, 1)) return mkConst(w, 0); break;
    case K_SRem: if (isC(b, 1)) return mkConst(w, 0); break;
    case K_Shl: case K_LShr: case K_AShr:
        if (isC(b, 0)) return a;
        if (isC(b) && b->v >= w && k != K_AShr) return mkConst(w, 0);
        if (isC(b) && k == K_Shl) return mkBin(K_Mul, a, mkConst(w, (u128)1 << (int)b->v));
        if (isC(b) && k == K_AShr && b->v < w && (a->k == K_Concat || a->k == K_Or || (a->k == K_Mul && isC(a->b)))) {
            // shifting out the low half of a packed pair
            Expr *x = mkExtract(a, (unsigned)b->v, w - (unsigned)b->v);
            if (x->k != K_Extract || x->a != a) return mkSExt(x, w);
        }
        if (isC(b) && k == K_LShr) return mkZExt(mkExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
        break;
    case K_And:
        if (isC(b, 0)) return b;
        if (isAll(b) || a == b) return a;
        if (isC(b)) { // low mask
            unsigned n = 0; u128 v = b->v;
            while (n < w && ((v >> n) & 1)) ++n;
            if (n > 0 && n < w && (v >> n) == 0) return mkZExt(mkExtract(a, 0, n), w);
            if (a->k == K_And && isC(a->b)) return mkBin(K_And, a->a, mkConst(w, a->b->v & b->v));
        }
        if (w == 1) {
            if (a->k == K_Xor && isC(a->b, 1) && a->a == b) return mkConst(1, 0);
            if (b->k == K_Xor && isC(b->b, 1) && b->a == a) return mkConst(1, 0);
        }
        break;
    case K_Or:
        if (isC(b, 0) || a == b) return a;
        if (isAll(b)) return b;
        if (w > 1) for (int t = 0; t < 2; ++t, std::swap(a, b)) {
            // (y << k) | zext(x) with x narrower than k: a packed pair
            if (a->k != K_Mul || !isC(a->b)) continue;
            u128 m = a->b->v;
            if (m & (m - 1)) continue;
            unsigned n = 0;
            while (!((m >> n) & 1)) ++n;
            if (n == 0) continue;
            bool fits = (b->k == K_ZExt && b->a->w <= n) || (isC(b) && (b->v >> n) == 0) || (b->rng && b->lo >= 0 && n < 63 && (b->hi >> n) == 0);
            if (fits) return mkConcat(mkExtract(a->a, 0, w - n), mkExtract(b, 0, n));
        }
        if (w == 1) {
            if (a->k == K_Xor && isC(a->b, 1) && a->a == b) return mkConst(1, 1);
            if (b->k == K_Xor && isC(b->b, 1) && b->a == a) return mkConst(1, 1);
        }
        break;
    case K_Xor:
        if (isC(b, 0)) return a;
        if (a == b) return mkConst(w, 0);
        if (isC(b) && a->k == K_Xor && isC(a->b)) return mkBin(K_Xor, a->a, mkConst(w, a->b->v ^ b->v));
        if (isAll(b) && w > 1) return mkBin(K_Sub, mkConst(w, maskw(w)), a);
        break;
    case K_Eq:
        if (a == b) return mkConst(1, 1);
        if (w == 1) {
            if (isC(b)) return b->v ? a : mkNot(a);
            return mkNot(mkBin(K_Xor, a, b));
        }
        if (a->rng && b->rng && (a->hi < b->lo || b->hi < a->lo)) return mkConst(1, 0);
        if (isC(b)) {
            if (a->k == K_Add && isC(a->b)) return mkBin(K_Eq, a->a, mkConst(w, b->v - a->b->v));
            if (a->k == K_Sub && isC(a->a)) return mkBin(K_Eq, a->b, mkConst(w, a->a->v - b->v));
            if (a->k == K_ZExt) {
                if (b->v >> a->a->w) return mkConst(1, 0);
                return mkBin(K_Eq, a->a, mkConst(a->a->w, b->v));
            }
            if (a->k == K_SExt) {
                u128 t = b->v & maskw(a->a->w);
                if (((u128)sext128(t, a->a->w) & maskw(w)) != b->v) return mkConst(1, 0);
                return mkBin(K_Eq, a->a, mkConst(a->a->w, t));
            }
            if (a->k == K_Sub && isC(b, 0)) return mkBin(K_Eq, a->a, a->b);
            if (a->k == K_Mul && isC(a->b) && a->b->v != 0 && a->a->rng && w <= 64) { // no wrap: divide
                i128 c = sext128(a->b->v, w), d = sext128(b->v, w);
                i128 p = (i128)a->a->lo * c, q = (i128)a->a->hi * c;
                if (p > q) std::swap(p, q);
                if (p >= smin(w) && q <= smax(w)) {
                    if (d % c) return mkConst(1, 0);
                    return mkBin(K_Eq, a->a, mkConst(w, (u128)(d / c)));
                }
            }
            if (a->k == K_Concat) {
                unsigned lw = a->b->w;
                return mkBin(K_And, mkBin(K_Eq, a->a, mkConst(a->a->w, b->v >> lw)), mkBin(K_Eq, a->b, mkConst(lw, b->v)));
            }
            if (a->k == K_Ite) {
                if (isC(a->b) && !isC(a->b, b->v)) return mkBin(K_And, mkNot(a->a), mkBin(K_Eq, a->c, b));
                if (isC(a->c) && !isC(a->c, b->v)) return mkBin(K_And, a->a, mkBin(K_Eq, a->b, b));
            }
        } else {
            if (a->k == K_Add && b->k == K_Add && isC(a->b) && a->b == b->b) return mkBin(K_Eq, a->a, b->a);
            if (a->k == b->k && (a->k == K_ZExt || a->k == K_SExt) && a->a->w == b->a->w) return mkBin(K_Eq, a->a, b->a);
        }
        break;
    case K_Ult:
        if (a == b) return mkConst(1, 0);
        if (isC(b, 0)) return mkConst(1, 0);
        if (isC(b, 1)) return mkBin(K_Eq, a, mkConst(w, 0));
        if (isC(a, 0)) return mkNot(mkBin(K_Eq, b, a));
        if (w == 1) return mkBin(K_And, mkNot(a), b);
        if (isC(a) && b->k == K_Concat && (a->v & maskw(b->b->w)) == maskw(b->b->w)) return mkBin(K_Ult, mkConst(b->a->w, a->v >> b->b->w), b->a);
        if (isC(b) && a->k == K_Concat && (b->v & maskw(a->b->w)) == 0) return mkBin(K_Ult, a->a, mkConst(a->a->w, b->v >> a->b->w));
        if (a->rng && b->rng) {
            if (a->lo >= 0 && b->lo >= 0) return mkBin(K_Slt, a, b);
            if (a->lo >= 0 && b->hi < 0) return mkConst(1, 1);
            if (a->hi < 0 && b->lo >= 0) return mkConst(1, 0);
            if (a->hi < 0 && b->hi < 0) return mkBin(K_Slt, a, b);
        }
        break;
    case K_Slt: {
        if (a == b) return mkConst(1, 0);
        if (isC(b, 0) && (a->k == K_Xor || a->k == K_And || a->k == K_Or)) // sign bit of a bitwise operation
            return mkBin(a->k, mkBin(K_Slt, a->a, mkConst(w, 0)), mkBin(K_Slt, a->b, mkConst(w, 0)));
        if (a->rng && b->rng) {
            if (a->hi < b->lo) return mkConst(1, 1);
            if (a->lo >= b->hi) return mkConst(1, 0);
        }
        if (w <= 64) {
            // move constants across if nothing wraps
            if (isC(b) && a->k == K_Add && isC(a->b) && a->a->rng) {
                i128 c = sext128(a->b->v, w), d = sext128(b->v, w) - c;
                if ((i128)a->a->lo + c >= smin(w) && (i128)a->a->hi + c <= smax(w) && d >= smin(w) && d <= smax(w))
                    return mkBin(K_Slt, a->a, mkConst(w, (u128)d));
            }
            if (isC(a) && b->k == K_Add && isC(b->b) && b->a->rng) {
                i128 c = sext128(b->b->v, w), d = sext128(a->v, w) - c;
                if ((i128)b->a->lo + c >= smin(w) && (i128)b->a->hi + c <= smax(w) && d >= smin(w) && d <= smax(w))
                    return mkBin(K_Slt, mkConst(w, (u128)d), b->a);
            }
            if (isC(b) && (a->k == K_SExt || a->k == K_ZExt) && a->a->rng && (a->k == K_SExt || a->a->lo >= 0)) {
                i128 d = sext128(b->v, w);
                if (d >= smin(a->a->w) && d <= smax(a->a->w)) return mkBin(K_Slt, a->a, mkConst(a->a->w, (u128)d));
            }
            if (isC(a) && (b->k == K_SExt || b->k == K_ZExt) && b->a->rng && (b->k == K_SExt || b->a->lo >= 0)) {
                i128 d = sext128(a->v, w);
                if (d >= smin(b->a->w) && d <= smax(b->a->w)) return mkBin(K_Slt, mkConst(b->a->w, (u128)d), b->a);
            }
        }
        // canonical: c < x  ==>  !(x < c+1)
        if (isC(a) && sext128(a->v, w) < sext128(maskw(w) >> 1, w)) return mkNot(mkBin(K_Slt, b, mkConst(w, a->v + 1)));
        break;
    }
    default: break;
    }
    return intern(k, rw, a, b, nullptr, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (c->k == K_Xor && isC(c->b, 1)) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return mkNot(c);
        if (isC(a, 1)) return mkBin(K_Or, c, b);
        if (isC(a, 0)) return mkBin(K_And, mkNot(c), b);
        if (isC(b, 1)) return mkBin(K_Or, mkNot(c), a);
        if (isC(b, 0)) return mkBin(K_And, c, a);
    }
    if (a->k == K_Ite && a->a == c) a = a->b;
    if (b->k == K_Ite && b->a == c) b = b->c;
    if (a == b) return a;
    return intern(K_Ite, a->w, c, a, b, 0);
}

Expr *mkZExt(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return mkConst(w, e->v);
    if (e->k == K_ZExt) return mkZExt(e->a, w);
    if (e->k == K_Ite && isC(e->b) && isC(e->c)) return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
    if (e->w > 1 && e->rng && e->lo >= 0) return mkSExt(e, w);
    return intern(K_ZExt, w, e, nullptr, nullptr, 0);
}
Expr *mkSExt(Expr *e, unsigned w) {
    if (w == e->w) return e;
    if (isC(e)) return mkConst(w, (u128)sext128(e->v, e->w));
    if (e->k == K_SExt) return mkSExt(e->a, w);
    if (e->k == K_ZExt) return mkZExt(e->a, w);
    if (e->k == K_Ite && isC(e->b) && isC(e->c)) return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    // distribute over non-wrapping additions of constants and multiplications so that wide and narrow
    // arithmetic share terms
    if ((e->k == K_Add || e->k == K_Sub || e->k == K_Mul) && e->w <= 64 && e->a->rng && e->b->rng) {
        i128 l, h;
        if (e->k == K_Add) { l = (i128)e->a->lo + e->b->lo; h = (i128)e->a->hi + e->b->hi; }
        else if (e->k == K_Sub) { l = (i128)e->a->lo - e->b->hi; h = (i128)e->a->hi - e->b->lo; }
        else {
            l = h = (i128)e->a->lo * e->b->lo;
            for (i64 x : {e->a->lo, e->a->hi}) for (i64 y : {e->b->lo, e->b->hi}) {
                i128 p = (i128)x * y; if (p < l) l = p; if (p > h) h = p;
            }
        }
        if (l >= smin(e->w) && h <= smax(e->w)) return mkBin(e->k, mkSExt(e->a, w), mkSExt(e->b, w));
    }
    return intern(K_SExt, w, e, nullptr, nullptr, 0);
}
Expr *mkExtract(Expr *e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    if (isC(e)) return mkConst(w, e->v >> off);
    switch (e->k) {
    case K_Extract: return mkExtract(e->a, off + (unsigned)e->v, w);
    case K_Concat: {
        unsigned lw = e->b->w;
        if (off + w <= lw) return mkExtract(e->b, off, w);
        if (off >= lw) return mkExtract(e->a, off - lw, w);
        return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
    }
    case K_ZExt: case K_SExt:
        if (off + w <= e->a->w) return mkExtract(e->a, off, w);
        if (off >= e->a->w && e->k == K_ZExt) return mkConst(w, 0);
        if (off == 0) return e->k == K_ZExt ? mkZExt(e->a, w) : mkSExt(e->a, w);
        if (e->k == K_ZExt) return mkZExt(mkExtract(e->a, off, e->a->w - off), w);
        break;
    case K_Add: case K_Sub: case K_Mul:
        if (off == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case K_And: case K_Or: case K_Xor:
        return mkBin(e->k, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case K_SRem: case K_SDiv: break;
    default: break;
    }
    if (e->k == K_Mul && off > 0 && isC(e->b) && !(e->b->v & (e->b->v - 1))) {
        unsigned k = 0;
        while (!((e->b->v >> k) & 1)) ++k;
        if (k > 0) {
            if (off + w <= k) return mkConst(w, 0);
            if (off >= k) return mkExtract(e->a, off - k, w);
            return mkConcat(mkExtract(e->a, 0, off + w - k), mkConst(k - off, 0));
        }
    }
    switch (e->k) {
    case K_Ite:
        return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
    default: break;
    }
    // sign bit of a ranged value
    if (w == 1 && off == e->w - 1u && e->rng) {
        if (e->lo >= 0) return mkConst(1, 0);
        if (e->hi < 0) return mkConst(1, 1);
        return mkBin(K_Slt, e, mkConst(e->w, 0));
    }
    if (off > 0 && e->rng && e->lo >= 0 && off < 63 && (e->hi >> off) == 0) return mkConst(w, 0);
    return intern(K_Extract, w, e, nullptr, nullptr, off);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (isC(hi) && isC(lo)) return mkConst(w, (hi->v << lo->w) | lo->v);
    if (isC(hi, 0)) return mkZExt(lo, w);
    if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->v == lo->v + lo->w)
        return mkExtract(lo->a, (unsigned)lo->v, w);
    if (hi->k == K_Extract && hi->a == lo && hi->v == lo->w) return mkExtract(lo, 0, w);
    if (hi->k == K_Extract && hi->v >= lo->w && mkExtract(hi->a, (unsigned)hi->v - lo->w, lo->w) == lo)
        return mkExtract(hi->a, (unsigned)hi->v - lo->w, w);
    if (hi->k == K_Extract && lo->k == K_Concat && hi->v >= lo->a->w && mkExtract(hi->a, (unsigned)hi->v - lo->a->w, lo->a->w) == lo->a)
        return mkConcat(mkExtract(hi->a, (unsigned)hi->v - lo->a->w, lo->a->w + hi->w), lo->b);
    if (hi->k == K_Ite && lo->k == K_Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (lo->k == K_Concat && hi->k == K_Extract) {
        Expr *m = lo->a;
        if (m->k == K_Extract && m->a == hi->a && hi->v == m->v + m->w)
            return mkConcat(mkExtract(m->a, (unsigned)m->v, m->w + hi->w), lo->b);
    }
    return intern(K_Concat, w, hi, lo, nullptr, 0);
}

u128 evalExpr(Expr *e) {
    if (e->k == K_Const) return e->v;
    if (e->stamp == g_model_stamp) return e->ev;
    u128 r;
    switch (e->k) {
    case K_Sym: r = (u128)g_model[(size_t)e->v] & maskw(e->w); break;
    case K_Concat: r = (evalExpr(e->a) << e->b->w) | evalExpr(e->b); break;
    case K_Extract: r = (evalExpr(e->a) >> (int)e->v) & maskw(e->w); break;
    case K_ZExt: r = evalExpr(e->a); break;
    case K_SExt: r = (u128)sext128(evalExpr(e->a), e->a->w) & maskw(e->w); break;
    case K_Ite: r = evalExpr(e->a) ? evalExpr(e->b) : evalExpr(e->c); break;
    default: r = foldBin(e->k, e->a->w, evalExpr(e->a), evalExpr(e->b)); break;
    }
    e->ev = r;
    e->stamp = g_model_stamp;
    return r;
}

std::string exprStr(Expr *e, int depth) {
    static const char *nm[] = {"const", "sym", "+", "-", "*", "u/", "s/", "u%", "s%", "<<", "l>>", "a>>", "&", "|", "^", "++", "ext", "zx", "sx", "==", "u<", "s<", "ite"};
    std::ostringstream o;
    if (e->k == K_Const) { o << (long long)sext128(e->v, e->w); return o.str(); }
    if (e->k == K_Sym) { o << "v" << (u64)e->v << ":" << (int)e->w; return o.str(); }
    if (depth == 0) return "..";
    o << "(" << nm[e->k];
    if (e->k == K_Extract) o << "@" << (u64)e->v << ":" << (int)e->w;
    if (e->k == K_ZExt || e->k == K_SExt) o << (int)e->w;
    if (e->a) o << " " << exprStr(e->a, depth - 1);
    if (e->b) o << " " << exprStr(e->b, depth - 1);
    if (e->c) o << " " << exprStr(e->c, depth - 1);
    o << ")";
    return o.str();
}
