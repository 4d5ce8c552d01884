// A symbolic executor for LLVM IR: bit-precise, byte-addressed memory, C++ exceptions, Z3 back end.
//
// States are Unix processes: when both sides of a branch are feasible (each side decided by a solver query over the
// path condition) the process forks.  Counters live in shared memory.  Exit status: 0 exploration complete and no
// violation, 1 violation, 3 engine error / incomplete exploration (never reported as success).
#include "expr.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <atomic>
#include <cmath>
#include <csignal>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
using namespace llvm;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// ---------------------------------------------------------------------------------------------- shared state
constexpr int MAXID = 512, MAXBB = 1 << 20;
struct IdEntry {
    std::atomic<u64> count;   // times executed
    std::atomic<u64> sym;     // times the condition was symbolic, i.e. decided by the solver
    std::atomic<int> kind;    // 0 free, 1 check, 2 reach, 3 need
    char name[112];
};
struct Shared {
    std::atomic<u64> paths, pruned, forks, queries, sat, unsat, solver_ns, instrs, concretized, queries_check, queries_int;
    std::atomic<u64> samples, maxdepth, known_hits, maxquery_ns;
    std::atomic<int> stop;       // 1 violation found, 2 engine error, 3 timeout
    std::atomic<int> running;
    std::atomic<int> lock;
    char msg[4096];
    char vid[256];
    IdEntry ids[MAXID];
    std::atomic<uint8_t> cov[MAXBB];
};
static Shared *S;

static std::string g_out;
static bool g_trace = false;
static double g_slow = 0;
static u64 g_seed = 1;
static u64 g_max_samples = 20;
static int g_pipe[2];
static bool g_have_token = false;
static std::set<std::string> g_known;
static std::map<std::string, i64> g_params;

static void lockS() { int z = 0; while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); } }
static void unlockS() { S->lock = 0; }

static u64 l_instrs = 0;
static void flushCounters() { S->instrs += l_instrs; l_instrs = 0; }
[[noreturn]] static void endProcess() {
    flushCounters();
    if (g_have_token) {
        char c = 1;
        if (write(g_pipe[1], &c, 1) != 1) {}
    }
    _exit(0);
}
static std::string curStack();
[[noreturn]] static void engineError(const std::string &m) {
    lockS();
    if (!S->stop) {
        std::string full = m + "\n" + curStack();
        snprintf(S->msg, sizeof S->msg, "%s", full.c_str());
        S->stop = 2;
    }
    unlockS();
    endProcess();
}

// ---------------------------------------------------------------------------------------------- solver
static Z3_context Z;
static Z3_solver ZS;
static std::vector<Z3_ast> g_syms;
static std::vector<Z3_func_decl> g_symdecl;
static std::vector<unsigned> g_symw;

static Z3_ast toBV(Expr *e);
static unsigned narrowWidth(Expr *e, Expr *a, Expr *b);
static Z3_ast narrowed(Expr *e, unsigned k);
static Z3_ast toBool(Expr *e);
static Z3_ast bvnum(unsigned w, u128 v) {
    if (w <= 64) { Z3_ast r = Z3_mk_unsigned_int64(Z, (u64)v, Z3_mk_bv_sort(Z, w)); Z3_inc_ref(Z, r); return r; }
    char buf[64];
    int n = 0;
    char tmp[64];
    if (!v) tmp[n++] = '0';
    while (v) { tmp[n++] = (char)('0' + (int)(v % 10)); v /= 10; }
    for (int i = 0; i < n; ++i) buf[i] = tmp[n - 1 - i];
    buf[n] = 0;
    return Z3_mk_numeral(Z, buf, Z3_mk_bv_sort(Z, w));
}
static Z3_ast toBool(Expr *e) {
    if (e->zbool) return (Z3_ast)e->zbool;
    Z3_ast r;
    switch (e->k) {
    case K_Const: r = e->v ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case K_Eq:
        r = e->a->w == 1 ? Z3_mk_iff(Z, toBool(e->a), toBool(e->b)) : Z3_mk_eq(Z, toBV(e->a), toBV(e->b));
        break;
    case K_Ult: r = Z3_mk_bvult(Z, toBV(e->a), toBV(e->b)); break;
    case K_Slt: {
        unsigned k = narrowWidth(nullptr, e->a, e->b);
        r = k ? Z3_mk_bvslt(Z, narrowed(e->a, k), narrowed(e->b, k)) : Z3_mk_bvslt(Z, toBV(e->a), toBV(e->b));
        break;
    }
    case K_And: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(Z, 2, x); break; }
    case K_Or: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(Z, 2, x); break; }
    case K_Xor:
        if (e->b->k == K_Const) r = e->b->v ? Z3_mk_not(Z, toBool(e->a)) : toBool(e->a);
        else r = Z3_mk_xor(Z, toBool(e->a), toBool(e->b));
        break;
    case K_Ite: r = Z3_mk_ite(Z, toBool(e->a), toBool(e->b), toBool(e->c)); break;
    default: r = Z3_mk_eq(Z, toBV(e), bvnum(1, 1)); break;
    }
    Z3_inc_ref(Z, r);
    e->zbool = r;
    return r;
}
static unsigned bitsFor(i64 lo, i64 hi) {
    unsigned k = 1;
    while (k < 64 && (lo < smin(k) || hi > smax(k))) ++k;
    return k;
}
static Z3_ast keepZ(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
// width that holds the operands and the result of an arithmetic operation, if smaller than the expression's
static unsigned narrowWidth(Expr *e, Expr *a, Expr *b) {
    auto rg = [](Expr *x, i64 &lo, i64 &hi) {
        if (x->k == K_Const) { if (x->w > 64) return false; lo = hi = (i64)sext128(x->v, x->w); return true; }
        if (!x->rng) return false;
        lo = x->lo; hi = x->hi;
        return true;
    };
    i64 lo, hi;
    unsigned k = 1;
    for (Expr *x : {e, a, b}) {
        if (!x) continue;
        if (!rg(x, lo, hi)) return 0;
        k = std::max(k, bitsFor(lo, hi));
    }
    return k + 4 < a->w ? k : 0;
}
static Z3_ast narrowed(Expr *e, unsigned k) { return keepZ(Z3_mk_extract(Z, k - 1, 0, toBV(e))); }
static Z3_ast toBV(Expr *e) {
    if (e->zbv) return (Z3_ast)e->zbv;
    Z3_ast r;
    if (e->k == K_Mul || e->k == K_SDiv || e->k == K_SRem) {
        // results of these operations on k-bit signed values whose exact result fits k bits
        unsigned k = narrowWidth(e, e->a, e->b);
        if (k && e->k != K_Mul && !(e->b->k == K_Const && e->b->v)) k = 0;
        if (k) {
            Z3_ast x = narrowed(e->a, k), y = narrowed(e->b, k);
            Z3_ast n = keepZ(e->k == K_Mul ? Z3_mk_bvmul(Z, x, y) : e->k == K_SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y));
            r = Z3_mk_sign_ext(Z, e->w - k, n);
            Z3_inc_ref(Z, r);
            e->zbv = r;
            return r;
        }
    }
    if (e->w == 1 && e->k != K_Sym && e->k != K_Extract && e->k != K_Const) {
        r = Z3_mk_ite(Z, toBool(e), bvnum(1, 1), bvnum(1, 0));
    } else switch (e->k) {
    case K_Const: r = bvnum(e->w, e->v); break;
    case K_Sym: r = g_syms[(size_t)e->v]; break;
    case K_Add: r = Z3_mk_bvadd(Z, toBV(e->a), toBV(e->b)); break;
    case K_Sub: r = Z3_mk_bvsub(Z, toBV(e->a), toBV(e->b)); break;
    case K_Mul: r = Z3_mk_bvmul(Z, toBV(e->a), toBV(e->b)); break;
    case K_UDiv: r = Z3_mk_bvudiv(Z, toBV(e->a), toBV(e->b)); break;
    case K_SDiv: r = Z3_mk_bvsdiv(Z, toBV(e->a), toBV(e->b)); break;
    case K_URem: r = Z3_mk_bvurem(Z, toBV(e->a), toBV(e->b)); break;
    case K_SRem: r = Z3_mk_bvsrem(Z, toBV(e->a), toBV(e->b)); break;
    case K_Shl: r = Z3_mk_bvshl(Z, toBV(e->a), toBV(e->b)); break;
    case K_LShr: r = Z3_mk_bvlshr(Z, toBV(e->a), toBV(e->b)); break;
    case K_AShr: r = Z3_mk_bvashr(Z, toBV(e->a), toBV(e->b)); break;
    case K_And: r = Z3_mk_bvand(Z, toBV(e->a), toBV(e->b)); break;
    case K_Or: r = Z3_mk_bvor(Z, toBV(e->a), toBV(e->b)); break;
    case K_Xor: r = Z3_mk_bvxor(Z, toBV(e->a), toBV(e->b)); break;
    case K_Concat: r = Z3_mk_concat(Z, toBV(e->a), toBV(e->b)); break;
    case K_Extract: r = Z3_mk_extract(Z, (unsigned)e->v + e->w - 1, (unsigned)e->v, toBV(e->a)); break;
    case K_ZExt: r = Z3_mk_zero_ext(Z, e->w - e->a->w, toBV(e->a)); break;
    case K_SExt: r = Z3_mk_sign_ext(Z, e->w - e->a->w, toBV(e->a)); break;
    case K_Ite: r = Z3_mk_ite(Z, toBool(e->a), toBV(e->b), toBV(e->c)); break;
    default: abort();
    }
    Z3_inc_ref(Z, r);
    e->zbv = r;
    return r;
}


// ---- linear integer view of the expressions (exact: wrap-around is encoded with quotients) ----
static Z3_solver ZI;
static Z3_ast kp(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static int g_mode = 0; // 0 auto, 1 bit-vectors only
static bool g_int_exact = true; // every asserted fact has an integer view
static std::vector<Z3_ast> g_sides; // definitions created inside a push
static u64 g_nfresh = 0;
struct IntView { Z3_ast t; bool ok; };
static std::unordered_map<Expr *, IntView> g_iv, g_ib;
static std::vector<Z3_ast> g_isym;
static Z3_ast inum(i128 v) {
    bool neg = v < 0;
    u128 x = neg ? (u128)0 - (u128)v : (u128)v;
    char tmp[64], buf[64];
    int n = 0, m = 0;
    if (!x) tmp[n++] = '0';
    while (x) { tmp[n++] = (char)('0' + (int)(x % 10)); x /= 10; }
    if (neg) buf[m++] = '-';
    for (int i = 0; i < n; ++i) buf[m++] = tmp[n - 1 - i];
    buf[m] = 0;
    return kp(Z3_mk_numeral(Z, buf, Z3_mk_int_sort(Z)));
}
static Z3_ast iadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return kp(Z3_mk_add(Z, 2, x)); }
static Z3_ast isub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return kp(Z3_mk_sub(Z, 2, x)); }
static Z3_ast imul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return kp(Z3_mk_mul(Z, 2, x)); }
static Z3_ast ifresh() {
    Z3_symbol s = Z3_mk_string_symbol(Z, ("q" + std::to_string(g_nfresh++)).c_str());
    Z3_ast v = Z3_mk_const(Z, s, Z3_mk_int_sort(Z));
    Z3_inc_ref(Z, v);
    return v;
}
static void iside(Z3_ast a) { Z3_inc_ref(Z, a); g_sides.push_back(a); }
static i128 pow2(unsigned k) { return (i128)1 << k; }
static bool irange(Expr *e, i128 &lo, i128 &hi) {
    if (e->k == K_Const) { lo = hi = sext128(e->v, e->w); return lo > -pow2(120) && lo < pow2(120); }
    if (e->rng) { lo = e->lo; hi = e->hi; return true; }
    if (e->w <= 64) { lo = smin(e->w); hi = smax(e->w); return true; }
    // wide values: follow the structure, within +-2^120
    i128 al, ah, bl, bh, lim = pow2(120);
    auto in = [&]() { return lo >= -lim && hi <= lim && lo >= -pow2(e->w - 2) && hi < pow2(e->w - 2); };
    switch (e->k) {
    case K_SExt: return irange(e->a, lo, hi);
    case K_ZExt:
        if (e->a->w > 64 || !irange(e->a, lo, hi)) return false;
        if (lo < 0) { lo = 0; hi = pow2(e->a->w) - 1; }
        return true;
    case K_Add: case K_Sub:
        if (!irange(e->a, al, ah) || !irange(e->b, bl, bh)) return false;
        if (e->k == K_Add) { lo = al + bl; hi = ah + bh; } else { lo = al - bh; hi = ah - bl; }
        return in();
    case K_Mul: {
        if (!irange(e->a, al, ah) || !irange(e->b, bl, bh)) return false;
        i128 p[4][2] = {{al, bl}, {al, bh}, {ah, bl}, {ah, bh}};
        for (int i = 0; i < 4; ++i) {
            i128 x;
            if (__builtin_mul_overflow(p[i][0], p[i][1], &x)) return false;
            if (i == 0 || x < lo) lo = x;
            if (i == 0 || x > hi) hi = x;
        }
        return in();
    }
    case K_SDiv:
        if (!irange(e->a, al, ah)) return false;
        hi = ah > -al ? ah : -al;
        lo = -hi;
        return in();
    case K_Ite:
        if (!irange(e->b, al, ah) || !irange(e->c, bl, bh)) return false;
        lo = al < bl ? al : bl;
        hi = ah > bh ? ah : bh;
        return in();
    default: return false;
    }
}
// reduce x (exact value within [lo,hi]) modulo 2^w to the signed range
static Z3_ast iwrap(Z3_ast x, i128 lo, i128 hi, unsigned w) {
    if (w > 120) return x; // only reached with ranges below 2^121
    i128 mn = -pow2(w - 1), mx = pow2(w - 1) - 1;
    if (lo >= mn && hi <= mx) return x;
    Z3_ast k = ifresh();
    Z3_ast r = isub(x, imul(inum(pow2(w)), k));
    iside(kp(Z3_mk_ge(Z, r, inum(mn))));
    iside(kp(Z3_mk_le(Z, r, inum(mx))));
    return r;
}
// floor quotient and remainder by a positive constant
static void ifloor(Z3_ast x, i128 c, Z3_ast &q, Z3_ast &r) {
    q = ifresh();
    r = isub(x, imul(inum(c), q));
    iside(kp(Z3_mk_ge(Z, r, inum(0))));
    iside(kp(Z3_mk_lt(Z, r, inum(c))));
}
static IntView toInt(Expr *e);
static IntView toIntBool(Expr *e);
static IntView iuns(Expr *e) { // unsigned value
    IntView a = toInt(e);
    i128 lo, hi;
    if (!a.ok || !irange(e, lo, hi)) return {nullptr, false};
    if (lo >= 0) return a;
    if (e->w > 64) return {nullptr, false};
    return {kp(Z3_mk_ite(Z, kp(Z3_mk_lt(Z, a.t, inum(0))), iadd(a.t, inum(pow2(e->w))), a.t)), true};
}
static const IntView NOINT{nullptr, false};
static IntView toInt1(Expr *e) {
    i128 al, ah, bl, bh, lo, hi;
    if (e->k == K_Const) return {inum(sext128(e->v, e->w)), true};
    if (e->w == 1 && e->k != K_Sym) {
        IntView b = toIntBool(e);
        if (!b.ok) return NOINT;
        return {kp(Z3_mk_ite(Z, b.t, inum(-1), inum(0))), true};
    }
    switch (e->k) {
    case K_Sym: return {g_isym[(size_t)e->v], true};
    case K_Add: case K_Sub: case K_Mul: {
        IntView a = toInt(e->a), b = toInt(e->b);
        if (!a.ok || !b.ok || !irange(e->a, al, ah) || !irange(e->b, bl, bh)) return NOINT;
        if (e->k == K_Mul && e->a->k != K_Const && e->b->k != K_Const) {
            if (ah - al > bh - bl) { std::swap(a, b); std::swap(al, bl); std::swap(ah, bh); }
            if (ah - al > 16 || e->w > 64) return NOINT;
            i128 p[4] = {al * bl, al * bh, ah * bl, ah * bh};
            lo = hi = p[0];
            for (i128 x : p) { if (x < lo) lo = x; if (x > hi) hi = x; }
            if (lo < (i128)smin(e->w) || hi > (i128)smax(e->w)) return NOINT;
            Z3_ast t = kp(imul(inum(ah), b.t));
            for (i128 k = ah - 1; k >= al; --k) t = kp(Z3_mk_ite(Z, kp(Z3_mk_eq(Z, a.t, inum(k))), k == 0 ? inum(0) : k == 1 ? b.t : imul(inum(k), b.t), t));
            return {t, true};
        }
        Z3_ast t;
        if (e->k == K_Add) { t = iadd(a.t, b.t); lo = al + bl; hi = ah + bh; }
        else if (e->k == K_Sub) { t = isub(a.t, b.t); lo = al - bh; hi = ah - bl; }
        else {
            t = imul(a.t, b.t);
            i128 p[4][2] = {{al, bl}, {al, bh}, {ah, bl}, {ah, bh}};
            for (int i = 0; i < 4; ++i) {
                i128 x;
                if (__builtin_mul_overflow(p[i][0], p[i][1], &x)) return NOINT;
                if (i == 0 || x < lo) lo = x;
                if (i == 0 || x > hi) hi = x;
            }
        }
        return {iwrap(t, lo, hi, e->w), true};
    }
    case K_SDiv: case K_SRem: {
        if (e->b->k != K_Const) {
            // a divisor with few values; a zero divisor is excluded before the division
            IntView b = toInt(e->b);
            if (!b.ok || !irange(e->b, bl, bh) || bh - bl > 16) return NOINT;
            Z3_ast t = nullptr;
            for (i128 k = bh; k >= bl; --k) {
                if (k == 0) continue;
                IntView x = toInt(mkBin(e->k, e->a, mkConst(e->w, (u128)k)));
                if (!x.ok) return NOINT;
                t = t ? kp(Z3_mk_ite(Z, kp(Z3_mk_eq(Z, b.t, inum(k))), x.t, t)) : x.t;
            }
            if (!t) return NOINT;
            return {t, true};
        }
        i128 c = sext128(e->b->v, e->w);
        if (c == 0) return NOINT;
        IntView a = toInt(e->a);
        if (!a.ok || !irange(e->a, al, ah)) return NOINT;
        i128 m = c < 0 ? -c : c;
        // |a| = m*q + r
        Z3_ast q, r;
        if (al >= 0) ifloor(a.t, m, q, r);
        else if (ah <= 0) { ifloor(isub(inum(0), a.t), m, q, r); q = isub(inum(0), q); r = isub(inum(0), r); }
        else {
            Z3_ast neg = kp(Z3_mk_lt(Z, a.t, inum(0)));
            ifloor(kp(Z3_mk_ite(Z, neg, isub(inum(0), a.t), a.t)), m, q, r);
            q = kp(Z3_mk_ite(Z, neg, isub(inum(0), q), q));
            r = kp(Z3_mk_ite(Z, neg, isub(inum(0), r), r));
        }
        if (e->k == K_SRem) return {r, true};
        if (c < 0) q = isub(inum(0), q);
        i128 mxa = ah > -al ? ah : -al;
        return {iwrap(q, -mxa, mxa, e->w), true};
    }
    case K_UDiv: case K_URem: {
        if (e->b->k != K_Const || e->b->v == 0 || e->w > 64) return NOINT;
        IntView a = iuns(e->a);
        if (!a.ok) return NOINT;
        Z3_ast q, r;
        ifloor(a.t, (i128)e->b->v, q, r);
        return {iwrap(e->k == K_UDiv ? q : r, 0, pow2(e->w) - 1, e->w), true};
    }
    case K_Shl: {
        if (e->b->k != K_Const || e->b->v >= e->w || e->w > 64) return NOINT;
        IntView a = toInt(e->a);
        if (!a.ok || !irange(e->a, al, ah)) return NOINT;
        i128 f = pow2((unsigned)e->b->v);
        if (e->b->v > 60) return NOINT;
        return {iwrap(imul(inum(f), a.t), al * f, ah * f, e->w), true};
    }
    case K_LShr: case K_AShr: {
        if (e->b->k != K_Const || e->b->v >= e->w) return NOINT;
        if (e->b->v == 0) return toInt(e->a);
        IntView a = e->k == K_LShr ? iuns(e->a) : toInt(e->a);
        if (!a.ok) return NOINT;
        Z3_ast q, r;
        ifloor(a.t, pow2((unsigned)e->b->v), q, r);
        return {q, true};
    }
    case K_And: {
        if (e->b->k != K_Const) return NOINT;
        u128 m = e->b->v;
        unsigned k = 0;
        while ((m >> k) & 1) ++k;
        if (k == 0 || (m >> k) != 0 || k >= e->w) return NOINT;
        IntView a = toInt(e->a);
        if (!a.ok) return NOINT;
        Z3_ast q, r;
        ifloor(a.t, pow2(k), q, r);
        return {r, true};
    }
    case K_Concat: {
        IntView a = toInt(e->a), b = iuns(e->b);
        if (!a.ok || !b.ok) return NOINT;
        return {iadd(imul(inum(pow2(e->b->w)), a.t), b.t), true};
    }
    case K_Extract: {
        IntView a = toInt(e->a);
        if (!a.ok || !irange(e->a, al, ah)) return NOINT;
        Z3_ast t = a.t;
        if (e->v > 0) {
            Z3_ast q, r;
            ifloor(t, pow2((unsigned)e->v), q, r);
            t = q;
            al >>= (unsigned)e->v;
            ah >>= (unsigned)e->v;
        }
        return {iwrap(t, al, ah, e->w), true};
    }
    case K_ZExt: return e->a->w == 1 ? ([&]() -> IntView { IntView b = toIntBool(e->a); return b.ok ? IntView{kp(Z3_mk_ite(Z, b.t, inum(1), inum(0))), true} : NOINT; })() : iuns(e->a);
    case K_SExt: return toInt(e->a);
    case K_Ite: {
        IntView c = toIntBool(e->a), a = toInt(e->b), b = toInt(e->c);
        if (!c.ok || !a.ok || !b.ok) return NOINT;
        return {kp(Z3_mk_ite(Z, c.t, a.t, b.t)), true};
    }
    default: return NOINT;
    }
}
static IntView toInt(Expr *e) {
    auto it = g_iv.find(e);
    if (it != g_iv.end()) return it->second;
    IntView v = toInt1(e);
    if (v.ok) {
        Z3_inc_ref(Z, v.t);
        // a range known from the structure is implied, but stating it helps
    }
    g_iv[e] = v;
    return v;
}
static IntView toIntBool1(Expr *e) {
    switch (e->k) {
    case K_Const: return {e->v ? kp(Z3_mk_true(Z)) : kp(Z3_mk_false(Z)), true};
    case K_Eq: {
        if (e->a->w == 1) {
            IntView a = toIntBool(e->a), b = toIntBool(e->b);
            return a.ok && b.ok ? IntView{kp(Z3_mk_iff(Z, a.t, b.t)), true} : NOINT;
        }
        IntView a = toInt(e->a), b = toInt(e->b);
        return a.ok && b.ok ? IntView{kp(Z3_mk_eq(Z, a.t, b.t)), true} : NOINT;
    }
    case K_Ult: {
        IntView a = iuns(e->a), b = iuns(e->b);
        return a.ok && b.ok ? IntView{kp(Z3_mk_lt(Z, a.t, b.t)), true} : NOINT;
    }
    case K_Slt: {
        IntView a = toInt(e->a), b = toInt(e->b);
        return a.ok && b.ok ? IntView{kp(Z3_mk_lt(Z, a.t, b.t)), true} : NOINT;
    }
    case K_And: case K_Or: case K_Xor: {
        IntView a = toIntBool(e->a), b = toIntBool(e->b);
        if (!a.ok || !b.ok) return NOINT;
        Z3_ast x[2] = {a.t, b.t};
        return {e->k == K_And ? kp(Z3_mk_and(Z, 2, x)) : e->k == K_Or ? kp(Z3_mk_or(Z, 2, x)) : kp(Z3_mk_xor(Z, a.t, b.t)), true};
    }
    case K_Ite: {
        IntView c = toIntBool(e->a), a = toIntBool(e->b), b = toIntBool(e->c);
        return a.ok && b.ok && c.ok ? IntView{kp(Z3_mk_ite(Z, c.t, a.t, b.t)), true} : NOINT;
    }
    case K_Extract: {
        IntView a = toInt(e->a);
        if (!a.ok) return NOINT;
        Z3_ast t = a.t, q, r;
        if (e->v > 0) { ifloor(t, pow2((unsigned)e->v), q, r); t = q; }
        ifloor(t, 2, q, r);
        return {kp(Z3_mk_eq(Z, r, inum(1))), true};
    }
    default: return NOINT;
    }
}
static IntView toIntBool(Expr *e) {
    auto it = g_ib.find(e);
    if (it != g_ib.end()) return it->second;
    IntView v = e->w == 1 ? toIntBool1(e) : NOINT;
    if (v.ok) Z3_inc_ref(Z, v.t);
    g_ib[e] = v;
    return v;
}
static void flushSides() {
    for (auto a : g_sides) Z3_solver_assert(Z, ZI, a);
    g_sides.clear();
}
static void readModel(Z3_solver s, bool ints, std::vector<u64> *out) {
    Z3_model m = Z3_solver_get_model(Z, s);
    Z3_model_inc_ref(Z, m);
    *out = g_model;
    for (size_t i = 0; i < g_syms.size(); ++i) {
        Z3_ast v = Z3_model_get_const_interp(Z, m, ints ? Z3_get_app_decl(Z, Z3_to_app(Z, g_isym[i])) : g_symdecl[i]);
        u64 x;
        int64_t y;
        if (!v) continue;
        if (!ints) { if (Z3_get_numeral_uint64(Z, v, &x)) (*out)[i] = x; }
        else if (Z3_get_numeral_int64(Z, v, &y)) (*out)[i] = (u64)y & (u64)maskw(g_symw[i]);
        else if (Z3_get_numeral_uint64(Z, v, &x)) (*out)[i] = x & (u64)maskw(g_symw[i]);
    }
    Z3_model_dec_ref(Z, m);
}

static std::unordered_map<Expr *, bool> g_facts; // conditions decided on this path
static u64 g_depth = 0;
static void addFact(Expr *c, bool v) {
    while (c->k == K_Xor && c->b->k == K_Const) { if (c->b->v) v = !v; c = c->a; }
    if (!g_facts.emplace(c, v).second) return;
    if (v && c->k == K_And) { addFact(c->a, true); addFact(c->b, true); }
    if (!v && c->k == K_Or) { addFact(c->a, false); addFact(c->b, false); }
    if (v && c->k == K_Eq && c->b->k == K_Const) {}
}
static int lookupFact(Expr *c) {
    bool flip = false;
    while (c->k == K_Xor && c->b->k == K_Const) { if (c->b->v) flip = !flip; c = c->a; }
    auto it = g_facts.find(c);
    if (it == g_facts.end()) return -1;
    return it->second != flip;
}
static pid_t g_super;
static void checkStop() {
    if (S->stop) endProcess();
    if (kill(g_super, 0) != 0) _exit(0); // the supervisor is gone
}
static std::vector<Expr *> g_bvpend; // facts not yet asserted to the bit-vector solver
static void flushBV() {
    for (auto *d : g_bvpend) Z3_solver_assert(Z, ZS, toBool(d));
    g_bvpend.clear();
}
// Is PC && cond satisfiable?  If so the model is stored in out.
static bool querySat(Expr *cond, std::vector<u64> *out) {
    checkStop();
    double t0 = now();
    Z3_lbool r = Z3_L_UNDEF;
    if (g_mode == 0) {
        IntView c = toIntBool(cond);
        flushSides();
        if (c.ok) {
            Z3_solver_push(Z, ZI);
            Z3_solver_assert(Z, ZI, c.t);
            r = Z3_solver_check(Z, ZI);
            if (r == Z3_L_TRUE) {
                if (!g_int_exact) r = Z3_L_UNDEF; // some facts have no integer view: only unsatisfiability carries over
                else if (out) {
                    readModel(ZI, true, out);
                    // the integer view must agree with the bit-vector semantics
                    g_model.swap(*out);
                    ++g_model_stamp;
                    bool good = evalExpr(cond) != 0;
                    g_model.swap(*out);
                    ++g_model_stamp;
                    if (!good) engineError("integer view disagrees with bit-vector semantics on " + exprStr(cond, 8));
                }
            }
            Z3_solver_pop(Z, ZI, 1);
            if (r == Z3_L_UNDEF) checkStop();
            else ++S->queries_int;
        }
    }
    if (r == Z3_L_UNDEF) {
        flushBV();
        Z3_solver_push(Z, ZS);
        Z3_solver_assert(Z, ZS, toBool(cond));
        r = Z3_solver_check(Z, ZS);
        if (r == Z3_L_TRUE && out) readModel(ZS, false, out);
        Z3_solver_pop(Z, ZS, 1);
    }
    u64 ns = (u64)((now() - t0) * 1e9);
    if (g_slow > 0 && ns > g_slow * 1e9) fprintf(stderr, "SLOW %.2fs %s\n%s\n%s", (double)ns * 1e-9, r == Z3_L_TRUE ? "sat" : "unsat", exprStr(cond, 14).c_str(), curStack().c_str());
    ++S->queries;
    S->solver_ns += ns;
    u64 mx = S->maxquery_ns;
    if (ns > mx) S->maxquery_ns = ns;
    if (r == Z3_L_UNDEF) engineError(std::string("solver returned unknown: ") + Z3_solver_get_reason_unknown(Z, ZS));
    if (r == Z3_L_TRUE) { ++S->sat; return true; }
    ++S->unsat;
    return false;
}
static void setModel(std::vector<u64> &m) {
    g_model.swap(m);
    ++g_model_stamp;
}
static void assertPC(Expr *c, bool v) {
    Expr *d = v ? c : mkNot(c);
    g_bvpend.push_back(d);
    if (g_mode == 0) {
        IntView iv = toIntBool(d);
        flushSides();
        if (iv.ok) Z3_solver_assert(Z, ZI, iv.t);
        else g_int_exact = false;
    }
    addFact(c, v);
}
static void onChild(bool token) {
    g_have_token = token;
    l_instrs = 0;
}
// Fork into two states; returns true in the child.
static bool doFork() {
    ++S->forks;
    ++g_depth;
    if (g_depth > S->maxdepth) S->maxdepth = g_depth;
    flushCounters();
    char c;
    ssize_t n = read(g_pipe[0], &c, 1);
    bool token = n == 1;
    pid_t p;
    for (int tries = 0;; ++tries) {
        p = fork();
        if (p >= 0) break;
        if (tries > 50) { g_have_token = g_have_token || token; engineError("fork failed"); }
        usleep(20000);
    }
    if (p == 0) { onChild(token); return true; }
    if (!token) {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) engineError("state process died (status " + std::to_string(st) + ")");
        checkStop();
    }
    return false;
}
// Decide a condition; forks if both sides are feasible.
static bool branchOn(Expr *c) {
    if (c->k == K_Const) return c->v != 0;
    int f = lookupFact(c);
    if (f >= 0) return f;
    bool v = evalExpr(c) != 0;
    std::vector<u64> other;
    if (!querySat(v ? mkNot(c) : c, &other)) {
        addFact(c, v);
        return v;
    }
    if (doFork()) {
        assertPC(c, !v);
        setModel(other);
        return !v;
    }
    assertPC(c, v);
    return v;
}
static u128 concretizeExpr(Expr *e) {
    for (;;) {
        if (e->k == K_Const) return e->v;
        u128 v = evalExpr(e);
        Expr *eq = mkBin(K_Eq, e, mkConst(e->w, v));
        if (eq->k == K_Const) return v;
        ++S->concretized;
        if (branchOn(eq)) return v;
    }
}

// ---------------------------------------------------------------------------------------------- values, memory
struct Val {
    u64 c;
    Expr *e; // nullptr: concrete value c
};
static inline Val cv(u64 v) { return Val{v, nullptr}; }
static inline Val fromExpr(Expr *e) { return e->k == K_Const && e->w <= 64 ? cv((u64)e->v) : Val{0, e}; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct SymByte {
    Expr *e; // nullptr: concrete
    unsigned idx;
};
struct Object {
    uint8_t *bytes = nullptr;
    SymByte *sym = nullptr;
    u64 size = 0;
    bool live = false, readonly = false;
    uint8_t kind = 0; // 0 global 1 stack 2 heap 3 opaque
};
static std::vector<Object> g_objs;
static std::vector<uint32_t> g_free_stack;
static std::deque<uint32_t> g_free_heap;
static inline u64 baseOf(u64 id) { return (id << 32) + 4096; }
constexpr u64 FUNC_REGION = 1;

static u64 allocObj(u64 size, uint8_t kind) {
    uint32_t id;
    if (kind == 1 && !g_free_stack.empty()) { id = g_free_stack.back(); g_free_stack.pop_back(); }
    else if (kind == 2 && g_free_heap.size() > 2048) { id = g_free_heap.front(); g_free_heap.pop_front(); }
    else { id = (uint32_t)g_objs.size(); g_objs.emplace_back(); }
    Object &o = g_objs[id];
    o.bytes = (uint8_t *)calloc(size ? size : 1, 1);
    o.sym = nullptr;
    o.size = size;
    o.live = true;
    o.readonly = false;
    o.kind = kind;
    return baseOf(id);
}
static void freeId(uint32_t id) {
    Object &o = g_objs[id];
    free(o.bytes);
    free(o.sym);
    o.bytes = nullptr;
    o.sym = nullptr;
    o.live = false;
    if (o.kind == 1) g_free_stack.push_back(id);
    else g_free_heap.push_back(id);
}
[[noreturn]] static void violation(const std::string &id, const std::string &msg, bool haveModel);
static Object &resolve(u64 addr, u64 n, u64 &off, const char *what) {
    u64 id = addr >> 32;
    u64 o = (addr & 0xffffffffull) - 4096;
    if (id >= 2 && id < g_objs.size()) {
        Object &ob = g_objs[id];
        if (ob.live && (addr & 0xffffffffull) >= 4096 && o + n <= ob.size) { off = o; return ob; }
        char buf[256];
        snprintf(buf, sizeof buf, "invalid %s of %llu bytes at offset %lld of a%s object of size %llu", what, (unsigned long long)n,
                 (long long)((addr & 0xffffffffull)) - 4096, ob.live ? (ob.kind == 1 ? " stack" : ob.kind == 2 ? " heap" : " global") : " dead", (unsigned long long)ob.size);
        violation("memory-safety", buf, true);
    }
    char buf[128];
    snprintf(buf, sizeof buf, "invalid %s at address 0x%llx", what, (unsigned long long)addr);
    violation("memory-safety", buf, true);
}
static void ensureSym(Object &o) {
    if (!o.sym) o.sym = (SymByte *)calloc(o.size ? o.size : 1, sizeof(SymByte));
}
static Val loadMem(u64 addr, unsigned nbytes, unsigned w) {
    u64 off;
    Object &o = resolve(addr, nbytes, off, "read");
    if (!o.sym && nbytes <= 8) {
        u64 v = 0;
        memcpy(&v, o.bytes + off, nbytes);
        return cv(v & mask64(w));
    }
    bool any = false;
    if (o.sym) for (unsigned i = 0; i < nbytes; ++i) if (o.sym[off + i].e) { any = true; break; }
    if (!any) {
        u128 v = 0;
        memcpy(&v, o.bytes + off, nbytes);
        if (w <= 64) return cv((u64)v & mask64(w));
        return Val{0, mkConst(w, v)};
    }
    Expr *f = o.sym[off].e;
    if (f && f->w == 8 * nbytes) {
        bool same = true;
        for (unsigned i = 0; i < nbytes; ++i) if (o.sym[off + i].e != f || o.sym[off + i].idx != i) { same = false; break; }
        if (same) return fromExpr(w == f->w ? f : mkExtract(f, 0, w));
    }
    Expr *r = nullptr;
    for (unsigned i = 0; i < nbytes; ++i) {
        SymByte &b = o.sym[off + i];
        Expr *x = b.e ? mkExtract(b.e, 8 * b.idx, 8) : mkConst(8, o.bytes[off + i]);
        r = r ? mkConcat(x, r) : x;
    }
    return fromExpr(mkExtract(r, 0, w));
}
static void storeMem(u64 addr, unsigned nbytes, unsigned w, const Val &v) {
    u64 off;
    Object &o = resolve(addr, nbytes, off, "write");
    if (o.readonly) violation("memory-safety", "write to read-only memory", true);
    if (!v.e) {
        memcpy(o.bytes + off, &v.c, nbytes);
        if (o.sym) for (unsigned i = 0; i < nbytes; ++i) o.sym[off + i].e = nullptr;
        return;
    }
    Expr *e = v.e;
    if (e->k == K_Const) {
        u128 x = e->v;
        memcpy(o.bytes + off, &x, nbytes);
        if (o.sym) for (unsigned i = 0; i < nbytes; ++i) o.sym[off + i].e = nullptr;
        return;
    }
    if (w != 8 * nbytes) e = mkZExt(e, 8 * nbytes);
    ensureSym(o);
    for (unsigned i = 0; i < nbytes; ++i) o.sym[off + i] = SymByte{e, i};
}
static void copyMem(u64 dst, u64 src, u64 n) {
    if (!n) return;
    u64 so, d;
    Object &s = resolve(src, n, so, "read (memcpy)");
    Object &t = resolve(dst, n, d, "write (memcpy)");
    if (t.readonly) violation("memory-safety", "write to read-only memory", true);
    memmove(t.bytes + d, s.bytes + so, n);
    if (s.sym) {
        bool any = false;
        for (u64 i = 0; i < n; ++i) if (s.sym[so + i].e) { any = true; break; }
        if (any || t.sym) {
            ensureSym(t);
            memmove(t.sym + d, s.sym + so, n * sizeof(SymByte));
        }
    } else if (t.sym) {
        for (u64 i = 0; i < n; ++i) t.sym[d + i].e = nullptr;
    }
}

// ---------------------------------------------------------------------------------------------- code
enum Op : uint8_t {
    O_Bin, O_Icmp, O_Select, O_Trunc, O_ZExt, O_SExt, O_Copy, O_FBin, O_FNeg, O_FCmp, O_FpToSi, O_FpToUi, O_SiToFp, O_UiToFp,
    O_FpTrunc, O_FpExt, O_Load, O_Store, O_Gep, O_Alloca, O_Br, O_CondBr, O_Switch, O_Call, O_Ret, O_Resume, O_Unreachable,
    O_LandingPad, O_CmpXchg, O_Rmw, O_Nop, O_BB, O_VecDyn
};
struct ScalarTy { unsigned off; unsigned bytes; unsigned w; };
struct FuncCode;
struct Inst {
    Op op;
    uint8_t sub = 0;      // Kind / predicate / builtin
    unsigned w = 0;       // width of operation
    unsigned w2 = 0;
    int dst = -1;
    int a = 0, b = 0, c = 0;
    int n = 1;            // number of scalars
    int t0 = -1, t1 = -1; // branch edges
    const Instruction *I = nullptr;
    int ext = -1;         // index in per-kind side tables
    u64 imm = 0;
};
struct Edge { int pc; std::vector<std::pair<int, int>> moves; };
struct CallInfo {
    std::vector<int> args;        // flattened operands
    std::vector<unsigned> widths; // their widths
    std::vector<std::pair<int, u64>> byval; // (flat index, size)
    Function *callee = nullptr;
    int calleeOp = 0;
    int builtin = 0;
    FuncCode *code = nullptr;
    bool invoke = false;
    int nret = 0;
    unsigned retw = 0;
    Edge normal, unwind;
};
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct GepInfo { i64 off; std::vector<std::tuple<int, unsigned, i64>> idx; };
struct FuncCode {
    Function *F = nullptr;
    std::vector<Inst> code;
    std::vector<Val> consts;
    int nslots = 0;
    std::vector<Edge> edges;
    std::vector<CallInfo> calls;
    std::vector<SwitchInfo> switches;
    std::vector<GepInfo> geps;
    std::vector<std::vector<ScalarTy>> tys;
    bool compiled = false;
};
static Module *M;
static const DataLayout *DL;
static DenseMap<const Function *, FuncCode *> g_code;
static std::vector<Function *> g_funcs;
static DenseMap<const Function *, u64> g_faddr;
static DenseMap<const GlobalVariable *, u64> g_gaddr;
static std::map<std::string, u64> g_name2addr;
static DenseMap<const BasicBlock *, unsigned> g_bbid;
static std::vector<const BasicBlock *> g_bbs;

static void flatten(Type *T, u64 off, std::vector<ScalarTy> &out) {
    if (T->isIntegerTy()) {
        unsigned w = T->getIntegerBitWidth();
        if (w > 128) engineError("integer wider than 128 bits");
        out.push_back({(unsigned)off, (unsigned)DL->getTypeStoreSize(T), w});
    } else if (T->isPointerTy()) out.push_back({(unsigned)off, 8, 64});
    else if (T->isDoubleTy()) out.push_back({(unsigned)off, 8, 64});
    else if (T->isFloatTy()) out.push_back({(unsigned)off, 4, 32});
    else if (T->isX86_FP80Ty()) out.push_back({(unsigned)off, 10, 80});
    else if (auto *ST = dyn_cast<StructType>(T)) {
        auto *L = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); ++i) flatten(ST->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto *AT = dyn_cast<ArrayType>(T)) {
        u64 sz = DL->getTypeAllocSize(AT->getElementType());
        for (u64 i = 0; i < AT->getNumElements(); ++i) flatten(AT->getElementType(), off + i * sz, out);
    } else if (auto *VT = dyn_cast<FixedVectorType>(T)) {
        u64 sz = DL->getTypeSizeInBits(VT->getElementType()) / 8;
        if (!sz) sz = 1;
        for (u64 i = 0; i < VT->getNumElements(); ++i) flatten(VT->getElementType(), off + i * sz, out);
    } else if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) {
    } else {
        std::string s;
        raw_string_ostream o(s);
        T->print(o);
        engineError("unsupported type " + o.str());
    }
}
static std::vector<ScalarTy> flat(Type *T) { std::vector<ScalarTy> r; flatten(T, 0, r); return r; }

static u64 funcAddr(Function *F) {
    auto it = g_faddr.find(F);
    if (it != g_faddr.end()) return it->second;
    u64 a = (FUNC_REGION << 32) + 4096 + 16 * g_funcs.size();
    g_funcs.push_back(F);
    g_faddr[F] = a;
    return a;
}
static void evalConst(const Constant *C, std::vector<Val> &out);
static Val evalConst1(const Constant *C) {
    std::vector<Val> v;
    evalConst(C, v);
    if (v.size() != 1) engineError("constant is not scalar");
    return v[0];
}
static Val constBin(unsigned opc, unsigned w, Val a, Val b);
static void evalConst(const Constant *C, std::vector<Val> &out) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        const APInt &v = CI->getValue();
        if (v.getBitWidth() <= 64) out.push_back(cv(v.getZExtValue()));
        else {
            u128 x = v.extractBitsAsZExtValue(64, 0);
            x |= (u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64;
            out.push_back(Val{0, mkConst(v.getBitWidth(), x)});
        }
        return;
    }
    if (auto *CF = dyn_cast<ConstantFP>(C)) {
        APInt v = CF->getValueAPF().bitcastToAPInt();
        if (v.getBitWidth() <= 64) out.push_back(cv(v.getZExtValue()));
        else out.push_back(Val{0, mkConst(v.getBitWidth(), (u128)v.extractBitsAsZExtValue(64, 0) | ((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64))});
        return;
    }
    if (isa<ConstantPointerNull>(C)) { out.push_back(cv(0)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        for (auto &s : flat(T)) out.push_back(s.w > 64 ? Val{0, mkConst(s.w, 0)} : cv(0));
        return;
    }
    if (auto *F = dyn_cast<Function>(C)) { out.push_back(cv(funcAddr(const_cast<Function *>(F)))); return; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) {
        auto it = g_gaddr.find(G);
        if (it == g_gaddr.end()) engineError("unknown global " + G->getName().str());
        out.push_back(cv(it->second));
        return;
    }
    if (auto *GA = dyn_cast<GlobalAlias>(C)) { evalConst(GA->getAliasee(), out); return; }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
        for (unsigned i = 0; i < CA->getNumOperands(); ++i) evalConst(CA->getOperand(i), out);
        return;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < CD->getNumElements(); ++i) evalConst(CD->getElementAsConstant(i), out);
        return;
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *G = cast<GEPOperator>(CE);
            APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) engineError("non-constant GEP constant");
            Val b = evalConst1(CE->getOperand(0));
            out.push_back(cv(b.c + (u64)off.getSExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val v = evalConst1(CE->getOperand(0));
            auto f = flat(T);
            out.push_back(cv(v.c & mask64(f[0].w)));
            return;
        }
        case Instruction::Trunc: {
            Val v = evalConst1(CE->getOperand(0));
            out.push_back(cv(v.c & mask64(T->getIntegerBitWidth())));
            return;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: {
            Val x = evalConst1(CE->getOperand(0)), y = evalConst1(CE->getOperand(1));
            out.push_back(constBin(CE->getOpcode(), T->getIntegerBitWidth(), x, y));
            return;
        }
        case Instruction::ICmp: {
            Val x = evalConst1(CE->getOperand(0)), y = evalConst1(CE->getOperand(1));
            auto p = CE->getPredicate();
            bool r;
            if (p == CmpInst::ICMP_EQ) r = x.c == y.c;
            else if (p == CmpInst::ICMP_NE) r = x.c != y.c;
            else { engineError("constant icmp"); }
            out.push_back(cv(r));
            return;
        }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream o(s);
    C->print(o);
    engineError("unsupported constant " + o.str());
}
static void initMem(u64 addr, const Constant *C) {
    Type *T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return;
    if (auto *CS = dyn_cast<ConstantStruct>(C)) {
        auto *L = DL->getStructLayout(CS->getType());
        for (unsigned i = 0; i < CS->getNumOperands(); ++i) initMem(addr + L->getElementOffset(i), CS->getOperand(i));
        return;
    }
    if (auto *CA = dyn_cast<ConstantArray>(C)) {
        u64 sz = DL->getTypeAllocSize(CA->getType()->getElementType());
        for (unsigned i = 0; i < CA->getNumOperands(); ++i) initMem(addr + i * sz, CA->getOperand(i));
        return;
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
        u64 off;
        StringRef raw = CD->getRawDataValues();
        Object &o = resolve(addr, raw.size(), off, "init");
        memcpy(o.bytes + off, raw.data(), raw.size());
        return;
    }
    Val v = evalConst1(C);
    auto f = flat(T);
    storeMem(addr, f[0].bytes, f[0].w, v);
}

// builtins ------------------------------------------------------------------------------------------------
enum Builtin : int {
    B_None, B_Ignore, B_Unknown, B_vf_sym, B_vf_assume, B_vf_check, B_vf_reach, B_vf_need, B_vf_observe, B_vf_concrete, B_vf_fail, B_vf_known, B_vf_log,
    B_vf_skip, B_vf_issym, B_vf_param, B_malloc, B_calloc, B_realloc, B_free, B_new_al, B_cxa_alloc, B_cxa_free, B_cxa_throw, B_cxa_begin, B_cxa_end, B_cxa_rethrow,
    B_abort, B_terminate, B_guard_acq, B_ret0, B_dyncast, B_math1, B_math2, B_memcpy, B_memset, B_minmax, B_abs, B_ctlz, B_cttz,
    B_ctpop, B_bswap, B_addo, B_sat, B_fsh, B_expect, B_objsize, B_typeid, B_trap, B_isconst, B_fabs, B_clock, B_umul, B_assertfail, B_fmuladd, B_memcmp, B_strlen, B_tlsaddr, B_cur_exc, B_rethrow_exc, B_vf_ite
};
static int intrinsicBuiltin(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_memcpy;
    case Intrinsic::memset: return B_memset;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: return B_minmax;
    case Intrinsic::abs: return B_abs;
    case Intrinsic::ctlz: return B_ctlz;
    case Intrinsic::cttz: return B_cttz;
    case Intrinsic::ctpop: return B_ctpop;
    case Intrinsic::bswap: return B_bswap;
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: return B_addo;
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return B_sat;
    case Intrinsic::fshl: case Intrinsic::fshr: return B_fsh;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_expect;
    case Intrinsic::threadlocal_address: return B_expect;
    case Intrinsic::objectsize: return B_objsize;
    case Intrinsic::is_constant: return B_isconst;
    case Intrinsic::eh_typeid_for: return B_typeid;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return B_trap;
    case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::sqrt: case Intrinsic::round: return B_math1;
    case Intrinsic::pow: return B_math2;
    case Intrinsic::fmuladd: return B_fmuladd;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::invariant_end:
    case Intrinsic::donothing: case Intrinsic::prefetch: return B_Ignore;
    case Intrinsic::stacksave: case Intrinsic::invariant_start: return B_ret0;
    default: return B_Unknown;
    }
}
static const std::map<std::string, int> &nameBuiltins() {
    static const std::map<std::string, int> m = {
        {"vf_sym", B_vf_sym}, {"vf_assume", B_vf_assume}, {"vf_check", B_vf_check}, {"vf_reach", B_vf_reach}, {"vf_need", B_vf_need}, {"vf_observe", B_vf_observe},
        {"vf_concrete", B_vf_concrete}, {"vf_fail", B_vf_fail}, {"vf_known", B_vf_known}, {"vf_log", B_vf_log}, {"vf_skip", B_vf_skip}, {"vf_issym", B_vf_issym}, {"vf_ite", B_vf_ite}, {"vf_param", B_vf_param},
        {"malloc", B_malloc}, {"_Znwm", B_malloc}, {"_Znam", B_malloc}, {"_ZnwmRKSt9nothrow_t", B_malloc}, {"_ZnamRKSt9nothrow_t", B_malloc},
        {"_ZnwmSt11align_val_t", B_new_al}, {"aligned_alloc", B_Unknown},
        {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free}, {"_ZdlPv", B_free}, {"_ZdlPvm", B_free}, {"_ZdaPv", B_free}, {"_ZdaPvm", B_free},
        {"_ZdlPvmSt11align_val_t", B_free}, {"_ZdlPvSt11align_val_t", B_free},
        {"__cxa_allocate_exception", B_cxa_alloc}, {"__cxa_free_exception", B_cxa_free}, {"__cxa_throw", B_cxa_throw}, {"__cxa_begin_catch", B_cxa_begin},
        {"__cxa_end_catch", B_cxa_end}, {"__cxa_rethrow", B_cxa_rethrow}, {"__cxa_get_exception_ptr", B_expect},
        {"abort", B_abort}, {"_ZSt9terminatev", B_terminate}, {"__cxa_pure_virtual", B_abort}, {"__assert_fail", B_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_assertfail},
        {"__cxa_guard_acquire", B_guard_acq}, {"__cxa_guard_release", B_Ignore}, {"__cxa_guard_abort", B_Ignore}, {"__cxa_atexit", B_ret0}, {"__cxa_thread_atexit", B_ret0},
        {"__dynamic_cast", B_dyncast}, {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset},
        {"pow", B_math2}, {"fmod", B_math2}, {"log", B_math1}, {"log2", B_math1}, {"exp", B_math1}, {"sqrt", B_math1}, {"floor", B_math1}, {"ceil", B_math1}, {"round", B_math1},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", B_clock}, {"_ZNSt6chrono3_V212system_clock3nowEv", B_clock},
        {"_ZNSt8ios_base4InitC1Ev", B_Ignore}, {"_ZNSt8ios_base4InitD1Ev", B_Ignore},
        {"_ZSt17current_exceptionv", B_cur_exc}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", B_rethrow_exc},
        {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", B_Ignore}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", B_Ignore},
    };
    return m;
}

static void compileFunc(FuncCode &fc) {
    Function &F = *fc.F;
    fc.compiled = true;
    DenseMap<const Value *, int> slot;
    DenseMap<const Constant *, int> cslot;
    DenseMap<const BasicBlock *, int> bbpc;
    int n = 0;
    DenseMap<Type *, int> tyIndex;
    auto tyOf = [&](Type *T) {
        auto it = tyIndex.find(T);
        if (it != tyIndex.end()) return it->second;
        int i = (int)fc.tys.size();
        fc.tys.push_back(flat(T));
        tyIndex[T] = i;
        return i;
    };
    auto cnt = [&](Type *T) { return (int)fc.tys[tyOf(T)].size(); };
    for (auto &A : F.args()) { slot[&A] = n; n += cnt(A.getType()); }
    for (auto &BB : F) for (auto &I : BB) {
        if (I.getType()->isVoidTy() || I.getType()->isTokenTy()) continue;
        slot[&I] = n;
        n += cnt(I.getType());
    }
    fc.nslots = n;
    auto opnd = [&](const Value *V) -> int {
        if (auto *C = dyn_cast<Constant>(V)) {
            auto it = cslot.find(C);
            if (it != cslot.end()) return it->second;
            int i = -(int)fc.consts.size() - 1;
            evalConst(C, fc.consts);
            cslot[C] = i;
            return i;
        }
        auto it = slot.find(V);
        if (it == slot.end()) {
            if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) return 0;
            engineError("operand without slot in " + F.getName().str());
        }
        return it->second;
    };
    auto opAt = [](int op, int i) { return op >= 0 ? op + i : op - i; };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        for (auto &P : to->phis()) {
            int src = opnd(P.getIncomingValueForBlock(from));
            int k = cnt(P.getType());
            for (int i = 0; i < k; ++i) e.moves.push_back({slot[&P] + i, opAt(src, i)});
        }
        e.pc = -1;
        return e;
    };
    std::vector<std::pair<int, const BasicBlock *>> fixEdges;
    std::vector<std::tuple<int, int, const BasicBlock *>> fixCalls;
    auto addEdge = [&](const BasicBlock *from, const BasicBlock *to) {
        int i = (int)fc.edges.size();
        fc.edges.push_back(edge(from, to));
        fixEdges.push_back({i, to});
        return i;
    };
    for (auto &BB : F) {
        bbpc[&BB] = (int)fc.code.size();
        {
            Inst in{O_BB};
            in.imm = g_bbid.count(&BB) ? g_bbid[&BB] : MAXBB - 1;
            fc.code.push_back(in);
        }
        for (auto &I : BB) {
            if (isa<PHINode>(I)) continue;
            Inst in{O_Nop};
            in.I = &I;
            if (slot.count(&I)) in.dst = slot[&I];
            Type *T = I.getType();
            if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
                in.a = opnd(BO->getOperand(0));
                in.b = opnd(BO->getOperand(1));
                in.n = cnt(T);
                in.w = fc.tys[tyOf(T)][0].w;
                in.op = O_Bin;
                switch (BO->getOpcode()) {
                case Instruction::Add: in.sub = K_Add; break;
                case Instruction::Sub: in.sub = K_Sub; break;
                case Instruction::Mul: in.sub = K_Mul; break;
                case Instruction::UDiv: in.sub = K_UDiv; break;
                case Instruction::SDiv: in.sub = K_SDiv; break;
                case Instruction::URem: in.sub = K_URem; break;
                case Instruction::SRem: in.sub = K_SRem; break;
                case Instruction::Shl: in.sub = K_Shl; break;
                case Instruction::LShr: in.sub = K_LShr; break;
                case Instruction::AShr: in.sub = K_AShr; break;
                case Instruction::And: in.sub = K_And; break;
                case Instruction::Or: in.sub = K_Or; break;
                case Instruction::Xor: in.sub = K_Xor; break;
                default: in.op = O_FBin; in.imm = BO->getOpcode(); break;
                }
            } else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
                in.op = O_Icmp;
                in.sub = (uint8_t)IC->getPredicate();
                in.a = opnd(IC->getOperand(0));
                in.b = opnd(IC->getOperand(1));
                in.n = cnt(T);
                in.w = fc.tys[tyOf(IC->getOperand(0)->getType())][0].w;
            } else if (auto *FC = dyn_cast<FCmpInst>(&I)) {
                in.op = O_FCmp;
                in.sub = (uint8_t)FC->getPredicate();
                in.a = opnd(FC->getOperand(0));
                in.b = opnd(FC->getOperand(1));
                in.w = fc.tys[tyOf(FC->getOperand(0)->getType())][0].w;
            } else if (auto *SI = dyn_cast<SelectInst>(&I)) {
                in.op = O_Select;
                in.a = opnd(SI->getCondition());
                in.b = opnd(SI->getTrueValue());
                in.c = opnd(SI->getFalseValue());
                in.n = cnt(T);
                in.ext = tyOf(T);
                in.imm = SI->getCondition()->getType()->isVectorTy();
            } else if (auto *CI = dyn_cast<CastInst>(&I)) {
                in.a = opnd(CI->getOperand(0));
                in.n = cnt(T);
                int ns = cnt(CI->getSrcTy());
                in.w = fc.tys[tyOf(T)][0].w;
                in.w2 = fc.tys[tyOf(CI->getSrcTy())][0].w;
                switch (CI->getOpcode()) {
                case Instruction::Trunc: in.op = O_Trunc; break;
                case Instruction::ZExt: in.op = O_ZExt; break;
                case Instruction::SExt: in.op = O_SExt; break;
                case Instruction::PtrToInt: in.op = in.w < 64 ? O_Trunc : O_Copy; break;
                case Instruction::IntToPtr: in.op = in.w2 < 64 ? O_ZExt : O_Copy; break;
                case Instruction::BitCast:
                    if (ns != in.n) { in.op = O_VecDyn; in.sub = 9; in.w2 = (unsigned)tyOf(CI->getSrcTy()); in.ext = tyOf(T); }
                    else in.op = O_Copy;
                    break;
                case Instruction::FPToSI: in.op = O_FpToSi; break;
                case Instruction::FPToUI: in.op = O_FpToUi; break;
                case Instruction::SIToFP: in.op = O_SiToFp; break;
                case Instruction::UIToFP: in.op = O_UiToFp; break;
                case Instruction::FPTrunc: in.op = O_FpTrunc; break;
                case Instruction::FPExt: in.op = O_FpExt; break;
                default: engineError("unsupported cast");
                }
            } else if (isa<UnaryOperator>(&I)) {
                in.op = O_FNeg; in.a = opnd(I.getOperand(0)); in.w = fc.tys[tyOf(T)][0].w; in.n = cnt(T);
            } else if (isa<FreezeInst>(&I)) {
                in.op = O_Copy; in.a = opnd(I.getOperand(0)); in.n = cnt(T);
            } else if (auto *LI = dyn_cast<LoadInst>(&I)) {
                in.op = O_Load; in.a = opnd(LI->getPointerOperand()); in.ext = tyOf(T); in.n = cnt(T);
            } else if (auto *SI2 = dyn_cast<StoreInst>(&I)) {
                in.op = O_Store; in.a = opnd(SI2->getPointerOperand()); in.b = opnd(SI2->getValueOperand());
                in.ext = tyOf(SI2->getValueOperand()->getType());
                in.n = cnt(SI2->getValueOperand()->getType());
            } else if (auto *GI = dyn_cast<GetElementPtrInst>(&I)) {
                in.op = O_Gep;
                GepInfo g;
                g.off = 0;
                in.a = opnd(GI->getPointerOperand());
                if (T->isVectorTy()) engineError("vector gep");
                for (auto it = gep_type_begin(GI), e = gep_type_end(GI); it != e; ++it) {
                    Value *ix = it.getOperand();
                    if (StructType *ST = it.getStructTypeOrNull()) {
                        g.off += (i64)DL->getStructLayout(ST)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        i64 sz = (i64)(u64)DL->getTypeAllocSize(it.getIndexedType());
                        if (auto *CI2 = dyn_cast<ConstantInt>(ix)) g.off += sz * CI2->getSExtValue();
                        else g.idx.push_back({opnd(ix), ix->getType()->getIntegerBitWidth(), sz});
                    }
                }
                in.ext = (int)fc.geps.size();
                fc.geps.push_back(g);
            } else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
                in.op = O_Alloca;
                in.a = opnd(AI->getArraySize());
                in.imm = DL->getTypeAllocSize(AI->getAllocatedType());
            } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
                if (BI->isConditional()) {
                    in.op = O_CondBr;
                    in.a = opnd(BI->getCondition());
                    in.t0 = addEdge(&BB, BI->getSuccessor(0));
                    in.t1 = addEdge(&BB, BI->getSuccessor(1));
                } else { in.op = O_Br; in.t0 = addEdge(&BB, BI->getSuccessor(0)); }
            } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                in.op = O_Switch;
                in.a = opnd(SW->getCondition());
                in.w = SW->getCondition()->getType()->getIntegerBitWidth();
                SwitchInfo s;
                s.def = addEdge(&BB, SW->getDefaultDest());
                for (auto &c : SW->cases()) s.cases.push_back({c.getCaseValue()->getZExtValue(), addEdge(&BB, c.getCaseSuccessor())});
                in.ext = (int)fc.switches.size();
                fc.switches.push_back(s);
            } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                in.op = O_Call;
                CallInfo c;
                Value *cal = CB->getCalledOperand()->stripPointerCasts();
                if (isa<InlineAsm>(cal)) { in.op = O_Nop; fc.code.push_back(in); continue; }
                if (auto *GA = dyn_cast<GlobalAlias>(cal)) cal = GA->getAliaseeObject();
                if (auto *CF = dyn_cast<Function>(cal)) {
                    c.callee = CF;
                    if (CF->isIntrinsic()) {
                        c.builtin = intrinsicBuiltin(CF->getIntrinsicID());
                        if (c.builtin == B_Ignore) { in.op = O_Nop; fc.code.push_back(in); continue; }
                    }
                } else c.calleeOp = opnd(CB->getCalledOperand());
                for (unsigned i = 0; i < CB->arg_size(); ++i) {
                    Value *A = CB->getArgOperand(i);
                    if (A->getType()->isMetadataTy()) continue;
                    int op = opnd(A);
                    auto &ft = fc.tys[tyOf(A->getType())];
                    if (CB->isByValArgument(i)) c.byval.push_back({(int)c.args.size(), (u64)DL->getTypeAllocSize(CB->getParamByValType(i))});
                    for (size_t k = 0; k < ft.size(); ++k) { c.args.push_back(opAt(op, (int)k)); c.widths.push_back(ft[k].w); }
                }
                c.nret = cnt(T);
                c.retw = c.nret ? fc.tys[tyOf(T)][0].w : 0;
                in.ext = (int)fc.calls.size();
                if (auto *II = dyn_cast<InvokeInst>(&I)) {
                    c.invoke = true;
                    c.normal = edge(&BB, II->getNormalDest());
                    c.unwind = edge(&BB, II->getUnwindDest());
                    fixCalls.push_back({in.ext, 0, II->getNormalDest()});
                    fixCalls.push_back({in.ext, 1, II->getUnwindDest()});
                }
                fc.calls.push_back(c);
            } else if (auto *RI = dyn_cast<ReturnInst>(&I)) {
                in.op = O_Ret;
                if (RI->getReturnValue()) { in.a = opnd(RI->getReturnValue()); in.n = cnt(RI->getReturnValue()->getType()); }
                else in.n = 0;
            } else if (isa<ResumeInst>(&I)) {
                in.op = O_Resume; in.a = opnd(I.getOperand(0));
            } else if (isa<UnreachableInst>(&I)) in.op = O_Unreachable;
            else if (isa<LandingPadInst>(&I)) in.op = O_LandingPad;
            else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                unsigned k = 0;
                Type *cur = EV->getAggregateOperand()->getType();
                for (unsigned ix : EV->indices()) {
                    if (auto *ST = dyn_cast<StructType>(cur)) { for (unsigned q = 0; q < ix; ++q) k += (unsigned)cnt(ST->getElementType(q)); cur = ST->getElementType(ix); }
                    else { auto *AT = cast<ArrayType>(cur); k += ix * (unsigned)cnt(AT->getElementType()); cur = AT->getElementType(); }
                }
                in.op = O_Copy; in.a = opAt(opnd(EV->getAggregateOperand()), (int)k); in.n = cnt(T);
            } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
                unsigned k = 0;
                Type *cur = IV->getAggregateOperand()->getType();
                for (unsigned ix : IV->indices()) {
                    if (auto *ST = dyn_cast<StructType>(cur)) { for (unsigned q = 0; q < ix; ++q) k += (unsigned)cnt(ST->getElementType(q)); cur = ST->getElementType(ix); }
                    else { auto *AT = cast<ArrayType>(cur); k += ix * (unsigned)cnt(AT->getElementType()); cur = AT->getElementType(); }
                }
                in.op = O_Copy; in.a = opnd(IV->getAggregateOperand()); in.n = cnt(T);
                fc.code.push_back(in);
                in.dst += (int)k;
                in.a = opnd(IV->getInsertedValueOperand()); in.n = cnt(IV->getInsertedValueOperand()->getType());
            } else if (auto *EE = dyn_cast<ExtractElementInst>(&I)) {
                if (!isa<ConstantInt>(EE->getIndexOperand())) engineError("dynamic extractelement");
                int k = (int)cast<ConstantInt>(EE->getIndexOperand())->getZExtValue();
                in.op = O_Copy; in.a = opAt(opnd(EE->getVectorOperand()), k); in.n = 1;
            } else if (auto *IE = dyn_cast<InsertElementInst>(&I)) {
                if (!isa<ConstantInt>(IE->getOperand(2))) engineError("dynamic insertelement");
                int k = (int)cast<ConstantInt>(IE->getOperand(2))->getZExtValue();
                in.op = O_Copy; in.a = opnd(IE->getOperand(0)); in.n = cnt(T);
                fc.code.push_back(in);
                in.dst += k; in.a = opnd(IE->getOperand(1)); in.n = 1;
            } else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) {
                int nl = cnt(SV->getOperand(0)->getType());
                int x = opnd(SV->getOperand(0)), y = opnd(SV->getOperand(1));
                auto mask = SV->getShuffleMask();
                for (size_t i = 0; i < mask.size(); ++i) {
                    int m = mask[i] < 0 ? 0 : mask[i];
                    Inst q = in;
                    q.op = O_Copy; q.n = 1; q.dst = in.dst + (int)i;
                    q.a = m < nl ? opAt(x, m) : opAt(y, m - nl);
                    fc.code.push_back(q);
                }
                continue;
            } else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) {
                in.op = O_CmpXchg; in.a = opnd(CX->getPointerOperand()); in.b = opnd(CX->getCompareOperand()); in.c = opnd(CX->getNewValOperand());
                in.ext = tyOf(CX->getCompareOperand()->getType());
            } else if (auto *RM = dyn_cast<AtomicRMWInst>(&I)) {
                in.op = O_Rmw; in.a = opnd(RM->getPointerOperand()); in.b = opnd(RM->getValOperand()); in.imm = RM->getOperation();
                in.ext = tyOf(T);
            } else if (isa<FenceInst>(&I)) {
            } else engineError(std::string("unsupported instruction ") + I.getOpcodeName());
            fc.code.push_back(in);
        }
    }
    for (auto &p : fixEdges) fc.edges[p.first].pc = bbpc[p.second];
    for (auto &t : fixCalls) (std::get<1>(t) ? fc.calls[std::get<0>(t)].unwind : fc.calls[std::get<0>(t)].normal).pc = bbpc[std::get<2>(t)];
}
static FuncCode *getCode(Function *F) {
    FuncCode *&p = g_code[F];
    if (!p) { p = new FuncCode; p->F = F; }
    if (!p->compiled) compileFunc(*p);
    return p;
}

// ---------------------------------------------------------------------------------------------- interpreter
struct Frame {
    FuncCode *fc;
    int pc;
    size_t base;
    int retDst;
    int nret;
    const CallInfo *ci;   // call site in the parent frame
    std::vector<uint32_t> allocas;
};
static std::vector<Frame> g_frames;
static std::vector<Val> g_regs;
struct Exc { u64 obj; u64 ti; };
static std::vector<Exc> g_caught;          // stack of exceptions being handled
static std::map<u64, u64> g_excTI;         // exception object -> typeinfo
static u64 g_curExc = 0, g_curTI = 0;
static std::vector<std::pair<u64, unsigned>> g_inputs_dummy;
struct Input { std::string name; Expr *e; };
static std::vector<Input> g_inputs;
struct Obs { std::string name; Val v; };
static std::vector<Obs> g_obs;
static bool g_known_active = false;
static std::string g_known_id;
static u64 g_clock = 1000;

static std::string curStack() {
    std::ostringstream o;
    int k = 0;
    for (size_t i = g_frames.size(); i-- > 0 && k < 25; ++k) {
        o << "  in " << g_frames[i].fc->F->getName().str();
        size_t pc = (size_t)g_frames[i].pc;
        if (pc < g_frames[i].fc->code.size() && g_frames[i].fc->code[pc].I)
            if (auto &dl = g_frames[i].fc->code[pc].I->getDebugLoc()) {
                o << " (" << dl->getFilename().str() << ":" << dl.getLine() << ")";
                for (auto *ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) o << " < " << ia->getLine();
            }
        o << "\n";
    }
    return o.str();
}
static std::string readCStr(u64 addr) {
    std::string s;
    for (;;) {
        Val v = loadMem(addr++, 1, 8);
        u64 c = v.e ? (u64)concretizeExpr(v.e) : v.c;
        if (!c || s.size() > 2000) return s;
        s.push_back((char)c);
    }
}
static std::string inputsText() {
    std::ostringstream o;
    for (auto &i : g_inputs) {
        i64 v = (i64)sext128(evalExpr(i.e), i.e->w);
        o << i.name << " " << v << "\n";
    }
    return o.str();
}
[[noreturn]] static void violation(const std::string &id, const std::string &msg, bool) {
    if (g_known_active) {
        // inside a region listed as a known finding: report it once, do not stop the exploration
        lockS();
        ++S->known_hits;
        if (access((g_out + "/known." + g_known_id).c_str(), F_OK) != 0) {
            std::ofstream f(g_out + "/known." + g_known_id);
            f << g_known_id << " " << id << " " << msg << "\n" << inputsText();
        }
        unlockS();
        endProcess();
    }
    lockS();
    if (!S->stop) {
        std::ofstream f(g_out + "/violation.inputs");
        f << inputsText();
        f.close();
        std::string full = msg + "\n" + curStack();
        snprintf(S->msg, sizeof S->msg, "%s", full.c_str());
        snprintf(S->vid, sizeof S->vid, "%s", id.c_str());
        std::ofstream g(g_out + "/violation.txt");
        g << "id: " << id << "\n" << full;
        g.close();
        S->stop = 1;
    }
    unlockS();
    endProcess();
}
[[noreturn]] static void pathEnd() {
    u64 n = S->paths++;
    u64 h = (n * 0x9E3779B97F4A7C15ull + g_seed * 0x2545F4914F6CDD1Dull);
    h ^= h >> 31;
    if (S->samples < g_max_samples && (n < 4 || h % (n < 500 ? 16 : n < 5000 ? 256 : 4096) == 0) && !g_known_active) {
        u64 k = S->samples++;
        if (k < g_max_samples) {
            std::ofstream f(g_out + "/sample." + std::to_string(k));
            f << inputsText();
            f << "=== observe\n";
            for (auto &o : g_obs) {
                i64 v = o.v.e ? (i64)sext128(evalExpr(o.v.e), 64) : (i64)o.v.c;
                f << o.name << " " << v << "\n";
            }
        }
    }
    endProcess();
}
static IdEntry *idEntry(const std::string &name, int kind) {
    size_t h = std::hash<std::string>()(name) + (size_t)kind;
    for (size_t i = 0; i < MAXID; ++i) {
        IdEntry &e = S->ids[(h + i) % MAXID];
        if (e.kind == 0) {
            lockS();
            if (e.kind == 0) {
                snprintf(e.name, sizeof e.name, "%s", name.c_str());
                e.kind = kind;
            }
            unlockS();
        }
        if (e.kind == kind && name.compare(0, 111, e.name) == 0) return &e;
    }
    engineError("too many check ids");
}

static inline Val getOp(const Frame &f, int op) { return op >= 0 ? g_regs[f.base + (size_t)op] : f.fc->consts[(size_t)(-op - 1)]; }
static u64 concrete(const Val &v) { return v.e ? (u64)concretizeExpr(v.e) : v.c; }

static Val binop(Kind k, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e && w <= 64) {
        u64 m = mask64(w), x = a.c, y = b.c;
        switch (k) {
        case K_Add: return cv((x + y) & m);
        case K_Sub: return cv((x - y) & m);
        case K_Mul: return cv((x * y) & m);
        case K_And: return cv(x & y);
        case K_Or: return cv(x | y);
        case K_Xor: return cv(x ^ y);
        default: return cv((u64)foldBin(k, w, x, y));
        }
    }
    return fromExpr(mkBin(k, toE(a, w), toE(b, w)));
}
static Val constBin(unsigned opc, unsigned w, Val a, Val b) {
    Kind k = opc == Instruction::Add ? K_Add : opc == Instruction::Sub ? K_Sub : opc == Instruction::Mul ? K_Mul : K_Xor;
    return binop(k, w, a, b);
}
static Val icmp(unsigned pred, unsigned w, const Val &a, const Val &b) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c;
        i64 sx = (i64)sext128(x, w), sy = (i64)sext128(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return cv(x == y);
        case CmpInst::ICMP_NE: return cv(x != y);
        case CmpInst::ICMP_UGT: return cv(x > y);
        case CmpInst::ICMP_UGE: return cv(x >= y);
        case CmpInst::ICMP_ULT: return cv(x < y);
        case CmpInst::ICMP_ULE: return cv(x <= y);
        case CmpInst::ICMP_SGT: return cv(sx > sy);
        case CmpInst::ICMP_SGE: return cv(sx >= sy);
        case CmpInst::ICMP_SLT: return cv(sx < sy);
        case CmpInst::ICMP_SLE: return cv(sx <= sy);
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return fromExpr(mkBin(K_Eq, x, y));
    case CmpInst::ICMP_NE: return fromExpr(mkNot(mkBin(K_Eq, x, y)));
    case CmpInst::ICMP_UGT: return fromExpr(mkBin(K_Ult, y, x));
    case CmpInst::ICMP_UGE: return fromExpr(mkNot(mkBin(K_Ult, x, y)));
    case CmpInst::ICMP_ULT: return fromExpr(mkBin(K_Ult, x, y));
    case CmpInst::ICMP_ULE: return fromExpr(mkNot(mkBin(K_Ult, y, x)));
    case CmpInst::ICMP_SGT: return fromExpr(mkBin(K_Slt, y, x));
    case CmpInst::ICMP_SGE: return fromExpr(mkNot(mkBin(K_Slt, x, y)));
    case CmpInst::ICMP_SLT: return fromExpr(mkBin(K_Slt, x, y));
    case CmpInst::ICMP_SLE: return fromExpr(mkNot(mkBin(K_Slt, y, x)));
    }
    engineError("icmp predicate");
}
static double asD(u64 bits, unsigned w) {
    if (w == 32) { float f; uint32_t b = (uint32_t)bits; memcpy(&f, &b, 4); return f; }
    double d; memcpy(&d, &bits, 8); return d;
}
static u64 fromD(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return b; }
    u64 b; memcpy(&b, &d, 8); return b;
}

static void takeEdge(Frame &f, const Edge &e) {
    size_t n = e.moves.size();
    if (n == 1) g_regs[f.base + (size_t)e.moves[0].first] = getOp(f, e.moves[0].second);
    else if (n) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto &m : e.moves) tmp.push_back(getOp(f, m.second));
        for (size_t i = 0; i < n; ++i) g_regs[f.base + (size_t)e.moves[i].first] = tmp[i];
    }
    f.pc = e.pc;
}
static void popFrame() {
    Frame &f = g_frames.back();
    for (uint32_t id : f.allocas) freeId(id);
    g_regs.resize(f.base);
    g_frames.pop_back();
}
static void pushFrame(FuncCode *fc, const Val *args, size_t nargs, int retDst, int nret, const CallInfo *ci) {
    if (g_frames.size() > 3000) engineError("call depth exceeded");
    size_t base = g_regs.size();
    g_regs.resize(base + (size_t)fc->nslots, Val{0, nullptr});
    for (size_t i = 0; i < nargs && i < (size_t)fc->nslots; ++i) g_regs[base + i] = args[i];
    g_frames.push_back(Frame{fc, 0, base, retDst, nret, ci, {}});
    if (g_trace) fprintf(stderr, "%*s> %s\n", (int)g_frames.size(), "", fc->F->getName().str().c_str());
}
// exceptions
static u64 addrOfName(const char *n) { auto it = g_name2addr.find(n); return it == g_name2addr.end() ? 0 : it->second; }
static bool tiMatches(u64 thrown, u64 want) {
    if (thrown == want || want == 0) return true;
    static u64 si = addrOfName("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi = addrOfName("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    u64 id = thrown >> 32;
    if (id < 2 || id >= g_objs.size() || g_objs[id].size < 16 || g_objs[id].kind == 3) return false;
    u64 vt = loadMem(thrown, 8, 64).c;
    if (si && vt == si + 16) return tiMatches(loadMem(thrown + 16, 8, 64).c, want);
    if (vmi && vt == vmi + 16) {
        u64 nb = loadMem(thrown + 20, 4, 32).c;
        for (u64 i = 0; i < nb; ++i) if (tiMatches(loadMem(thrown + 24 + 16 * i, 8, 64).c, want)) return true;
    }
    return false;
}
static u64 typeIdFor(u64 ti) { return ti ? 1 + ((ti >> 32) & 0x3fffffff) : 0x7ffffff0; }
static std::string tiName(u64 ti) {
    for (auto &p : g_name2addr) if (p.second == ti) return p.first;
    return "?";
}
static std::string excWhat(u64 obj) {
    (void)obj;
    return "";
}
static void unwind(u64 obj, u64 ti) {
    g_curExc = obj;
    g_curTI = ti;
    for (;;) {
        if (g_frames.empty()) violation("uncaught-exception", "uncaught exception of type " + tiName(ti) + excWhat(obj), true);
        Frame &f = g_frames.back();
        const Inst &in = f.fc->code[(size_t)f.pc];
        if (in.op == O_Call && in.ext >= 0 && f.fc->calls[(size_t)in.ext].invoke) {
            const CallInfo &c = f.fc->calls[(size_t)in.ext];
            // find the landing pad
            const Inst *lp = nullptr;
            for (size_t pc = (size_t)c.unwind.pc; pc < f.fc->code.size(); ++pc) if (f.fc->code[pc].op == O_LandingPad) { lp = &f.fc->code[pc]; break; }
            auto *LP = cast<LandingPadInst>(lp->I);
            bool enter = LP->isCleanup();
            for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
                if (LP->isCatch(i)) { if (tiMatches(ti, evalConst1(LP->getClause(i)).c)) enter = true; }
                else enter = true;
            }
            if (enter) { takeEdge(f, c.unwind); return; }
        }
        popFrame();
        if (g_frames.empty()) continue;
    }
}

static Val getArg(const Frame &f, const CallInfo &c, size_t i) { return getOp(f, c.args[i]); }
static void setRet(Frame &f, const Inst &in, const Val &v) { if (in.dst >= 0) g_regs[f.base + (size_t)in.dst] = v; }

static void doLoad(Frame &f, const Inst &in) {
    u64 p = concrete(getOp(f, in.a));
    auto &ty = f.fc->tys[(size_t)in.ext];
    for (int i = 0; i < in.n; ++i) g_regs[f.base + (size_t)(in.dst + i)] = loadMem(p + ty[(size_t)i].off, ty[(size_t)i].bytes, ty[(size_t)i].w);
}

// Executes a builtin; returns false if control was transferred (exception).
static bool runBuiltin(int b, Frame &f, const Inst &in, const CallInfo &c, Function *callee) {
    auto A = [&](size_t i) { return getArg(f, c, i); };
    auto CA = [&](size_t i) { return concrete(getArg(f, c, i)); };
    switch (b) {
    case B_Ignore: return true;
    case B_ret0: setRet(f, in, cv(0)); return true;
    case B_vf_sym: {
        // vf_sym(name, lo, hi): fresh value in [lo, hi]
        std::string nm = readCStr(CA(0));
        i64 lo = (i64)CA(1), hi = (i64)CA(2);
        if (lo > hi) { ++S->pruned; endProcess(); }
        Expr *e;
        if (lo == hi) e = mkConst(64, (u64)lo);
        else {
            unsigned bits = bitsFor(lo, hi);
            u64 idx = g_syms.size();
            Z3_ast v = keepZ(Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("v" + std::to_string(idx)).c_str()), Z3_mk_bv_sort(Z, bits)));
            g_syms.push_back(v);
            g_symdecl.push_back(Z3_get_app_decl(Z, Z3_to_app(Z, v)));
            g_symw.push_back(bits);
            Z3_ast iv = keepZ(Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("i" + std::to_string(idx)).c_str()), Z3_mk_int_sort(Z)));
            g_isym.push_back(iv);
            Z3_solver_assert(Z, ZI, keepZ(Z3_mk_ge(Z, iv, inum((i128)lo))));
            Z3_solver_assert(Z, ZI, keepZ(Z3_mk_le(Z, iv, inum((i128)hi))));
            g_model.push_back((u64)lo & (u64)maskw(bits));
            Expr *sy = mkSym(bits, idx);
            if (lo != smin(bits)) Z3_solver_assert(Z, ZS, keepZ(Z3_mk_bvsge(Z, v, bvnum(bits, (u128)(i128)lo & maskw(bits)))));
            if (hi != smax(bits)) Z3_solver_assert(Z, ZS, keepZ(Z3_mk_bvsle(Z, v, bvnum(bits, (u128)(i128)hi & maskw(bits)))));
            sy->rng = true;
            sy->lo = lo;
            sy->hi = hi;
            e = mkSExt(sy, 64);
        }
        g_inputs.push_back({nm, e});
        setRet(f, in, fromExpr(e));
        return true;
    }
    case B_vf_assume: {
        Val v = A(0);
        if (!v.e) { if (!(v.c & 1)) { ++S->pruned; endProcess(); } return true; }
        Expr *e = v.e->w == 1 ? v.e : mkExtract(v.e, 0, 1);
        if (e->k == K_Const) { if (!e->v) { ++S->pruned; endProcess(); } return true; }
        int k = lookupFact(e);
        if (k == 1) return true;
        if (k == 0) { ++S->pruned; endProcess(); }
        if (!evalExpr(e)) {
            std::vector<u64> m;
            if (!querySat(e, &m)) { ++S->pruned; endProcess(); }
            assertPC(e, true);
            setModel(m);
        } else assertPC(e, true);
        return true;
    }
    case B_vf_check: {
        Val v = A(0);
        std::string id = readCStr(CA(1));
        IdEntry *ie = idEntry(id, 1);
        ++ie->count;
        if (!v.e) { if (!(v.c & 1)) violation(id, "check failed on a fully determined path", true); return true; }
        Expr *e = v.e->w == 1 ? v.e : mkExtract(v.e, 0, 1);
        if (e->k == K_Const) { if (!e->v) violation(id, "check failed", true); return true; }
        int k = lookupFact(e);
        if (k == 1) return true;
        ++ie->sym;
        ++S->queries_check;
        if (!evalExpr(e)) violation(id, "check fails for the current path's model", true);
        std::vector<u64> m;
        if (querySat(mkNot(e), &m)) {
            setModel(m);
            violation(id, "the solver found values that break the check", true);
        }
        addFact(e, true);
        return true;
    }
    case B_vf_reach: { ++idEntry(readCStr(CA(0)), 2)->count; return true; }
    case B_vf_need: { ++idEntry(readCStr(CA(0)), 3)->count; return true; }
    case B_vf_observe: { g_obs.push_back({readCStr(CA(0)), A(1)}); return true; }
    case B_vf_concrete: setRet(f, in, cv(CA(0))); return true;
    case B_vf_ite: {
        Val k = A(0), x = A(1), y = A(2);
        if (!k.e) setRet(f, in, (k.c & 1) ? x : y);
        else setRet(f, in, fromExpr(mkIte(k.e->w == 1 ? k.e : mkExtract(k.e, 0, 1), toE(x, 64), toE(y, 64))));
        return true;
    }
    case B_vf_param: { auto it = g_params.find(readCStr(CA(0))); setRet(f, in, it == g_params.end() ? A(1) : cv((u64)it->second)); return true; }
    case B_vf_issym: { Val v = A(0); setRet(f, in, cv(v.e != nullptr)); return true; }
    case B_vf_fail: violation(readCStr(CA(0)), "vf_fail", true);
    case B_vf_skip: ++S->pruned; endProcess();
    case B_vf_known: {
        std::string id = readCStr(CA(0));
        if (g_known.count(id)) { g_known_active = true; g_known_id = id; }
        return true;
    }
    case B_vf_log: {
        Val v = A(1);
        fprintf(stderr, "[%d] %s %s\n", getpid(), readCStr(CA(0)).c_str(), v.e ? exprStr(v.e, 12).c_str() : std::to_string((i64)v.c).c_str());
        return true;
    }
    case B_malloc: {
        u64 n = CA(0);
        if (n > (1ull << 30)) violation("memory-safety", "allocation of " + std::to_string(n) + " bytes", true);
        setRet(f, in, cv(allocObj(n, 2)));
        return true;
    }
    case B_new_al: setRet(f, in, cv(allocObj(CA(0), 2))); return true;
    case B_calloc: setRet(f, in, cv(allocObj(CA(0) * CA(1), 2))); return true;
    case B_realloc: {
        u64 p = CA(0), n = CA(1);
        u64 q = allocObj(n, 2);
        if (p) {
            u64 sz = g_objs[p >> 32].size;
            copyMem(q, p, sz < n ? sz : n);
            freeId((uint32_t)(p >> 32));
        }
        setRet(f, in, cv(q));
        return true;
    }
    case B_free: {
        u64 p = CA(0);
        if (!p) return true;
        u64 id = p >> 32;
        if (id < 2 || id >= g_objs.size() || !g_objs[id].live || g_objs[id].kind != 2 || p != baseOf(id)) violation("memory-safety", "invalid free", true);
        freeId((uint32_t)id);
        return true;
    }
    case B_cxa_alloc: setRet(f, in, cv(allocObj(CA(0), 2))); return true;
    case B_cxa_free: return true;
    case B_cxa_throw: {
        u64 o = CA(0), ti = CA(1);
        g_excTI[o] = ti;
        unwind(o, ti);
        return false;
    }
    case B_cxa_begin: {
        u64 o = CA(0);
        g_caught.push_back({o, g_excTI[o]});
        setRet(f, in, cv(o));
        return true;
    }
    case B_cxa_end: if (!g_caught.empty()) g_caught.pop_back(); return true;
    case B_cxa_rethrow: {
        if (g_caught.empty()) violation("terminate", "rethrow without exception", true);
        Exc e = g_caught.back();
        unwind(e.obj, e.ti);
        return false;
    }
    case B_cur_exc: storeMem(CA(0), 8, 64, cv(g_caught.empty() ? 0 : g_caught.back().obj)); return true;
    case B_rethrow_exc: { u64 o = loadMem(CA(0), 8, 64).c; unwind(o, g_excTI[o]); return false; }
    case B_abort: violation("abort", "abort called", true);
    case B_assertfail: violation("assertion", "libstdc++/assert failure", true);
    case B_terminate: violation("terminate", "std::terminate called", true);
    case B_trap: {
        u64 k = callee->getIntrinsicID() == Intrinsic::ubsantrap ? CA(0) : 999;
        violation("undefined-behaviour", "sanitizer trap " + std::to_string(k), true);
    }
    case B_guard_acq: {
        u64 p = CA(0);
        Val v = loadMem(p, 1, 8);
        setRet(f, in, cv(v.c ? 0 : 1));
        storeMem(p, 1, 8, cv(1));
        return true;
    }
    case B_typeid: setRet(f, in, cv(typeIdFor(CA(0)))); return true;
    case B_dyncast: {
        u64 p = CA(0), want = CA(2);
        if (!p) { setRet(f, in, cv(0)); return true; }
        u64 vt = loadMem(p, 8, 64).c;
        u64 ti = loadMem(vt - 8, 8, 64).c;
        setRet(f, in, cv(tiMatches(ti, want) ? p : 0));
        return true;
    }
    case B_expect: setRet(f, in, A(0)); return true;
    case B_isconst: setRet(f, in, cv(0)); return true;
    case B_objsize: setRet(f, in, cv(CA(1) ? 0 : ~0ull)); return true;
    case B_clock: g_clock += 1000000; setRet(f, in, cv(g_clock)); return true;
    case B_memcpy: {
        u64 d = CA(0), s = CA(1), n = CA(2);
        copyMem(d, s, n);
        if (in.dst >= 0) setRet(f, in, cv(d));
        return true;
    }
    case B_memset: {
        u64 d = CA(0);
        Val v = A(1);
        u64 n = CA(2);
        if (v.e && v.e->w > 8) v = fromExpr(mkExtract(v.e, 0, 8));
        if (n) {
            u64 off;
            Object &o = resolve(d, n, off, "write (memset)");
            if (o.readonly) violation("memory-safety", "write to read-only memory", true);
            if (!v.e) {
                memset(o.bytes + off, (int)v.c & 255, n);
                if (o.sym) for (u64 i = 0; i < n; ++i) o.sym[off + i].e = nullptr;
            } else for (u64 i = 0; i < n; ++i) storeMem(d + i, 1, 8, v);
        }
        if (in.dst >= 0) setRet(f, in, cv(d));
        return true;
    }
    case B_minmax: {
        auto id = callee->getIntrinsicID();
        int n = c.nret;
        for (int i = 0; i < n; ++i) {
            Val x = A((size_t)i), y = A((size_t)(n + i));
            unsigned p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
            Val k = icmp(p, c.widths[0], x, y);
            Val r = !k.e ? (k.c ? x : y) : fromExpr(mkIte(k.e, toE(x, c.widths[0]), toE(y, c.widths[0])));
            if (r.e && r.e->rng && x.e && y.e) {}
            g_regs[f.base + (size_t)(in.dst + i)] = r;
        }
        return true;
    }
    case B_abs: {
        unsigned w = c.widths[0];
        Val x = A(0), z = cv(0);
        Val k = icmp(CmpInst::ICMP_SLT, w, x, w <= 64 ? z : Val{0, mkConst(w, 0)});
        Val ng = binop(K_Sub, w, cv(0), x);
        setRet(f, in, !k.e ? (k.c ? ng : x) : fromExpr(mkIte(k.e, toE(ng, w), toE(x, w))));
        return true;
    }
    case B_ctlz: case B_cttz: case B_ctpop: {
        unsigned w = c.widths[0];
        u64 x = CA(0), r = 0;
        if (b == B_ctpop) r = (u64)__builtin_popcountll(x);
        else if (b == B_ctlz) r = x ? (u64)__builtin_clzll(x) - (64 - w) : w;
        else r = x ? (u64)__builtin_ctzll(x) : w;
        setRet(f, in, cv(r));
        return true;
    }
    case B_bswap: {
        unsigned w = c.widths[0];
        u64 x = CA(0), r = 0;
        for (unsigned i = 0; i < w / 8; ++i) r |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i);
        setRet(f, in, cv(r));
        return true;
    }
    case B_addo: {
        unsigned w = c.widths[0];
        auto id = callee->getIntrinsicID();
        bool sgn = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Kind k = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? K_Add
                 : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? K_Sub : K_Mul;
        Val x = A(0), y = A(1);
        Val r = binop(k, w, x, y);
        Val ov;
        unsigned w2 = k == K_Mul ? 2 * w : w + 1;
        if (w2 > 128) engineError("overflow intrinsic too wide");
        Expr *ex = toE(x, w), *ey = toE(y, w);
        Expr *wide = mkBin(k, sgn ? mkSExt(ex, w2) : mkZExt(ex, w2), sgn ? mkSExt(ey, w2) : mkZExt(ey, w2));
        bool fits = false;
        if (wide->rng) {
            if (sgn && wide->lo >= smin(w) && wide->hi <= smax(w)) fits = true;
            if (!sgn && wide->lo >= 0 && (w >= 64 ? true : wide->hi <= (i64)mask64(w))) fits = w < 64 || k != K_Mul;
        }
        if (fits) ov = cv(0);
        else {
            Expr *er = toE(r, w);
            ov = fromExpr(mkNot(mkBin(K_Eq, wide, sgn ? mkSExt(er, w2) : mkZExt(er, w2))));
        }
        g_regs[f.base + (size_t)in.dst] = r;
        g_regs[f.base + (size_t)in.dst + 1] = ov;
        return true;
    }
    case B_sat: {
        unsigned w = c.widths[0];
        auto id = callee->getIntrinsicID();
        Val x = A(0), y = A(1);
        if (id == Intrinsic::usub_sat) {
            Val k = icmp(CmpInst::ICMP_ULT, w, x, y), d = binop(K_Sub, w, x, y);
            setRet(f, in, !k.e ? (k.c ? cv(0) : d) : fromExpr(mkIte(k.e, mkConst(w, 0), toE(d, w))));
            return true;
        }
        if (id == Intrinsic::uadd_sat) {
            Val s = binop(K_Add, w, x, y), k = icmp(CmpInst::ICMP_ULT, w, s, x);
            setRet(f, in, !k.e ? (k.c ? cv(mask64(w)) : s) : fromExpr(mkIte(k.e, mkConst(w, mask64(w)), toE(s, w))));
            return true;
        }
        engineError("signed saturating arithmetic");
    }
    case B_fsh: {
        unsigned w = c.widths[0];
        Val x = A(0), y = A(1);
        u64 s = CA(2) % w;
        bool left = callee->getIntrinsicID() == Intrinsic::fshl;
        if (2 * w > 128) engineError("fsh width");
        Expr *cc = mkConcat(toE(x, w), toE(y, w));
        unsigned off = left ? (unsigned)(w - s) : (unsigned)s;
        setRet(f, in, fromExpr(left && s == 0 ? toE(x, w) : mkExtract(cc, off, w)));
        return true;
    }
    case B_math1: {
        double x = asD(CA(0), c.widths[0]);
        double r;
        StringRef n = callee->getName();
        if (n.contains("fabs")) r = std::fabs(x);
        else if (n.contains("floor")) r = std::floor(x);
        else if (n.contains("ceil")) r = std::ceil(x);
        else if (n.contains("sqrt")) r = std::sqrt(x);
        else if (n.contains("round")) r = std::round(x);
        else if (n.contains("trunc")) r = std::trunc(x);
        else if (n == "log") r = std::log(x);
        else if (n == "log2") r = std::log2(x);
        else if (n == "exp") r = std::exp(x);
        else engineError("math function " + n.str());
        setRet(f, in, cv(fromD(r, c.widths[0])));
        return true;
    }
    case B_math2: {
        double x = asD(CA(0), 64), y = asD(CA(1), 64);
        setRet(f, in, cv(fromD(callee->getName().contains("pow") ? std::pow(x, y) : std::fmod(x, y), 64)));
        return true;
    }
    case B_fmuladd: {
        double x = asD(CA(0), c.widths[0]), y = asD(CA(1), c.widths[0]), z = asD(CA(2), c.widths[0]);
        setRet(f, in, cv(fromD(x * y + z, c.widths[0])));
        return true;
    }
    }
    engineError("unmodelled function " + callee->getName().str());
}

static void run() {
    size_t bottom = 0;
    for (;;) {
        Frame &f = g_frames.back();
        const Inst &in = f.fc->code[(size_t)f.pc];
        ++l_instrs;
        if ((l_instrs & 0xfffff) == 0) {
            flushCounters();
            l_instrs = 1;
            checkStop();
        }
        switch (in.op) {
        case O_BB:
            if (!S->cov[in.imm].load(std::memory_order_relaxed)) S->cov[in.imm].store(1, std::memory_order_relaxed);
            break;
        case O_Nop: break;
        case O_Bin:
            for (int i = 0; i < in.n; ++i) {
                int sh = i;
                Val a = getOp(f, in.a >= 0 ? in.a + sh : in.a - sh), b = getOp(f, in.b >= 0 ? in.b + sh : in.b - sh);
                Kind k = (Kind)in.sub;
                if (k == K_SDiv || k == K_UDiv || k == K_SRem || k == K_URem) {
                    Val z = icmp(CmpInst::ICMP_EQ, in.w, b, in.w <= 64 ? cv(0) : Val{0, mkConst(in.w, 0)});
                    if (z.e ? branchOn(z.e) : z.c) violation("undefined-behaviour", "division by zero", true);
                    if ((k == K_SDiv || k == K_SRem) && in.w >= 32) {
                        Val m1 = icmp(CmpInst::ICMP_EQ, in.w, b, in.w <= 64 ? cv(mask64(in.w)) : Val{0, mkConst(in.w, maskw(in.w))});
                        if (m1.e || m1.c) {
                            Val mn = icmp(CmpInst::ICMP_EQ, in.w, a, in.w <= 64 ? cv(1ull << (in.w - 1)) : Val{0, mkConst(in.w, (u128)1 << (in.w - 1))});
                            Val both = binop(K_And, 1, m1, mn);
                            if (both.e ? branchOn(both.e) : both.c) violation("undefined-behaviour", "signed division overflow", true);
                        }
                    }
                }
                g_regs[f.base + (size_t)(in.dst + i)] = binop(k, in.w, a, b);
            }
            break;
        case O_Icmp:
            for (int i = 0; i < in.n; ++i)
                g_regs[f.base + (size_t)(in.dst + i)] = icmp(in.sub, in.w, getOp(f, in.a >= 0 ? in.a + i : in.a - i), getOp(f, in.b >= 0 ? in.b + i : in.b - i));
            break;
        case O_Select: {
            Val k = getOp(f, in.a);
            static std::vector<Val> tmp;
            tmp.clear();
            for (int i = 0; i < in.n; ++i) {
                if (in.imm) k = getOp(f, in.a >= 0 ? in.a + i : in.a - i);
                Val x = getOp(f, in.b >= 0 ? in.b + i : in.b - i), y = getOp(f, in.c >= 0 ? in.c + i : in.c - i);
                unsigned w = f.fc->tys[(size_t)in.ext][(size_t)i].w;
                if (k.e) { int kf = lookupFact(k.e); if (kf >= 0) k = cv((u64)kf); }
                if (!k.e) tmp.push_back(k.c ? x : y);
                else tmp.push_back(fromExpr(mkIte(k.e, toE(x, w), toE(y, w))));
            }
            for (int i = 0; i < in.n; ++i) g_regs[f.base + (size_t)(in.dst + i)] = tmp[(size_t)i];
            break;
        }
        case O_Trunc:
            for (int i = 0; i < in.n; ++i) {
                Val v = getOp(f, in.a >= 0 ? in.a + i : in.a - i);
                g_regs[f.base + (size_t)(in.dst + i)] = v.e ? fromExpr(mkExtract(v.e, 0, in.w)) : cv(v.c & mask64(in.w));
            }
            break;
        case O_ZExt:
            for (int i = 0; i < in.n; ++i) {
                Val v = getOp(f, in.a >= 0 ? in.a + i : in.a - i);
                g_regs[f.base + (size_t)(in.dst + i)] = v.e || in.w > 64 ? fromExpr(mkZExt(toE(v, in.w2), in.w)) : v;
            }
            break;
        case O_SExt:
            for (int i = 0; i < in.n; ++i) {
                Val v = getOp(f, in.a >= 0 ? in.a + i : in.a - i);
                g_regs[f.base + (size_t)(in.dst + i)] = v.e || in.w > 64 ? fromExpr(mkSExt(toE(v, in.w2), in.w)) : cv((u64)sext128(v.c, in.w2) & mask64(in.w));
            }
            break;
        case O_Copy: {
            if (in.n == 1) g_regs[f.base + (size_t)in.dst] = getOp(f, in.a);
            else {
                static std::vector<Val> tmp;
                tmp.clear();
                for (int i = 0; i < in.n; ++i) tmp.push_back(getOp(f, in.a >= 0 ? in.a + i : in.a - i));
                for (int i = 0; i < in.n; ++i) g_regs[f.base + (size_t)(in.dst + i)] = tmp[(size_t)i];
            }
            break;
        }
        case O_VecDyn: { // bitcast between differently flattened types, via bits
            auto &st = f.fc->tys[in.w2];
            auto &dt = f.fc->tys[(size_t)in.ext];
            Expr *all = nullptr;
            for (size_t i = 0; i < st.size(); ++i) {
                Expr *x = toE(getOp(f, in.a >= 0 ? in.a + (int)i : in.a - (int)i), st[i].w);
                all = all ? mkConcat(x, all) : x;
            }
            unsigned off = 0;
            for (size_t i = 0; i < dt.size(); ++i) {
                g_regs[f.base + (size_t)in.dst + i] = fromExpr(mkExtract(all, off, dt[i].w));
                off += dt[i].w;
            }
            break;
        }
        case O_FBin:
            for (int i = 0; i < in.n; ++i) {
                double x = asD(concrete(getOp(f, in.a >= 0 ? in.a + i : in.a - i)), in.w), y = asD(concrete(getOp(f, in.b >= 0 ? in.b + i : in.b - i)), in.w), r;
                switch (in.imm) {
                case Instruction::FAdd: r = x + y; break;
                case Instruction::FSub: r = x - y; break;
                case Instruction::FMul: r = x * y; break;
                case Instruction::FDiv: r = x / y; break;
                case Instruction::FRem: r = std::fmod(x, y); break;
                default: engineError("fp op");
                }
                g_regs[f.base + (size_t)(in.dst + i)] = cv(fromD(r, in.w));
            }
            break;
        case O_FNeg: g_regs[f.base + (size_t)in.dst] = cv(fromD(-asD(concrete(getOp(f, in.a)), in.w), in.w)); break;
        case O_FCmp: {
            double x = asD(concrete(getOp(f, in.a)), in.w), y = asD(concrete(getOp(f, in.b)), in.w);
            bool un = std::isnan(x) || std::isnan(y), r;
            switch (in.sub) {
            case CmpInst::FCMP_OEQ: r = !un && x == y; break;
            case CmpInst::FCMP_OGT: r = !un && x > y; break;
            case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break;
            case CmpInst::FCMP_OLE: r = !un && x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            case CmpInst::FCMP_UNE: r = un || x != y; break;
            case CmpInst::FCMP_TRUE: r = true; break;
            default: r = false;
            }
            g_regs[f.base + (size_t)in.dst] = cv(r);
            break;
        }
        case O_FpToSi: case O_FpToUi: {
            double x = asD(concrete(getOp(f, in.a)), in.w2);
            u64 r = in.op == O_FpToSi ? (u64)(i64)x : (u64)x;
            g_regs[f.base + (size_t)in.dst] = cv(r & mask64(in.w));
            break;
        }
        case O_SiToFp: g_regs[f.base + (size_t)in.dst] = cv(fromD((double)(i64)sext128(concrete(getOp(f, in.a)), in.w2), in.w)); break;
        case O_UiToFp: g_regs[f.base + (size_t)in.dst] = cv(fromD((double)concrete(getOp(f, in.a)), in.w)); break;
        case O_FpTrunc: case O_FpExt: g_regs[f.base + (size_t)in.dst] = cv(fromD(asD(concrete(getOp(f, in.a)), in.w2), in.w)); break;
        case O_Load: doLoad(f, in); break;
        case O_Store: {
            u64 p = concrete(getOp(f, in.a));
            auto &ty = f.fc->tys[(size_t)in.ext];
            for (int i = 0; i < in.n; ++i) storeMem(p + ty[(size_t)i].off, ty[(size_t)i].bytes, ty[(size_t)i].w, getOp(f, in.b >= 0 ? in.b + i : in.b - i));
            break;
        }
        case O_Gep: {
            Val p = getOp(f, in.a);
            auto &g = f.fc->geps[(size_t)in.ext];
            u64 off = (u64)g.off;
            Expr *se = nullptr;
            for (auto &t : g.idx) {
                Val v = getOp(f, std::get<0>(t));
                unsigned w = std::get<1>(t);
                if (!v.e) off += (u64)((i64)sext128(v.c, w) * std::get<2>(t));
                else {
                    Expr *x = mkBin(K_Mul, mkSExt(v.e, 64), mkConst(64, (u64)std::get<2>(t)));
                    se = se ? mkBin(K_Add, se, x) : x;
                }
            }
            if (!p.e && !se) g_regs[f.base + (size_t)in.dst] = cv(p.c + off);
            else {
                Expr *e = mkBin(K_Add, toE(p, 64), mkConst(64, off));
                if (se) e = mkBin(K_Add, e, se);
                g_regs[f.base + (size_t)in.dst] = fromExpr(e);
            }
            break;
        }
        case O_Alloca: {
            u64 n = concrete(getOp(f, in.a)) * in.imm;
            u64 a = allocObj(n, 1);
            f.allocas.push_back((uint32_t)(a >> 32));
            g_regs[f.base + (size_t)in.dst] = cv(a);
            break;
        }
        case O_Br: takeEdge(f, f.fc->edges[(size_t)in.t0]); continue;
        case O_CondBr: {
            Val v = getOp(f, in.a);
            bool t = v.e ? branchOn(v.e) : v.c != 0;
            takeEdge(f, f.fc->edges[(size_t)(t ? in.t0 : in.t1)]);
            continue;
        }
        case O_Switch: {
            Val v = getOp(f, in.a);
            auto &s = f.fc->switches[(size_t)in.ext];
            int target = s.def;
            if (!v.e) {
                for (auto &c : s.cases) if (c.first == v.c) { target = c.second; break; }
            } else {
                for (auto &c : s.cases) if (branchOn(mkBin(K_Eq, v.e, mkConst(in.w, c.first)))) { target = c.second; break; }
            }
            takeEdge(f, f.fc->edges[(size_t)target]);
            continue;
        }
        case O_Call: {
            CallInfo &c = f.fc->calls[(size_t)in.ext];
            Function *callee = c.callee;
            if (!callee) {
                u64 a = concrete(getOp(f, c.calleeOp));
                u64 ix = ((a & 0xffffffffull) - 4096) / 16;
                if ((a >> 32) != FUNC_REGION || ix >= g_funcs.size()) violation("memory-safety", "call through an invalid pointer", true);
                callee = g_funcs[ix];
            }
            int b = c.callee ? c.builtin : 0;
            if (!b) {
                static DenseMap<Function *, int> bcache;
                auto it = bcache.find(callee);
                if (it != bcache.end()) b = it->second;
                else {
                    auto nb = nameBuiltins().find(callee->getName().str());
                    b = nb != nameBuiltins().end() ? nb->second : (callee->isDeclaration() ? B_Unknown : -1);
                    bcache[callee] = b;
                }
                if (c.callee) c.builtin = b;
            }
            if (b > 0) {
                if (b == B_Unknown) engineError("unmodelled function " + callee->getName().str());
                if (!runBuiltin(b, f, in, c, callee)) continue;
                Frame &g = g_frames.back();
                if (c.invoke) takeEdge(g, c.normal);
                else ++g.pc;
                continue;
            }
            FuncCode *fc = c.callee ? (c.code ? c.code : (c.code = getCode(callee))) : getCode(callee);
            static std::vector<Val> args;
            args.clear();
            for (int op : c.args) args.push_back(getOp(f, op));
            std::vector<uint32_t> copies;
            for (auto &bv : c.byval) {
                u64 n = allocObj(bv.second, 1);
                copyMem(n, concrete(args[(size_t)bv.first]), bv.second);
                args[(size_t)bv.first] = cv(n);
                copies.push_back((uint32_t)(n >> 32));
            }
            pushFrame(fc, args.data(), args.size(), in.dst, c.nret, &c);
            for (uint32_t id : copies) g_frames.back().allocas.push_back(id);
            continue;
        }
        case O_Ret: {
            static std::vector<Val> rv;
            rv.clear();
            for (int i = 0; i < in.n; ++i) rv.push_back(getOp(f, in.a >= 0 ? in.a + i : in.a - i));
            int dst = f.retDst;
            int nret = f.nret;
            const CallInfo *ci = f.ci;
            if (g_trace) fprintf(stderr, "%*s< %s\n", (int)g_frames.size(), "", f.fc->F->getName().str().c_str());
            popFrame();
            if (g_frames.size() == bottom) return;
            Frame &g = g_frames.back();
            if (dst >= 0) for (int i = 0; i < nret && i < (int)rv.size(); ++i) g_regs[g.base + (size_t)(dst + i)] = rv[(size_t)i];
            if (ci && ci->invoke) takeEdge(g, ci->normal);
            else ++g.pc;
            continue;
        }
        case O_LandingPad: {
            auto *LP = cast<LandingPadInst>(in.I);
            u64 sel = 0;
            for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
                if (LP->isCatch(i)) {
                    u64 t = evalConst1(LP->getClause(i)).c;
                    if (tiMatches(g_curTI, t)) { sel = typeIdFor(t); break; }
                } else { // filter: empty exception specification
                    sel = (u64)(uint32_t)-1;
                    break;
                }
            }
            g_regs[f.base + (size_t)in.dst] = cv(g_curExc);
            g_regs[f.base + (size_t)in.dst + 1] = cv(sel);
            break;
        }
        case O_Resume: {
            u64 o = concrete(getOp(f, in.a));
            u64 ti = g_excTI[o];
            popFrame();
            unwind(o, ti);
            continue;
        }
        case O_Unreachable: violation("undefined-behaviour", "unreachable code reached", true);
        case O_CmpXchg: {
            u64 p = concrete(getOp(f, in.a));
            auto &t = f.fc->tys[(size_t)in.ext][0];
            Val old = loadMem(p, t.bytes, t.w);
            Val eq = icmp(CmpInst::ICMP_EQ, t.w, old, getOp(f, in.b));
            bool s = eq.e ? branchOn(eq.e) : eq.c;
            if (s) storeMem(p, t.bytes, t.w, getOp(f, in.c));
            g_regs[f.base + (size_t)in.dst] = old;
            g_regs[f.base + (size_t)in.dst + 1] = cv(s);
            break;
        }
        case O_Rmw: {
            u64 p = concrete(getOp(f, in.a));
            auto &t = f.fc->tys[(size_t)in.ext][0];
            Val old = loadMem(p, t.bytes, t.w), v = getOp(f, in.b), r;
            switch (in.imm) {
            case AtomicRMWInst::Xchg: r = v; break;
            case AtomicRMWInst::Add: r = binop(K_Add, t.w, old, v); break;
            case AtomicRMWInst::Sub: r = binop(K_Sub, t.w, old, v); break;
            case AtomicRMWInst::And: r = binop(K_And, t.w, old, v); break;
            case AtomicRMWInst::Or: r = binop(K_Or, t.w, old, v); break;
            case AtomicRMWInst::Xor: r = binop(K_Xor, t.w, old, v); break;
            default: engineError("atomicrmw");
            }
            storeMem(p, t.bytes, t.w, r);
            g_regs[f.base + (size_t)in.dst] = old;
            break;
        }
        default: engineError("opcode");
        }
        ++g_frames.back().pc;
    }
}

static void callFunc(Function *F) {
    pushFrame(getCode(F), nullptr, 0, -1, 0, nullptr);
    run();
}

static std::string demangle(const std::string &s) {
    std::string r = s;
    return r;
}

int main(int argc, char **argv) {
    std::string file, entry = "harness";
    int jobs = 8;
    double timeout = 600;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = nxt();
        else if (a == "--out") g_out = nxt();
        else if (a == "--jobs") jobs = std::stoi(nxt());
        else if (a == "--timeout") timeout = std::stod(nxt());
        else if (a == "--seed") g_seed = std::stoull(nxt());
        else if (a == "--samples") g_max_samples = std::stoull(nxt());
        else if (a == "--known") g_known.insert(nxt());
        else if (a == "--slow") g_slow = std::stod(nxt());
        else if (a == "--bv") g_mode = 1;
        else if (a == "--trace") g_trace = true;
        else if (a == "--param") { std::string p = nxt(); auto q = p.find('='); g_params[p.substr(0, q)] = std::stoll(p.substr(q + 1)); }
        else file = a;
    }
    if (g_out.empty()) g_out = ".";
    double t0 = now();
    mkdir(g_out.c_str(), 0777);
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)S, 0, sizeof(Shared));
    if (pipe2(g_pipe, O_NONBLOCK) != 0) return 3;
    for (int i = 0; i < jobs - 1; ++i) { char c = 1; if (write(g_pipe[1], &c, 1) != 1) return 3; }
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(file, err, ctx);
    if (!mod) { err.print("symex", errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    for (auto &F : *M) for (auto &BB : F) { if (g_bbs.size() < MAXBB - 1) { g_bbid[&BB] = (unsigned)g_bbs.size(); g_bbs.push_back(&BB); } }

    prctl(PR_SET_CHILD_SUBREAPER, 1);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_super = getpid();
    setpgid(0, 0);
    pid_t root = fork();
    if (root == 0) {
        rlimit rl{(rlim_t)timeout + 30, (rlim_t)timeout + 40};
        setrlimit(RLIMIT_CPU, &rl);
        g_have_token = true;
        g_objs.resize(2);
        Z3_config cfg = Z3_mk_config();
        Z = Z3_mk_context_rc(cfg);
        Z3_set_ast_print_mode(Z, Z3_PRINT_SMTLIB2_COMPLIANT);
        ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
        Z3_solver_inc_ref(Z, ZS);
        ZI = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LIA"));
        Z3_solver_inc_ref(Z, ZI);
        {
            Z3_params ps = Z3_mk_params(Z);
            Z3_params_inc_ref(Z, ps);
            Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "rlimit"), 1000000); // a timeout would start a thread, which does not survive fork
            Z3_solver_set_params(Z, ZI, ps);
            Z3_params_dec_ref(Z, ps);
        }
        Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) {
            lockS();
            if (!S->stop) { snprintf(S->msg, sizeof S->msg, "z3 error: %s", Z3_get_error_msg(c, e)); S->stop = 2; }
            unlockS();
            endProcess();
        });
        for (auto &G : M->globals()) {
            u64 sz = G.hasInitializer() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
            if (!G.hasInitializer()) {
                sz = 4096;
                u64 a = allocObj(sz, 3);
                g_gaddr[&G] = a;
                g_name2addr[G.getName().str()] = a;
                continue;
            }
            u64 a = allocObj(sz, 0);
            g_gaddr[&G] = a;
            g_name2addr[G.getName().str()] = a;
        }
        for (auto &F : *M) funcAddr(&F);
        for (auto &G : M->globals()) if (G.hasInitializer()) {
            u64 a = g_gaddr[&G];
            if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used" || G.getName() == "llvm.compiler.used" || G.getSection() == "llvm.metadata") continue;
            initMem(a, G.getInitializer());
            if (G.isConstant()) g_objs[a >> 32].readonly = true;
        }
        if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) {
            if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
                std::vector<std::pair<u64, Function *>> cs;
                for (unsigned i = 0; i < CA->getNumOperands(); ++i) {
                    auto *CS = cast<ConstantStruct>(CA->getOperand(i));
                    if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
                }
                std::stable_sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return x.first < y.first; });
                for (auto &p : cs) callFunc(p.second);
            }
        }
        Function *E = M->getFunction(entry);
        if (!E || E->isDeclaration()) engineError("no entry function " + entry);
        callFunc(E);
        pathEnd();
    }
    // supervise: wait until every state process is gone
    bool timedOut = false;
    int status = 0;
    for (;;) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0) { if (errno == ECHILD) break; continue; }
        if (p == 0) {
            if (!timedOut && now() - t0 > timeout) {
                timedOut = true;
                int z = 0;
                S->stop.compare_exchange_strong(z, 3);
            }
            if (timedOut && now() - t0 > timeout + 20) { // a state is stuck in the solver
                signal(SIGTERM, SIG_IGN);
                kill(0, SIGTERM);
                usleep(200000);
                signal(SIGTERM, SIG_DFL);
                break;
            }
            usleep(2000);
            continue;
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            int z = 0;
            if (S->stop.compare_exchange_strong(z, 2)) snprintf(S->msg, sizeof S->msg, "state process died with status %d", st);
        }
    }
    double wall = now() - t0;
    // vacuity: everything announced with vf_need must be reached
    std::vector<std::string> missing;
    std::ostringstream js;
    auto esc = [](const std::string &s) {
        std::string r;
        for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
        return r;
    };
    std::string checks, reaches;
    std::set<std::string> have;
    for (auto &e : S->ids) if (e.kind == 1 || e.kind == 2) have.insert(e.name);
    for (auto &e : S->ids) {
        if (e.kind == 3 && !have.count(e.name)) missing.push_back(e.name);
        if (e.kind == 1) checks += (checks.empty() ? "" : ",") + ("\"" + esc(e.name) + "\": {\"evaluated\": " + std::to_string(e.count) + ", \"decided_by_solver\": " + std::to_string(e.sym) + "}");
        if (e.kind == 2) reaches += (reaches.empty() ? "" : ",") + ("\"" + esc(e.name) + "\": " + std::to_string(e.count));
    }
    std::set<std::string> funcs;
    for (size_t i = 0; i < g_bbs.size(); ++i) if (S->cov[i]) {
        for (auto &I : *g_bbs[i]) {
            if (auto *sp = g_bbs[i]->getParent()->getSubprogram()) {
                auto fn = sp->getFilename();
                if (fn.contains("clingcon")) funcs.insert(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
            }
            for (DILocation *l = I.getDebugLoc(); l; l = l->getInlinedAt()) {
                auto *sp = l->getScope()->getSubprogram();
                if (sp && sp->getFilename().contains("clingcon")) funcs.insert(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
            }
        }
    }
    int stop = S->stop;
    const char *res = stop == 1 ? "violation" : stop == 2 ? "error" : stop == 3 ? "timeout" : (!missing.empty() ? "vacuous" : "complete");
    js << "{\n \"result\": \"" << res << "\",\n \"paths\": " << S->paths << ",\n \"pruned\": " << S->pruned << ",\n \"forks\": " << S->forks << ",\n \"queries\": " << S->queries
       << ",\n \"sat\": " << S->sat << ",\n \"unsat\": " << S->unsat << ",\n \"check_queries\": " << S->queries_check << ",\n \"int_queries\": " << S->queries_int << ",\n \"solver_s\": " << (double)S->solver_ns * 1e-9
       << ",\n \"max_query_s\": " << (double)S->maxquery_ns * 1e-9 << ",\n \"instructions\": " << S->instrs << ",\n \"concretizations\": " << S->concretized << ",\n \"max_depth\": " << S->maxdepth
       << ",\n \"samples\": " << std::min<u64>(S->samples, g_max_samples) << ",\n \"known_hits\": " << S->known_hits << ",\n \"wall_s\": " << wall
       << ",\n \"violation_id\": \"" << esc(S->vid) << "\",\n \"message\": \"" << esc(S->msg) << "\",\n \"missing\": [";
    for (size_t i = 0; i < missing.size(); ++i) js << (i ? "," : "") << "\"" << esc(missing[i]) << "\"";
    js << "],\n \"checks\": {" << checks << "},\n \"reached\": {" << reaches << "},\n \"functions\": [";
    bool first = true;
    for (auto &fn : funcs) { js << (first ? "" : ",") << "\"" << esc(demangle(fn)) << "\""; first = false; }
    js << "]\n}\n";
    std::ofstream(g_out + "/result.json") << js.str();
    (void)status;
    fflush(stdout);
    _exit(stop == 1 ? 1 : stop ? 3 : !missing.empty() ? 3 : 0);
}
