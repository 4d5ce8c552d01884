// Hash-consed bit-vector expressions with constant folding and range analysis.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Kind : uint8_t {
    K_Const, K_Sym, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem, K_Shl, K_LShr, K_AShr,
    K_And, K_Or, K_Xor, K_Concat, K_Extract, K_ZExt, K_SExt, K_Eq, K_Ult, K_Slt, K_Ite
};

struct Expr {
    Kind k;
    uint8_t w;
    bool rng;      // signed range lo..hi is valid
    uint32_t id;
    Expr *a, *b, *c;
    u128 v;        // constant value / symbol index / extract offset
    i64 lo, hi;    // signed range
    uint32_t stamp;
    u128 ev;
    void *zbv, *zbool;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : ((((u128)1) << w) - 1); }
static inline i128 sext128(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}
static inline i64 smin(unsigned w) { return w >= 64 ? INT64_MIN : -((i64)1 << (w - 1)); }
static inline i64 smax(unsigned w) { return w >= 64 ? INT64_MAX : (((i64)1 << (w - 1)) - 1); }

Expr *mkConst(unsigned w, u128 v);
Expr *mkSym(unsigned w, u64 index);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *e, unsigned off, unsigned w);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot(Expr *e); // width 1
u128 foldBin(Kind k, unsigned w, u128 a, u128 b);

extern std::vector<u64> g_model;   // value of every symbol
extern uint32_t g_model_stamp;
u128 evalExpr(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
extern u64 g_nexpr;
