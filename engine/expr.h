// Hash-consed bit-vector expressions (width 1..64) with constant folding.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <cassert>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { VAR, CONST, NOT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT };

struct Expr {
    Op op; u8 w; u8 lo; bool uninit;      // lo: EXTRACT offset
    u32 id, var;                          // var: index of a VAR
    Expr *a, *b, *c;
    u64 k;                                // CONST value
    u64 umin, umax, kz;                   // unsigned range, bits known to be zero
    u64 vs[4];                            // variables (index mod 256)
    u64 epoch, ev;                        // memo for eval()
};
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct Val { Expr *e; u64 c; unsigned w;  // e == null: constant c of width w
    Val() : e(nullptr), c(0), w(0) {}
    Val(u64 c_, unsigned w_) : e(nullptr), c(c_ & maskw(w_)), w(w_) {}
    Val(Expr *x) : e(x->op == CONST ? nullptr : x), c(x->op == CONST ? x->k : 0), w(x->w) {}
    bool sym() const { return e != nullptr; }
};
Expr *mkConst(u64 k, unsigned w);
Expr *mkVar(u32 idx, unsigned w, bool uninit);
static inline Expr *X(const Val &v) { return v.e ? v.e : mkConst(v.c, v.w); }
Val mkBin(Op op, Val a, Val b);
Val mkNot(Val a);
Val mkIte(Val c, Val a, Val b);
Val mkZext(Val a, unsigned w);
Val mkSext(Val a, unsigned w);
Val mkExtract(Val a, unsigned lo, unsigned w);
Val mkConcat(Val hi, Val lo);
Val mkTrunc(Val a, unsigned w);
static inline Val mkEq(Val a, Val b) { return mkBin(EQ, a, b); }

// variable values of one path: [0] inputs, [1] uninitialised bytes
struct Assign { std::vector<u64> in, un; };
u64 evalExpr(Expr *e, const Assign &m);
static inline u64 evalVal(const Val &v, const Assign &m) { return v.e ? evalExpr(v.e, m) : v.c; }
extern u64 n_exprs;
