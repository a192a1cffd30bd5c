#include "expr.h"
#include <algorithm>
u64 n_exprs;
struct Key { u64 h; Expr *e; };
static std::unordered_multimap<u64, Expr *> *table;
static u64 hashOf(Op op, unsigned w, unsigned lo, Expr *a, Expr *b, Expr *c, u64 k, u32 var, bool un)
{
    u64 h = 1469598103934665603ull;
    auto mix = [&](u64 v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
    mix(op); mix(w); mix(lo); mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(k); mix(var); mix(un);
    return h;
}
static void bounds(Expr *e)
{
    u64 M = maskw(e->w);
    Expr *a = e->a, *b = e->b, *c = e->c;
    e->umin = 0; e->umax = M; e->kz = 0;
    switch (e->op) {
    case CONST: e->umin = e->umax = e->k; e->kz = ~e->k & M; break;
    case ZEXT: e->umin = a->umin; e->umax = a->umax; e->kz = (a->kz | ~maskw(a->w)) & M; break;
    case SEXT: if (!(a->umax >> (a->w - 1))) { e->umin = a->umin; e->umax = a->umax; e->kz = (a->kz | ~maskw(a->w)) & M; } break;
    case CONCAT: e->umin = a->umin << b->w | b->umin; e->umax = a->umax << b->w | b->umax; e->kz = (a->kz << b->w | b->kz) & M; break;
    case EXTRACT: e->kz = (a->kz >> e->lo) & M; if (a->umax >> e->lo <= M) { e->umax = a->umax >> e->lo; e->umin = a->umin >> e->lo; } break;
    case AND: e->kz = a->kz | b->kz; e->umax = std::min(a->umax, b->umax); break;
    case OR: case XOR: e->kz = a->kz & b->kz; if (e->op == OR) e->umin = std::max(a->umin, b->umin); break;
    case ADD: { unsigned __int128 s = (unsigned __int128)a->umax + b->umax; if (s <= M) { e->umax = (u64)s; e->umin = a->umin + b->umin; }
        u64 lz = ~(a->kz & b->kz); unsigned t = lz ? __builtin_ctzll(lz) : 64; e->kz = maskw(t) & M; if (!t) e->kz = 0; break; }
    case SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; }
        { u64 lz = ~(a->kz & b->kz); unsigned t = lz ? __builtin_ctzll(lz) : 64; if (t) e->kz = maskw(t) & M; } break;
    case MUL: { unsigned __int128 s = (unsigned __int128)a->umax * b->umax; if (s <= M) { e->umax = (u64)s; e->umin = a->umin * b->umin; }
        unsigned ta = ~a->kz ? __builtin_ctzll(~a->kz) : 64, tb = ~b->kz ? __builtin_ctzll(~b->kz) : 64; unsigned t = std::min(64u, ta + tb); if (t) e->kz = maskw(t) & M; break; }
    case UDIV: if (b->umin) { e->umax = a->umax / b->umin; e->umin = a->umin / b->umax; } break;
    case UREM: if (b->umin) e->umax = std::min(a->umax, b->umax - 1); break;
    case SHL: if (b->op == CONST && b->k < e->w) { unsigned s = b->k; if (a->umax <= (M >> s)) { e->umin = a->umin << s; e->umax = a->umax << s; } e->kz = ((a->kz << s) | maskw(s)) & M; if (!s) e->kz = a->kz; } break;
    case LSHR: if (b->op == CONST && b->k < e->w) { e->umin = a->umin >> b->k; e->umax = a->umax >> b->k; e->kz = ((a->kz >> b->k) | ~(M >> b->k)) & M; } break;
    case ITE: e->umin = std::min(b->umin, c->umin); e->umax = std::max(b->umax, c->umax); e->kz = b->kz & c->kz; break;
    default: break;
    }
    // the two views refine each other
    u64 t = M & ~e->kz; if (e->umax > t) e->umax = t;
    if (e->umax < M) { unsigned bits = e->umax ? 64 - __builtin_clzll(e->umax) : 0; e->kz |= M & ~maskw(bits); if (!bits) e->kz = M; }
}
static Expr *mk(Op op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u64 k = 0, unsigned lo = 0, u32 var = 0, bool un = false)
{
    if (!table) { table = new std::unordered_multimap<u64, Expr *>(); table->reserve(1 << 16); }
    u64 h = hashOf(op, w, lo, a, b, c, k, var, un);
    auto r = table->equal_range(h);
    for (auto i = r.first; i != r.second; ++i) {
        Expr *e = i->second;
        if (e->op == op && e->w == w && e->lo == lo && e->a == a && e->b == b && e->c == c && e->k == k && e->var == var && (op != VAR || e->uninit == un)) return e;
    }
    Expr *e = new Expr();
    e->op = op; e->w = w; e->lo = lo; e->a = a; e->b = b; e->c = c; e->k = k; e->var = var; e->id = n_exprs++;
    e->uninit = un || (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
    memset(e->vs, 0, sizeof e->vs);
    if (op == VAR) { unsigned i = (var + (un ? 128 : 0)) & 255; e->vs[i >> 6] |= 1ull << (i & 63); }
    for (Expr *x : {a, b, c}) if (x) for (int i = 0; i < 4; i++) e->vs[i] |= x->vs[i];
    e->epoch = 0;
    bounds(e);
    table->emplace(h, e);
    return e;
}
Expr *mkConst(u64 k, unsigned w) { return mk(CONST, w, 0, 0, 0, k & maskw(w)); }
Expr *mkVar(u32 idx, unsigned w, bool un) { return mk(VAR, w, 0, 0, 0, 0, 0, idx, un); }

static u64 fold(Op op, u64 a, u64 b, unsigned w)
{
    u64 M = maskw(w);
    switch (op) {
    case ADD: return (a + b) & M; case SUB: return (a - b) & M; case MUL: return (a * b) & M;
    case UDIV: return b ? a / b : M; case UREM: return b ? a % b : a;
    case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - a) & M; return (u64)(x / y) & M; }
    case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & M; case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & M; }
    case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
    case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
    default: abort();
    }
}
static bool isCmp(Op o) { return o >= EQ && o <= SLE; }

Val mkNot(Val a)
{
    if (!a.e) return Val(~a.c, a.w);
    if (a.e->op == NOT) return Val(a.e->a);
    if (a.w == 1) {
        if (a.e->op == ULT) return mkBin(ULE, Val(a.e->b), Val(a.e->a));
        if (a.e->op == ULE) return mkBin(ULT, Val(a.e->b), Val(a.e->a));
        if (a.e->op == SLT) return mkBin(SLE, Val(a.e->b), Val(a.e->a));
        if (a.e->op == SLE) return mkBin(SLT, Val(a.e->b), Val(a.e->a));
    }
    return Val(mk(NOT, a.w, a.e));
}
Val mkTrunc(Val a, unsigned w) { return w == a.w ? a : mkExtract(a, 0, w); }
Val mkZext(Val a, unsigned w)
{
    if (w == a.w) return a;
    if (!a.e) return Val(a.c, w);
    if (a.e->op == ZEXT) return Val(mk(ZEXT, w, a.e->a));
    if (a.e->op == ITE && a.e->b->op == CONST && a.e->c->op == CONST) return mkIte(Val(a.e->a), Val(a.e->b->k, w), Val(a.e->c->k, w));
    return Val(mk(ZEXT, w, a.e));
}
Val mkSext(Val a, unsigned w)
{
    if (w == a.w) return a;
    if (!a.e) return Val((u64)sx(a.c, a.w), w);
    if (!(a.e->umax >> (a.w - 1) & 1) ) return mkZext(a, w);
    if (a.e->op == ITE && a.e->b->op == CONST && a.e->c->op == CONST) return mkIte(Val(a.e->a), mkSext(Val(a.e->b), w), mkSext(Val(a.e->c), w));
    return Val(mk(SEXT, w, a.e));
}
Val mkExtract(Val a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a.w) return a;
    if (!a.e) return Val(a.c >> lo, w);
    Expr *e = a.e;
    switch (e->op) {
    case EXTRACT: return mkExtract(Val(e->a), lo + e->lo, w);
    case CONCAT:
        if (lo >= e->b->w) return mkExtract(Val(e->a), lo - e->b->w, w);
        if (lo + w <= e->b->w) return mkExtract(Val(e->b), lo, w);
        return mkConcat(mkExtract(Val(e->a), 0, lo + w - e->b->w), mkExtract(Val(e->b), lo, e->b->w - lo));
    case ZEXT:
        if (lo >= e->a->w) return Val(0, w);
        if (lo + w <= e->a->w) return mkExtract(Val(e->a), lo, w);
        return mkZext(mkExtract(Val(e->a), lo, e->a->w - lo), w);
    case SEXT: if (lo + w <= e->a->w) return mkExtract(Val(e->a), lo, w); break;
    case AND: case OR: case XOR: return mkBin(e->op, mkExtract(Val(e->a), lo, w), mkExtract(Val(e->b), lo, w));
    case NOT: return mkNot(mkExtract(Val(e->a), lo, w));
    case ITE: return mkIte(Val(e->a), mkExtract(Val(e->b), lo, w), mkExtract(Val(e->c), lo, w));
    case ADD: case SUB: case MUL: if (lo == 0) return mkBin(e->op, mkExtract(Val(e->a), 0, w), mkExtract(Val(e->b), 0, w)); break;
    case SHL: if (e->b->op == CONST && e->b->k < e->w) { unsigned s = e->b->k;
            if (lo >= s) return mkExtract(Val(e->a), lo - s, w);
            if (lo + w <= s) return Val(0, w);
            return mkConcat(mkExtract(Val(e->a), 0, lo + w - s), Val(0, s - lo)); } break;
    case LSHR: if (e->b->op == CONST && e->b->k < e->w) { unsigned s = e->b->k;
            if (lo + s + w <= e->w) return mkExtract(Val(e->a), lo + s, w);
            if (lo + s >= e->w) return Val(0, w);
            return mkZext(mkExtract(Val(e->a), lo + s, e->w - lo - s), w); } break;
    default: break;
    }
    u64 m = maskw(w) << lo;
    if ((e->kz & m) == m) return Val(0, w);
    return Val(mk(EXTRACT, w, e, 0, 0, 0, lo));
}
Val mkConcat(Val hi, Val lo)
{
    unsigned w = hi.w + lo.w;
    if (!hi.e && !lo.e) return Val(hi.c << lo.w | lo.c, w);
    if (!hi.e && hi.c == 0) return mkZext(lo, w);
    if (hi.e && lo.e) {
        Expr *h = hi.e, *l = lo.e;
        if (h->op == EXTRACT && l->op == EXTRACT && h->a == l->a && h->lo == l->lo + l->w) return mkExtract(Val(h->a), l->lo, w);
        if (h->op == EXTRACT && h->a == l && h->lo == l->w) return mkExtract(Val(l), 0, w);
        // ite(c,a,b)·ite(c,d,e)
        if (h->op == ITE && l->op == ITE && h->a == l->a) return mkIte(Val(h->a), mkConcat(Val(h->b), Val(l->b)), mkConcat(Val(h->c), Val(l->c)));
        // x[8..16)·zext... nothing
    }
    if (hi.e && hi.e->op == ZEXT) { // 0·x·lo
        return mkZext(mkConcat(Val(hi.e->a), lo), w);
    }
    if (lo.e && lo.e->op == CONCAT && hi.e) { // merge adjacent extracts across the association
        Val t = mkConcat(hi, Val(lo.e->a));
        if (t.e && t.e->op != CONCAT) return mkConcat(t, Val(lo.e->b));
    }
    return Val(mk(CONCAT, w, X(hi), X(lo)));
}
Val mkIte(Val c, Val a, Val b)
{
    if (!c.e) return c.c ? a : b;
    if (a.e == b.e && (a.e || a.c == b.c)) return a;
    if (c.e->op == NOT) return mkIte(Val(c.e->a), b, a);
    if (a.w == 1) {
        if (!a.e && !b.e) return a.c ? c : mkNot(c);
        if (!a.e) return a.c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
        if (!b.e) return b.c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
    }
    if (a.e && a.e->op == ITE && a.e->a == c.e) a = Val(a.e->b);
    if (b.e && b.e->op == ITE && b.e->a == c.e) b = Val(b.e->c);
    if (a.e == b.e && (a.e || a.c == b.c)) return a;
    return Val(mk(ITE, a.w, c.e, X(a), X(b)));
}
static bool isComm(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }
Val mkBin(Op op, Val a, Val b)
{
    unsigned w = a.w, rw = isCmp(op) ? 1 : w;
    assert(a.w == b.w);
    if (!a.e && !b.e) return Val(fold(op, a.c, b.c, w), rw);
    if (isComm(op) && !a.e) std::swap(a, b);                    // constant on the right
    u64 M = maskw(w);
    bool kb = !b.e; u64 k = b.c;
    switch (op) {
    case ADD: if (kb && k == 0) return a;
        if (kb && a.e->op == ADD && a.e->b->op == CONST) return mkBin(ADD, Val(a.e->a), Val(a.e->b->k + k, w));
        break;
    case SUB: if (kb) return k == 0 ? a : mkBin(ADD, a, Val(0 - k, w));
        if (a.e == b.e) return Val(0, w);
        if (a.e && a.e->op == ADD && a.e->a == b.e) return Val(a.e->b);
        if (a.e && b.e && a.e->op == ADD && a.e->b->op == CONST && b.e->op == ADD && b.e->a == a.e->a && b.e->b->op == CONST) return Val(a.e->b->k - b.e->b->k, w);
        break;
    case MUL: if (kb && k == 0) return b; if (kb && k == 1) return a;
        if (kb && (k & (k - 1)) == 0) return mkBin(SHL, a, Val(__builtin_ctzll(k), w));
        break;
    case AND: if (kb && k == 0) return b; if (kb && k == M) return a; if (a.e == b.e) return a;
        if (kb && (~a.e->kz & M & ~k) == 0) return a;
        if (kb && (~a.e->kz & k) == 0) return Val(0, w);
        if (kb && w > 1 && (k & (k + 1)) == 0) { unsigned n = __builtin_ctzll(~k); return mkZext(mkExtract(a, 0, n), w); }
        if (kb && a.e->op == AND && a.e->b->op == CONST) return mkBin(AND, Val(a.e->a), Val(k & a.e->b->k, w));
        if (kb && a.e->op == OR && a.e->b->op == CONST) return mkBin(OR, mkBin(AND, Val(a.e->a), b), Val(a.e->b->k & k, w));
        if (kb && a.e->op == ITE) return mkIte(Val(a.e->a), mkBin(AND, Val(a.e->b), b), mkBin(AND, Val(a.e->c), b));
        if (a.e && b.e && a.e->op == NOT && a.e->a == b.e) return Val(0, w);
        if (a.e && b.e && b.e->op == NOT && b.e->a == a.e) return Val(0, w);
        break;
    case OR: if (kb && k == 0) return a; if (kb && k == M) return b; if (a.e == b.e) return a;
        if (kb && a.e->op == OR && a.e->b->op == CONST) return mkBin(OR, Val(a.e->a), Val(k | a.e->b->k, w));
        if (kb && a.e->op == ITE && w > 1) return mkIte(Val(a.e->a), mkBin(OR, Val(a.e->b), b), mkBin(OR, Val(a.e->c), b));
        if (a.e && b.e && a.e->op == NOT && a.e->a == b.e) return Val(M, w);
        if (a.e && b.e && b.e->op == NOT && b.e->a == a.e) return Val(M, w);
        // disjoint parts (byte assembly)  ->  concat
        if (w > 1) for (int t = 0; t < 2; t++) {
            Val hi = t ? b : a, lo = t ? a : b;
            u64 lm = lo.e ? lo.e->umax : lo.c; unsigned p = lm ? 64 - __builtin_clzll(lm) : 0;
            u64 hz = hi.e ? hi.e->kz : ~hi.c & M;
            if (p < w && p > 0 && (hz & maskw(p)) == maskw(p)) return mkConcat(mkExtract(hi, p, w - p), mkExtract(lo, 0, p));
        }
        break;
    case XOR: if (kb && k == 0) return a; if (a.e == b.e) return Val(0, w); if (kb && k == M) return mkNot(a);
        if (kb && a.e->op == XOR && a.e->b->op == CONST) return mkBin(XOR, Val(a.e->a), Val(k ^ a.e->b->k, w));
        break;
    case SHL: case LSHR: case ASHR: if (kb && k == 0) return a; if (!a.e && a.c == 0) return a;
        if (kb && op != ASHR && k >= w) return Val(0, w);
        if (kb && op == LSHR) return mkZext(mkExtract(a, k, w - k), w);
        if (kb && op == ASHR && k < w && !(a.e->umax >> (w - 1) & 1)) return mkZext(mkExtract(a, k, w - k), w);
        if (kb && op == SHL && a.e->op == ZEXT && k + a.e->a->w <= w) return mkZext(mkConcat(Val(a.e->a), Val(0, k)), w);
        break;
    case UDIV: if (kb && k == 1) return a; if (kb && k && (k & (k - 1)) == 0) return mkBin(LSHR, a, Val(__builtin_ctzll(k), w)); break;
    case UREM: if (kb && k && (k & (k - 1)) == 0) return mkBin(AND, a, Val(k - 1, w)); break;
    case SDIV: if (kb && k && sx(k, w) > 0 && a.e && !(a.e->umax >> (w - 1) & 1)) return mkBin(UDIV, a, b); break;
    case SREM: if (kb && k && sx(k, w) > 0 && a.e && !(a.e->umax >> (w - 1) & 1)) return mkBin(UREM, a, b); break;
    case EQ:
        if (a.e == b.e) return Val(1, 1);
        if (w == 1 && kb) return k ? a : mkNot(a);
        if (a.e && b.e && (a.e->umax < b.e->umin || b.e->umax < a.e->umin)) return Val(0, 1);
        if (kb) {
            Expr *e = a.e;
            if (k < e->umin || k > e->umax || (k & e->kz)) return Val(0, 1);
            switch (e->op) {
            case ZEXT: return mkBin(EQ, Val(e->a), Val(k, e->a->w));
            case SEXT: return (u64)sx(k & maskw(e->a->w), e->a->w) == (u64)sx(k, w) ? mkBin(EQ, Val(e->a), Val(k, e->a->w)) : Val(0, 1);
            case ADD: if (e->b->op == CONST) return mkBin(EQ, Val(e->a), Val(k - e->b->k, w)); break;
            case XOR: if (e->b->op == CONST) return mkBin(EQ, Val(e->a), Val(k ^ e->b->k, w)); break;
            case NOT: return mkBin(EQ, Val(e->a), Val(~k, w));
            case CONCAT: return mkBin(AND, mkBin(EQ, Val(e->a), Val(k >> e->b->w, e->a->w)), mkBin(EQ, Val(e->b), Val(k, e->b->w)));
            case ITE:
                if (e->b->op == CONST || e->c->op == CONST || (e->b->op == ITE) || e->c->op == ITE)
                    return mkIte(Val(e->a), mkBin(EQ, Val(e->b), b), mkBin(EQ, Val(e->c), b));
                break;
            default: break;
            }
        } else if (a.e && b.e) {
            if (a.e->op == ZEXT && b.e->op == ZEXT && a.e->a->w == b.e->a->w) return mkBin(EQ, Val(a.e->a), Val(b.e->a));
            if (a.e->id > b.e->id) std::swap(a, b);
        }
        break;
    case ULT: {
        u64 amin = a.e ? a.e->umin : a.c, amax = a.e ? a.e->umax : a.c, bmin = b.e ? b.e->umin : b.c, bmax = b.e ? b.e->umax : b.c;
        if (amax < bmin) return Val(1, 1); if (amin >= bmax) return Val(0, 1);
        if (a.e == b.e) return Val(0, 1);
        if (a.e && a.e->op == ZEXT && kb && k <= maskw(a.e->a->w)) return mkBin(ULT, Val(a.e->a), Val(k, a.e->a->w));
        if (b.e && b.e->op == ZEXT && !a.e && a.c <= maskw(b.e->a->w)) return mkBin(ULT, Val(a.c, b.e->a->w), Val(b.e->a));
        if (a.e && b.e && a.e->op == ZEXT && b.e->op == ZEXT && a.e->a->w == b.e->a->w) return mkBin(ULT, Val(a.e->a), Val(b.e->a));
        if (kb && k == 1) return mkBin(EQ, a, Val(0, w));
        break; }
    case ULE: {
        u64 amin = a.e ? a.e->umin : a.c, amax = a.e ? a.e->umax : a.c, bmin = b.e ? b.e->umin : b.c, bmax = b.e ? b.e->umax : b.c;
        if (amax <= bmin) return Val(1, 1); if (amin > bmax) return Val(0, 1);
        if (kb) return mkBin(ULT, a, Val(k + 1, w));          // k < max here
        if (!a.e) return mkBin(ULT, Val(a.c - 1, w), b);      // a.c > 0 here
        if (a.e == b.e) return Val(1, 1);
        if (a.e->op == ZEXT && b.e->op == ZEXT && a.e->a->w == b.e->a->w) return mkBin(ULE, Val(a.e->a), Val(b.e->a));
        break; }
    case SLT: case SLE: {
        u64 sb = 1ull << (w - 1);
        u64 amax = a.e ? a.e->umax : a.c, bmax = b.e ? b.e->umax : b.c;
        if (!(amax & sb) && !(bmax & sb)) return mkBin(op == SLT ? ULT : ULE, a, b);
        u64 bmin = b.e ? b.e->umin : b.c, amin = a.e ? a.e->umin : a.c;
        if (!(amax & sb) && (bmin & sb)) return Val(0, 1);
        if (!(bmax & sb) && (amin & sb)) return Val(1, 1);
        if (a.e == b.e) return Val(op == SLE, 1);
        if (a.e && a.e->op == SEXT && kb && (u64)sx(k & maskw(a.e->a->w), a.e->a->w) == (u64)sx(k, w)) return mkBin(op, Val(a.e->a), Val(k, a.e->a->w));
        if (b.e && b.e->op == SEXT && !a.e && (u64)sx(a.c & maskw(b.e->a->w), b.e->a->w) == (u64)sx(a.c, w)) return mkBin(op, Val(a.c, b.e->a->w), Val(b.e->a));
        if (a.e && b.e && a.e->op == SEXT && b.e->op == SEXT && a.e->a->w == b.e->a->w) return mkBin(op, Val(a.e->a), Val(b.e->a));
        if (a.e && kb && a.e->op == ITE && a.e->b->op == CONST) return mkIte(Val(a.e->a), mkBin(op, Val(a.e->b), b), mkBin(op, Val(a.e->c), b));
        if (a.e && kb && a.e->op == ITE && a.e->c->op == CONST) return mkIte(Val(a.e->a), mkBin(op, Val(a.e->b), b), mkBin(op, Val(a.e->c), b));
        break; }
    default: break;
    }
    return Val(mk(op, rw, X(a), X(b)));
}

static u64 cur_epoch;
static const Assign *cur_as;
static u64 ev(Expr *e)
{
    if (e->op == CONST) return e->k;
    if (e->epoch == cur_epoch) return e->ev;
    u64 r = 0, M = maskw(e->w);
    switch (e->op) {
    case VAR: { auto &v = e->uninit ? cur_as->un : cur_as->in; r = e->var < v.size() ? v[e->var] & M : 0; break; }
    case NOT: r = ~ev(e->a) & M; break;
    case ZEXT: r = ev(e->a); break;
    case SEXT: r = (u64)sx(ev(e->a), e->a->w) & M; break;
    case EXTRACT: r = (ev(e->a) >> e->lo) & M; break;
    case CONCAT: r = ev(e->a) << e->b->w | ev(e->b); break;
    case ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
    default: r = fold(e->op, ev(e->a), ev(e->b), e->a->w); break;
    }
    e->epoch = cur_epoch; e->ev = r;
    return r;
}
u64 evalExpr(Expr *e, const Assign &m) { cur_epoch++; cur_as = &m; return ev(e); }
