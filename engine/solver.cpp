#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <map>
Solver solver;
static Z3_context ctx;
static std::unordered_map<Expr *, Z3_ast> *tr, *trb;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init()
{
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);            // no ref counting: terms are kept
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, errh);
    tr = new std::unordered_map<Expr *, Z3_ast>(); trb = new std::unordered_map<Expr *, Z3_ast>();
}
static Z3_ast bv(Expr *e);
static Z3_ast bl(Expr *e);   // width-1 expressions as booleans
static Z3_ast mkbvc(u64 k, unsigned w) { return Z3_mk_unsigned_int64(ctx, k, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast bl(Expr *e)
{
    auto it = trb->find(e); if (it != trb->end()) return it->second;
    Z3_ast r, t[2];
    assert(e->w == 1);
    switch (e->op) {
    case CONST: r = e->k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case NOT: r = Z3_mk_not(ctx, bl(e->a)); break;
    case AND: t[0] = bl(e->a); t[1] = bl(e->b); r = Z3_mk_and(ctx, 2, t); break;
    case OR: t[0] = bl(e->a); t[1] = bl(e->b); r = Z3_mk_or(ctx, 2, t); break;
    case XOR: r = Z3_mk_xor(ctx, bl(e->a), bl(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, bl(e->a), bl(e->b), bl(e->c)); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, bl(e->a), bl(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
    case ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    default: r = Z3_mk_eq(ctx, bv(e), mkbvc(1, 1)); break;
    }
    (*trb)[e] = r; return r;
}
static Z3_ast bv(Expr *e)
{
    auto it = tr->find(e); if (it != tr->end()) return it->second;
    Z3_ast r;
    char nm[32];
    switch (e->op) {
    case CONST: r = mkbvc(e->k, e->w); break;
    case VAR: snprintf(nm, sizeof nm, "%c%u_%u", e->uninit ? 'u' : 'v', e->var, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: r = Z3_mk_ite(ctx, bl(e), mkbvc(1, 1), mkbvc(0, 1)); break;
    case NOT: if (e->w == 1) { r = Z3_mk_ite(ctx, bl(e), mkbvc(1, 1), mkbvc(0, 1)); break; } r = Z3_mk_bvnot(ctx, bv(e->a)); break;
    case AND: if (e->w == 1) { r = Z3_mk_ite(ctx, bl(e), mkbvc(1, 1), mkbvc(0, 1)); break; } r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break;
    case OR: if (e->w == 1) { r = Z3_mk_ite(ctx, bl(e), mkbvc(1, 1), mkbvc(0, 1)); break; } r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break;
    case XOR: if (e->w == 1) { r = Z3_mk_ite(ctx, bl(e), mkbvc(1, 1), mkbvc(0, 1)); break; } r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break;
    case ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
    case SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
    case UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, bl(e->a), bv(e->b), bv(e->c)); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, bv(e->a)); break;
    case CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    default: abort();
    }
    (*tr)[e] = r; return r;
}
static void collect(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &vars)
{
    if (e->op == CONST || !seen.insert(e).second) return;
    if (e->op == VAR) { vars.push_back(e); return; }
    if (e->a) collect(e->a, seen, vars);
    if (e->b) collect(e->b, seen, vars);
    if (e->c) collect(e->c, seen, vars);
}
struct CacheEnt { int r; std::vector<std::pair<Expr *, u64>> m; };
static std::map<std::vector<u32>, CacheEnt> *cache;
int Solver::check(const std::vector<Expr *> &cs, Assign &model)
{
    init();
    if (!cache) cache = new std::map<std::vector<u32>, CacheEnt>();
    std::vector<u32> key;
    for (auto e : cs) { if (e->op == CONST) { if (!e->k) return 0; continue; } key.push_back(e->id); }
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto put = [&](const CacheEnt &c) {
        for (auto &p : c.m) { auto &v = p.first->uninit ? model.un : model.in; if (v.size() <= p.first->var) v.resize(p.first->var + 1); v[p.first->var] = p.second; }
    };
    auto it = cache->find(key);
    if (it != cache->end()) { cached++; if (it->second.r == 1) put(it->second); return it->second.r; }
    // a recently found model may do
    static std::vector<CacheEnt> ring; static size_t rp;
    {
        Assign t;
        for (size_t i = 0; i < ring.size(); i++) {
            auto &c = ring[(rp + ring.size() - 1 - i) % ring.size()];
            t = model;
            for (auto &p : c.m) { auto &v = p.first->uninit ? t.un : t.in; if (v.size() <= p.first->var) v.resize(p.first->var + 1); v[p.first->var] = p.second; }
            bool ok = true;
            for (size_t k = cs.size(); ok && k-- > 0;) if (!evalExpr(cs[k], t)) ok = false;
            if (ok) {
                // only the variables of this slice: the others belong to constraints that are not in cs
                reused++;
                std::unordered_set<Expr *> seen; std::vector<Expr *> vars;
                for (auto e : cs) collect(e, seen, vars);
                for (auto e : vars) { auto &v = e->uninit ? model.un : model.in; auto &u = e->uninit ? t.un : t.in; if (e->var < u.size()) { if (v.size() <= e->var) v.resize(e->var + 1); v[e->var] = u[e->var]; } }
                return 1;
            }
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    queries++;
    static Z3_solver s; static Z3_params par;
    if (!s) { s = getenv("MS_SIMPLE") ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s); par = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, par);
        Z3_params_set_uint(ctx, par, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms); Z3_solver_set_params(ctx, s, par); }
    Z3_solver_reset(ctx, s);
    for (auto e : cs) if (e->op != CONST) Z3_solver_assert(ctx, s, bl(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (getenv("MS_DUMP") && queries % 500 == 0) fprintf(stderr, "=== query %d constraints=%zu\n%s\n", (int)queries, cs.size(), Z3_solver_to_string(ctx, s));
    CacheEnt ent; ent.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (ent.r == 1) {
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        std::unordered_set<Expr *> seen; std::vector<Expr *> vars;
        for (auto e : cs) collect(e, seen, vars);
        for (auto v : vars) {
            Z3_ast out; uint64_t k = 0;
            if (Z3_model_eval(ctx, m, bv(v), true, &out)) Z3_get_numeral_uint64(ctx, out, &k);
            ent.m.push_back({v, k});
        }
        Z3_model_dec_ref(ctx, m);
        put(ent);
        if (ring.size() < 24) ring.push_back(ent); else { ring[rp] = ent; rp = (rp + 1) % ring.size(); }
    }
    double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    secs += d; if ((u64)(d * 1000) > slowest_ms) slowest_ms = d * 1000;
    if (ent.r < 0) unknowns++;
    if (cache->size() < 2000000) (*cache)[key] = ent;
    return ent.r;
}
