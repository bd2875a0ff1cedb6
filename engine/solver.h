// psisym: Z3 back end, query cache and single-variable domain pre-pass.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <bitset>

typedef std::bitset<256> Dom;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct SolverStats { u64 queries = 0, cacheHits = 0, domainHits = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0; double time = 0, maxTime = 0; };

struct Solver {
    ExprPool& P;
    Z3_context ctx;
    Z3_solver slv;
    SolverStats st;
    unsigned rlimit = 40000000;
    std::vector<Z3_ast> keep;
    struct CacheEnt { int r; std::vector<std::pair<u32, u64>> model; };
    struct VHash { size_t operator()(const std::vector<u32>& v) const { size_t h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull; return h; } };
    std::unordered_map<std::vector<u32>, CacheEnt, VHash> cache;
    std::unordered_map<E, Dom> satCache;
    std::vector<uint8_t> varW;

    Solver(ExprPool& p) : P(p) {
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
        slv = nullptr;
        newSolver();
    }
    void newSolver() {
        if (slv) Z3_solver_dec_ref(ctx, slv);
        static const bool simple = !getenv("PSI_BVSOLVER");
        slv = simple ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, slv);
        Z3_params ps = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, ps);
        Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
        Z3_solver_set_params(ctx, slv, ps);
        Z3_params_dec_ref(ctx, ps);
    }
    Z3_ast mk1(bool v) { return v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); }
    Z3_ast zb(E e) { // boolean translation of a width-1 expr
        if (e->zbool) return (Z3_ast)e->zbool;
        Z3_ast r;
        switch (e->op) {
        case O_CONST: r = mk1(e->k != 0); break;
        case O_NOT: r = Z3_mk_not(ctx, zb(e->a)); break;
        case O_AND: { Z3_ast v[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_and(ctx, 2, v); break; }
        case O_OR: { Z3_ast v[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_or(ctx, 2, v); break; }
        case O_XOR: r = Z3_mk_xor(ctx, zb(e->a), zb(e->b)); break;
        case O_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, zb(e->a), zb(e->b)); else r = Z3_mk_eq(ctx, zv(e->a), zv(e->b)); break;
        case O_ULT: r = Z3_mk_bvult(ctx, zv(e->a), zv(e->b)); break;
        case O_ULE: r = Z3_mk_bvule(ctx, zv(e->a), zv(e->b)); break;
        case O_SLT: r = Z3_mk_bvslt(ctx, zv(e->a), zv(e->b)); break;
        case O_SLE: r = Z3_mk_bvsle(ctx, zv(e->a), zv(e->b)); break;
        case O_ITE: r = Z3_mk_ite(ctx, zb(e->a), zb(e->b), zb(e->c)); break;
        default: { Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); r = Z3_mk_eq(ctx, zv(e), one); }
        }
        Z3_inc_ref(ctx, r);
        e->zbool = r;
        return r;
    }
    Z3_ast zv(E e) {
        if (e->zbv) return (Z3_ast)e->zbv;
        Z3_ast r;
        Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
        switch (e->op) {
        case O_CONST:
            if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->k, s);
            else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->k >> 64), Z3_mk_bv_sort(ctx, e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->k, Z3_mk_bv_sort(ctx, 64)));
            break;
        case O_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u_%u", (u32)e->k, e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), s); break; }
        case O_ADD: r = Z3_mk_bvadd(ctx, zv(e->a), zv(e->b)); break;
        case O_SUB: r = Z3_mk_bvsub(ctx, zv(e->a), zv(e->b)); break;
        case O_MUL: r = Z3_mk_bvmul(ctx, zv(e->a), zv(e->b)); break;
        case O_UDIV: r = Z3_mk_bvudiv(ctx, zv(e->a), zv(e->b)); break;
        case O_SDIV: r = Z3_mk_bvsdiv(ctx, zv(e->a), zv(e->b)); break;
        case O_UREM: r = Z3_mk_bvurem(ctx, zv(e->a), zv(e->b)); break;
        case O_SREM: r = Z3_mk_bvsrem(ctx, zv(e->a), zv(e->b)); break;
        case O_SHL: r = Z3_mk_bvshl(ctx, zv(e->a), zv(e->b)); break;
        case O_LSHR: r = Z3_mk_bvlshr(ctx, zv(e->a), zv(e->b)); break;
        case O_ASHR: r = Z3_mk_bvashr(ctx, zv(e->a), zv(e->b)); break;
        case O_AND: if (e->w == 1) goto viab; r = Z3_mk_bvand(ctx, zv(e->a), zv(e->b)); break;
        case O_OR: if (e->w == 1) goto viab; r = Z3_mk_bvor(ctx, zv(e->a), zv(e->b)); break;
        case O_XOR: if (e->w == 1) goto viab; r = Z3_mk_bvxor(ctx, zv(e->a), zv(e->b)); break;
        case O_NOT: if (e->w == 1) goto viab; r = Z3_mk_bvnot(ctx, zv(e->a)); break;
        case O_ITE: if (e->w == 1) goto viab; r = Z3_mk_ite(ctx, zb(e->a), zv(e->b), zv(e->c)); break;
        case O_CONCAT: r = Z3_mk_concat(ctx, zv(e->a), zv(e->b)); break;
        case O_EXTRACT: r = Z3_mk_extract(ctx, (u32)e->k + e->w - 1, (u32)e->k, zv(e->a)); break;
        case O_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, zv(e->a)); break;
        case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, zv(e->a)); break;
        default:
        viab: r = Z3_mk_ite(ctx, zb(e), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
        }
        Z3_inc_ref(ctx, r);
        e->zbv = r;
        return r;
    }
    // 1 sat, 0 unsat, -1 unknown.  model: assignments of the variables of cs
    int check(std::vector<E> cs, std::vector<std::pair<u32, u64>>* model) {
        std::sort(cs.begin(), cs.end(), [](E x, E y) { return x->id < y->id; });
        cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
        std::vector<u32> key;
        for (E e : cs) key.push_back(e->id);
        auto it = cache.find(key);
        if (it != cache.end()) { st.cacheHits++; if (model) *model = it->second.model; return it->second.r; }
        double t0 = nowS();
        if (st.queries % 128 == 127) newSolver();   // an old solver gets slow
        Z3_solver_push(ctx, slv);
        for (E e : cs) Z3_solver_assert(ctx, slv, zb(e));
        Z3_lbool r = Z3_solver_check(ctx, slv);
        st.queries++;
        CacheEnt ce;
        ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (ce.r == 1) {
            st.sat++;
            Z3_model m = Z3_solver_get_model(ctx, slv);
            Z3_model_inc_ref(ctx, m);
            const VarSet* vs = P.emptyVS;
            std::map<u32, E> vexpr;
            for (E e : cs) vs = P.unite(vs, e->vars);
            for (u32 v : vs->v) {
                E ve = P.var(v, varW[v]);
                Z3_ast out;
                u64 val = 0;
                if (Z3_model_eval(ctx, m, zv(ve), true, &out)) { if (!Z3_get_numeral_uint64(ctx, out, &val)) val = 0; }
                ce.model.push_back({v, val});
            }
            Z3_model_dec_ref(ctx, m);
        } else if (ce.r == 0) st.unsat++;
        else st.unknown++;
        Z3_solver_pop(ctx, slv, 1);
        double dt = nowS() - t0;
        st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
        if (getenv("PSI_SLOWQ") && dt > atof(getenv("PSI_SLOWQ"))) { fprintf(stderr, "SLOWQ %.3f r=%d n=%zu %s\n%s\n", dt, (int)r, cs.size(), Z3_solver_get_reason_unknown(ctx, slv), Z3_stats_to_string(ctx, Z3_solver_get_statistics(ctx, slv))); for (E e : cs) fprintf(stderr, "   %s\n", Z3_ast_to_string(ctx, zb(e))); }
        if (model) *model = ce.model;
        int rr = ce.r;
        cache.emplace(std::move(key), std::move(ce));
        return rr;
    }
    // set of values of the single (<=8 bit) variable of e for which e is true
    const Dom& satset(E e) {
        auto it = satCache.find(e);
        if (it != satCache.end()) return it->second;
        u32 v = e->vars->v[0];
        static std::vector<u64> tmp;
        if (tmp.size() <= v) tmp.resize(v + 64, 0);
        const std::vector<u64>* old = P.model;
        Dom d;
        unsigned n = 1u << varW[v];
        for (unsigned i = 0; i < n; i++) { tmp[v] = i; P.setModel(&tmp); if (P.eval(e)) d.set(i); }
        P.setModel(old);
        return satCache.emplace(e, d).first->second;
    }
};
