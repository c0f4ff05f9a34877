// Z3 back end: slicing, caching, model reuse.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <map>

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, cvc5 = 0, modelHits = 0; double time = 0, maxTime = 0; };

struct Solver {
    ExprCtx &X;
    Z3_context z;
    Z3_solver sBV, sFP, sFast;
    std::unordered_map<Ref, Z3_ast> memo;
    SolverStats st;
    unsigned timeoutMs;
    std::string dumpDir; unsigned dumpMax = 0, dumped = 0;

    struct CacheEnt { int res; std::vector<std::pair<uint32_t, u64>> model; };
    struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
    std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;
    std::unordered_map<Ref, bool> fpMemo;

    static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(5); }

    Solver(ExprCtx &x, unsigned to) : X(x), timeoutMs(to) {
        Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
        z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(z, onErr);
        sBV = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, sBV); setp(sBV);
        sFast = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, sFast); setp(sFast, 400);
        sFP = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_FPBV")); Z3_solver_inc_ref(z, sFP); setp(sFP);
    }
    void setp(Z3_solver s, unsigned ms = 0) { Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms ? ms : timeoutMs); Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p); }

    Z3_ast num(u128 v, unsigned w) {
        Z3_sort s = Z3_mk_bv_sort(z, w);
        if (w <= 64) return Z3_mk_unsigned_int64(z, (u64)v, s);
        Z3_ast h = Z3_mk_unsigned_int64(z, (u64)(v >> 64), Z3_mk_bv_sort(z, w - 64)), l = Z3_mk_unsigned_int64(z, (u64)v, Z3_mk_bv_sort(z, 64));
        return Z3_mk_concat(z, h, l);
    }
    Z3_sort fs(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z) : w == 64 ? Z3_mk_fpa_sort_64(z) : Z3_mk_fpa_sort(z, 15, 65); }
    Z3_ast toF(Ref e) {
        return Z3_mk_fpa_to_fp_bv(z, tr(e), fs(e->w)); }
    Z3_ast b1(Z3_ast b) { return Z3_mk_ite(z, b, num(1, 1), num(0, 1)); }
    Z3_ast tr(Ref e) {
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        Z3_ast r = tr0(e);
        Z3_inc_ref(z, r); memo.emplace(e, r); return r;
    }
    Z3_ast trB(Ref e) { // as boolean
        switch (e->k) {
        case KEq: return Z3_mk_eq(z, tr(e->a[0]), tr(e->a[1]));
        case KUlt: return Z3_mk_bvult(z, tr(e->a[0]), tr(e->a[1]));
        case KUle: return Z3_mk_bvule(z, tr(e->a[0]), tr(e->a[1]));
        case KSlt: return Z3_mk_bvslt(z, tr(e->a[0]), tr(e->a[1]));
        case KSle: return Z3_mk_bvsle(z, tr(e->a[0]), tr(e->a[1]));
        case KFOeq: return Z3_mk_fpa_eq(z, toF(e->a[0]), toF(e->a[1]));
        case KFOlt: return Z3_mk_fpa_lt(z, toF(e->a[0]), toF(e->a[1]));
        case KFOle: return Z3_mk_fpa_leq(z, toF(e->a[0]), toF(e->a[1]));
        case KFUno: { Z3_ast a[2] = { Z3_mk_fpa_is_nan(z, toF(e->a[0])), Z3_mk_fpa_is_nan(z, toF(e->a[1])) }; return Z3_mk_or(z, 2, a); }
        case KXor: if (ExprCtx::isC(e->a[1], 1)) return Z3_mk_not(z, trB(e->a[0])); break;
        case KAnd: { Z3_ast a[2] = { trB(e->a[0]), trB(e->a[1]) }; return Z3_mk_and(z, 2, a); }
        case KOr: { Z3_ast a[2] = { trB(e->a[0]), trB(e->a[1]) }; return Z3_mk_or(z, 2, a); }
        case KConst: return e->c ? Z3_mk_true(z) : Z3_mk_false(z);
        case KIte: return Z3_mk_ite(z, trB(e->a[0]), trB(e->a[1]), trB(e->a[2]));
        default: break;
        }
        return Z3_mk_eq(z, tr(e), num(1, 1));
    }
    Z3_ast tr0(Ref e) {
        Z3_ast RTZ, RNE;
        switch (e->k) {
        case KConst: return num(e->c, e->w);
        case KVar: return Z3_mk_const(z, Z3_mk_int_symbol(z, (int)e->c), Z3_mk_bv_sort(z, e->w));
        case KAdd: return Z3_mk_bvadd(z, tr(e->a[0]), tr(e->a[1]));
        case KSub: return Z3_mk_bvsub(z, tr(e->a[0]), tr(e->a[1]));
        case KMul: return Z3_mk_bvmul(z, tr(e->a[0]), tr(e->a[1]));
        case KUDiv: return Z3_mk_bvudiv(z, tr(e->a[0]), tr(e->a[1]));
        case KSDiv: return Z3_mk_bvsdiv(z, tr(e->a[0]), tr(e->a[1]));
        case KURem: return Z3_mk_bvurem(z, tr(e->a[0]), tr(e->a[1]));
        case KSRem: return Z3_mk_bvsrem(z, tr(e->a[0]), tr(e->a[1]));
        case KAnd: if (e->w == 1) return b1(trB(e)); return Z3_mk_bvand(z, tr(e->a[0]), tr(e->a[1]));
        case KOr: if (e->w == 1) return b1(trB(e)); return Z3_mk_bvor(z, tr(e->a[0]), tr(e->a[1]));
        case KXor: return Z3_mk_bvxor(z, tr(e->a[0]), tr(e->a[1]));
        case KShl: return Z3_mk_bvshl(z, tr(e->a[0]), tr(e->a[1]));
        case KLShr: return Z3_mk_bvlshr(z, tr(e->a[0]), tr(e->a[1]));
        case KAShr: return Z3_mk_bvashr(z, tr(e->a[0]), tr(e->a[1]));
        case KEq: case KUlt: case KUle: case KSlt: case KSle: case KFOeq: case KFOlt: case KFOle: case KFUno: return b1(trB(e));
        case KIte: return Z3_mk_ite(z, trB(e->a[0]), tr(e->a[1]), tr(e->a[2]));
        case KConcat: return Z3_mk_concat(z, tr(e->a[0]), tr(e->a[1]));
        case KExtract: return Z3_mk_extract(z, (unsigned)e->c + e->w - 1, (unsigned)e->c, tr(e->a[0]));
        case KZExt: return Z3_mk_zero_ext(z, e->w - e->a[0]->w, tr(e->a[0]));
        case KSExt: return Z3_mk_sign_ext(z, e->w - e->a[0]->w, tr(e->a[0]));
        case KFAdd: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_add(z, RNE, toF(e->a[0]), toF(e->a[1])));
        case KFSub: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sub(z, RNE, toF(e->a[0]), toF(e->a[1])));
        case KFMul: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_mul(z, RNE, toF(e->a[0]), toF(e->a[1])));
        case KFDiv: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_div(z, RNE, toF(e->a[0]), toF(e->a[1])));
        case KFRem: return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_rem(z, toF(e->a[0]), toF(e->a[1])));
        case KFToSI: case KFToUI: {
            RTZ = Z3_mk_fpa_rtz(z); Z3_ast f = toF(e->a[0]); bool sg = e->k == KFToSI;
            Z3_ast conv = sg ? Z3_mk_fpa_to_sbv(z, RTZ, f, e->w) : Z3_mk_fpa_to_ubv(z, RTZ, f, e->w);
            // out of range / NaN: the x86 "integer indefinite" value
            double lim = std::ldexp(1.0, sg ? e->w - 1 : e->w);
            Z3_sort s = fs(e->a[0]->w);
            Z3_ast hi = Z3_mk_fpa_lt(z, f, Z3_mk_fpa_numeral_double(z, lim, s));
            Z3_ast lo = sg ? Z3_mk_fpa_geq(z, f, Z3_mk_fpa_numeral_double(z, -lim, s)) : Z3_mk_fpa_gt(z, f, Z3_mk_fpa_numeral_double(z, -1.0, s));
            Z3_ast c[2] = { hi, lo };
            return Z3_mk_ite(z, Z3_mk_and(z, 2, c), conv, num((u128)1 << (e->w - 1), e->w)); }
        case KSIToF: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_signed(z, RNE, tr(e->a[0]), fs(e->w)));
        case KUIToF: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_unsigned(z, RNE, tr(e->a[0]), fs(e->w)));
        case KFExt: case KFTrunc: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_to_fp_float(z, RNE, toF(e->a[0]), fs(e->w)));
        case KFSqrt: RNE = Z3_mk_fpa_rne(z); return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_sqrt(z, RNE, toF(e->a[0])));
        case KFRound: { Z3_ast rm = e->sub == 0 ? Z3_mk_fpa_rtn(z) : e->sub == 1 ? Z3_mk_fpa_rtp(z) : e->sub == 2 ? Z3_mk_fpa_rtz(z) : e->sub == 3 ? Z3_mk_fpa_rna(z) : Z3_mk_fpa_rne(z);
            return Z3_mk_fpa_to_ieee_bv(z, Z3_mk_fpa_round_to_integral(z, rm, toF(e->a[0]))); }
        default: fprintf(stderr, "bad expr kind\n"); abort();
        }
    }
    bool hasFP(Ref e) {
        if (e->k == KConst || e->k == KVar) return false;
        auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
        bool r = e->k >= KFAdd && e->k <= KFRound;
        for (int i = 0; i < 3 && !r; i++) if (e->a[i]) r = hasFP(e->a[i]);
        fpMemo[e] = r; return r;
    }

    // hard inequalities: cvc5 decides them over the integers; only its unsat answers are used
    bool cvc5Unsat(const char *q) {
        char fn[] = "/tmp/symx_q_XXXXXX"; int fd = mkstemp(fn); if (fd < 0) return false;
        FILE *f = fdopen(fd, "w"); fprintf(f, "(set-logic ALL)\n%s\n(check-sat)\n", q); fclose(f);
        bool un = false; std::string cmd = std::string("cvc5 --solve-bv-as-int=sum --tlimit=10000 ") + fn + " 2>/dev/null";
        if (FILE *p = popen(cmd.c_str(), "r")) { char b[64] = {}; if (fgets(b, sizeof b, p)) un = !strncmp(b, "unsat", 5); pclose(p); }
        unlink(fn); return un; }
    // constraints: path condition; extra: additional conjunct. Fills model (all vars of the slice) on sat.
    // returns 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<Ref> &cons, Ref extra, std::vector<std::pair<uint32_t, u64>> *model) {
        if (extra && ExprCtx::isC(extra)) { if (!extra->c) return 0; extra = nullptr; }
        std::vector<Ref> rel;
        if (extra) {
            // independence slice
            std::vector<char> used(cons.size(), 0);
            std::unordered_set<uint32_t> vs(extra->vars->v.begin(), extra->vars->v.end());
            bool ch = true;
            while (ch) { ch = false;
                for (size_t i = 0; i < cons.size(); i++) if (!used[i]) {
                    bool hit = false; for (auto v : cons[i]->vars->v) if (vs.count(v)) { hit = true; break; }
                    if (hit) { used[i] = 1; ch = true; vs.insert(cons[i]->vars->v.begin(), cons[i]->vars->v.end()); rel.push_back(cons[i]); }
                } }
            rel.push_back(extra);
        } else rel = cons;
        if (rel.empty()) return 1;
        std::vector<uint32_t> key; for (auto r : rel) key.push_back(r->id);
        std::sort(key.begin(), key.end());
        key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = cache.find(key);
        if (it != cache.end()) { st.cacheHits++; if (model) *model = it->second.model; return it->second.res; }
        auto t0 = std::chrono::steady_clock::now();
        bool fp = false; for (auto r : rel) fp |= hasFP(r);
        Z3_solver s = fp ? sFP : sFast;
        Z3_lbool r = Z3_L_UNDEF; bool pushed = !fp;
        if (pushed) Z3_solver_push(z, s); else Z3_solver_reset(z, s);
        for (auto r : rel) Z3_solver_assert(z, s, trB(r));
        if (dumpMax && dumped < dumpMax) { char fn[64]; snprintf(fn, sizeof fn, "/q%05u.smt2", dumped++); FILE *f = fopen((dumpDir + fn).c_str(), "w"); if (f) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(z, s)); fclose(f); } }
        r = Z3_solver_check(z, s);
        if (r == Z3_L_UNDEF && pushed && cvc5Unsat(Z3_solver_to_string(z, s))) { r = Z3_L_FALSE; st.cvc5++; }
        if (r == Z3_L_UNDEF && pushed) { // hard query: bit-blasting tactic
            Z3_solver_pop(z, s, 1); pushed = false; s = sBV; Z3_solver_reset(z, s); for (auto q : rel) Z3_solver_assert(z, s, trB(q)); r = Z3_solver_check(z, s); }
        CacheEnt ent; ent.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
            std::vector<uint32_t> all; for (auto x : rel) all.insert(all.end(), x->vars->v.begin(), x->vars->v.end());
            std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
            for (auto v : all) {
                Z3_ast out; u64 val = 0;
                if (Z3_model_eval(z, m, tr(X.varExprs[v]), true, &out)) { Z3_inc_ref(z, out); Z3_get_numeral_uint64(z, out, &val); Z3_dec_ref(z, out); }
                ent.model.push_back({ v, val });
            }
            Z3_model_dec_ref(z, m);
        }
        if (pushed) Z3_solver_pop(z, s, 1);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        st.queries++; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
        if (ent.res == 1) st.sat++; else if (ent.res == 0) st.unsat++; else st.unknown++;
        if (model) *model = ent.model;
        int res = ent.res;
        if (res >= 0) cache.emplace(std::move(key), std::move(ent));
        return res;
    }
};
