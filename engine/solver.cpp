#include <cmath>
#include <unordered_set>
#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <z3.h>

SolverStats g_ss;
u32 g_query_timeout_ms = 60000;
std::string g_unknown_reason;

static Z3_context C;
static std::vector<Z3_ast> g_tr;   // by expr id (bool for width 1)
static std::vector<Z3_ast> g_var;  // by var id (bv constant)
static std::vector<Z3_ast> g_bv1;  // bv form of bools
static bool g_usesFP = false;

static void init() {
    if(C) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);
    Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        abort();
    });
    Z3_del_config(cfg);
}
static Z3_ast bvConst(const APInt& v) {
    Z3_sort s = Z3_mk_bv_sort(C, v.getBitWidth());
    llvm::SmallString<40> str;
    v.toString(str, 10, false);
    return Z3_mk_numeral(C, std::string(str.str()).c_str(), s);
}
static Z3_sort fpSort(u32 w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast tr(Expr* e);
static Z3_ast bv(Expr* e) {
    Z3_ast a = tr(e);
    if(e->width != 1) return a;
    if(g_bv1.size() <= e->id) g_bv1.resize(e->id + 1000, nullptr);
    if(!g_bv1[e->id]) {
        Z3_sort s = Z3_mk_bv_sort(C, 1);
        g_bv1[e->id] = Z3_mk_ite(C, a, Z3_mk_unsigned_int(C, 1, s), Z3_mk_unsigned_int(C, 0, s));
        Z3_inc_ref(C, g_bv1[e->id]);
    }
    return g_bv1[e->id];
}
static Z3_ast fp(Expr* e) {
    g_usesFP = true;
    // avoid to_ieee_bv / to_fp round trips: keep fp-typed cache
    static std::unordered_map<Expr*, Z3_ast> cache;
    auto it = cache.find(e);
    if(it != cache.end()) return it->second;
    Z3_ast r = nullptr;
    Z3_ast rne = Z3_mk_fpa_rne(C);
    u32 w = e->width;
    Expr *a = e->k[0], *b = e->k[1];
    switch(e->op) {
    case Op::FAdd: r = Z3_mk_fpa_add(C, rne, fp(a), fp(b)); break;
    case Op::FSub: r = Z3_mk_fpa_sub(C, rne, fp(a), fp(b)); break;
    case Op::FMul: r = Z3_mk_fpa_mul(C, rne, fp(a), fp(b)); break;
    case Op::FDiv: r = Z3_mk_fpa_div(C, rne, fp(a), fp(b)); break;
    case Op::FFma: r = Z3_mk_fpa_fma(C, rne, fp(a), fp(b), fp(e->k[2])); break;
    case Op::FSqrt: r = Z3_mk_fpa_sqrt(C, rne, fp(a)); break;
    case Op::FRem: {
        // fmod: uninterpreted (z3 fpa.rem is IEEE remainder)
        Z3_sort d[2] = {fpSort(w), fpSort(w)};
        Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, w == 32 ? "fmod32" : "fmod64"), 2, d, fpSort(w));
        Z3_ast ar[2] = {fp(a), fp(b)};
        r = Z3_mk_app(C, f, 2, ar);
    } break;
    case Op::FUF: {
        Z3_sort d[2] = {fpSort(w), fpSort(w)};
        std::string n = "uf" + std::to_string(e->aux) + "_" + std::to_string(w);
        Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), 2, d, fpSort(w));
        Z3_ast ar[2] = {fp(a), fp(b)};
        r = Z3_mk_app(C, f, 2, ar);
    } break;
    case Op::NumF:
        g_numf_leaks++;
        r = Z3_mk_fpa_to_fp_signed(C, rne, bv(a), fpSort(w));
        if(e->aux) r = Z3_mk_fpa_mul(C, rne, r, Z3_mk_fpa_numeral_double(C, std::ldexp(1.0, -(int)e->aux), fpSort(w)));
        break;
    case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(C, rne, bv(a), fpSort(w)); break;
    case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(C, rne, bv(a), fpSort(w)); break;
    case Op::FConv: r = Z3_mk_fpa_to_fp_float(C, rne, fp(a), fpSort(w)); break;
    case Op::FRound: {
        Z3_ast rm = e->aux == RND_FLOOR ? Z3_mk_fpa_rtn(C) : e->aux == RND_CEIL ? Z3_mk_fpa_rtp(C) :
                    e->aux == RND_TRUNC ? Z3_mk_fpa_rtz(C) : e->aux == RND_RNA ? Z3_mk_fpa_rna(C) : rne;
        r = Z3_mk_fpa_round_to_integral(C, rm, fp(a));
    } break;
    case Op::Ite: r = Z3_mk_ite(C, tr(a), fp(b), fp(e->k[2])); break;
    case Op::Xor:
        if(b->isConst() && constVal(b).isSignMask()) {
            r = Z3_mk_fpa_neg(C, fp(a));
            break;
        }
        [[fallthrough]];
    default: r = Z3_mk_fpa_to_fp_bv(C, bv(e), fpSort(w)); break;
    }
    Z3_inc_ref(C, r);
    cache[e] = r;
    return r;
}
static Z3_ast fromB1(Z3_ast a) {
    return Z3_mk_eq(C, a, Z3_mk_unsigned_int(C, 1, Z3_mk_bv_sort(C, 1)));
}
static Z3_ast tr(Expr* e) {
    if(g_tr.size() <= e->id) g_tr.resize(e->id + 4096, nullptr);
    if(g_tr[e->id]) return g_tr[e->id];
    Expr *a = e->k[0], *b = e->k[1];
    Z3_ast r = nullptr;
    u32 w = e->width;
    switch(e->op) {
    case Op::Const:
        if(w == 1) r = e->v ? Z3_mk_true(C) : Z3_mk_false(C);
        else r = bvConst(constVal(e));
        break;
    case Op::Var: {
        if(g_var.size() <= e->aux) g_var.resize(e->aux + 256, nullptr);
        Z3_ast x = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->aux), Z3_mk_bv_sort(C, w));
        Z3_inc_ref(C, x);
        g_var[e->aux] = x;
        r = w == 1 ? fromB1(x) : x;
    } break;
    case Op::And: case Op::Or: case Op::Xor: case Op::Add: case Op::Sub: case Op::Mul:
        if(w == 1) {
            Z3_ast k[2] = {tr(a), tr(b)};
            if(e->op == Op::And || e->op == Op::Mul) r = Z3_mk_and(C, 2, k);
            else if(e->op == Op::Or) r = Z3_mk_or(C, 2, k);
            else if(b->isTrue()) r = Z3_mk_not(C, k[0]);
            else r = Z3_mk_xor(C, k[0], k[1]);
        } else {
            auto* f = e->op == Op::And ? Z3_mk_bvand : e->op == Op::Or ? Z3_mk_bvor :
                      e->op == Op::Xor ? Z3_mk_bvxor : e->op == Op::Add ? Z3_mk_bvadd :
                      e->op == Op::Sub ? Z3_mk_bvsub : Z3_mk_bvmul;
            r = f(C, bv(a), bv(b));
        }
        break;
    case Op::UDiv: case Op::SDiv: case Op::URem: case Op::SRem: case Op::Shl: case Op::LShr: case Op::AShr: {
        auto* f = e->op == Op::UDiv ? Z3_mk_bvudiv : e->op == Op::SDiv ? Z3_mk_bvsdiv :
                  e->op == Op::URem ? Z3_mk_bvurem : e->op == Op::SRem ? Z3_mk_bvsrem :
                  e->op == Op::Shl ? Z3_mk_bvshl : e->op == Op::LShr ? Z3_mk_bvlshr : Z3_mk_bvashr;
        r = f(C, bv(a), bv(b));
        if(w == 1) r = fromB1(r);
    } break;
    case Op::Concat: r = Z3_mk_concat(C, bv(a), bv(b)); break;
    case Op::Extract:
        r = Z3_mk_extract(C, e->aux + w - 1, e->aux, bv(a));
        if(w == 1) r = fromB1(r);
        break;
    case Op::ZExt: r = Z3_mk_zero_ext(C, w - a->width, bv(a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, w - a->width, bv(a)); break;
    case Op::Ite: r = Z3_mk_ite(C, tr(a), tr(b), tr(e->k[2])); break;
    case Op::Eq: r = Z3_mk_eq(C, tr(a), tr(b)); break;
    case Op::Ult: r = Z3_mk_bvult(C, bv(a), bv(b)); break;
    case Op::Ule: r = Z3_mk_bvule(C, bv(a), bv(b)); break;
    case Op::Slt: r = Z3_mk_bvslt(C, bv(a), bv(b)); break;
    case Op::Sle: r = Z3_mk_bvsle(C, bv(a), bv(b)); break;
    case Op::FEq: r = Z3_mk_fpa_eq(C, fp(a), fp(b)); break;
    case Op::FLt: r = Z3_mk_fpa_lt(C, fp(a), fp(b)); break;
    case Op::FLe: r = Z3_mk_fpa_leq(C, fp(a), fp(b)); break;
    case Op::FUno: {
        Z3_ast k[2] = {Z3_mk_fpa_is_nan(C, fp(a)), Z3_mk_fpa_is_nan(C, fp(b))};
        r = a == b ? k[0] : Z3_mk_or(C, 2, k);
    } break;
    case Op::FToSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fp(a), w); break;
    case Op::FToUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fp(a), w); break;
    default: r = Z3_mk_fpa_to_ieee_bv(C, fp(e)); break;
    }
    Z3_inc_ref(C, r);
    if(g_tr.size() <= e->id) g_tr.resize(e->id + 4096, nullptr);
    g_tr[e->id] = r;
    return r;
}

struct CacheEnt {
    std::vector<u32> key;
    Res res;
    ModelP model;
};
static std::unordered_map<u64, std::vector<CacheEnt>> g_cache;
static std::vector<ModelP> g_recent;

static Z3_solver g_simple;

// Terms that are expensive to bit-blast, replaced by unconstrained values with a few valid facts:
// if even the weaker query has no solution, neither has the original.
static void hardTerms(Expr* e, std::vector<Expr*>& hard, std::unordered_set<Expr*>& seen) {
    if(!seen.insert(e).second) return;
    for(int i = 0; i < e->nk; i++) hardTerms(e->k[i], hard, seen); // inner terms first
    if(e->width < 16 || e->width > 64) return;
    bool div = e->op == Op::URem || e->op == Op::UDiv;
    if((div && !(e->k[1]->isConst() && !(e->k[1]->v & (e->k[1]->v - 1)))) || (e->op == Op::Mul && e->width >= 32))
        hard.push_back(e);
}
static bool relaxedUnsat(const std::vector<Expr*>& cs, Z3_solver s, u32 to) {
    std::vector<Expr*> hard;
    std::unordered_set<Expr*> seen;
    for(auto* c : cs) hardTerms(c, hard, seen);
    if(hard.empty()) return false;
    std::vector<Z3_ast> from, with;
    auto sub = [&](Z3_ast a) {
        a = Z3_substitute(C, a, (unsigned)from.size(), from.data(), with.data());
        Z3_inc_ref(C, a); // (a few terms per hard query: not worth releasing)
        return a;
    };
    for(auto* e : hard) { // an uninterpreted function of its operands
        Z3_sort srt = Z3_mk_bv_sort(C, e->width), d[2] = {srt, srt};
        std::string n = "relaxed" + std::to_string((int)e->op) + "_" + std::to_string(e->width);
        Z3_func_decl fd = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), 2, d, srt);
        Z3_ast ar[2] = {sub(bv(e->k[0])), sub(bv(e->k[1]))};
        Z3_ast f = Z3_mk_app(C, fd, 2, ar);
        Z3_inc_ref(C, f);
        from.push_back(tr(e));
        with.push_back(f);
    }
    Z3_solver_reset(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    for(auto* c : cs) Z3_solver_assert(C, s, sub(tr(c)));
    for(size_t i = 0; i < hard.size(); i++) {
        Expr* e = hard[i];
        if(e->op == Op::Mul) continue;
        Z3_ast a = sub(bv(e->k[0])), b = sub(bv(e->k[1]));
        Z3_solver_assert(C, s, Z3_mk_bvule(C, with[i], a));
        if(e->op == Op::URem) {
            Z3_ast k[2] = {Z3_mk_eq(C, b, Z3_mk_int(C, 0, Z3_get_sort(C, b))), Z3_mk_bvult(C, with[i], b)};
            Z3_solver_assert(C, s, Z3_mk_or(C, 2, k));
        }
    }
    bool r = Z3_solver_check(C, s) == Z3_L_FALSE;
    for(auto f : with) Z3_dec_ref(C, f);
    return r;
}
static Res z3check(const std::vector<Expr*>& cs, Model& out) {
    init();
    auto t0 = std::chrono::steady_clock::now();
    g_ss.queries++;
    for(auto* c : cs) tr(c);
    Z3_lbool r = Z3_L_UNDEF;
    Z3_solver s = nullptr;
    auto run = [&](Z3_solver sv, u32 to) {
        Z3_params p = Z3_mk_params(C);
        Z3_params_inc_ref(C, p);
        Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to);
        Z3_solver_set_params(C, sv, p);
        Z3_params_dec_ref(C, p);
        for(auto* c : cs) Z3_solver_assert(C, sv, tr(c));
        return Z3_solver_check(C, sv);
    };
    {
        if(!g_simple) {
            g_simple = Z3_mk_simple_solver(C);
            Z3_solver_inc_ref(C, g_simple);
        }
        Z3_solver_reset(C, g_simple);
        s = g_simple;
        r = run(s, std::min<u32>(g_query_timeout_ms, 500));
        if(r == Z3_L_UNDEF && relaxedUnsat(cs, g_simple, 5000)) r = Z3_L_FALSE;
        if(r == Z3_L_UNDEF) {
            // whole-query bit-blasting to SAT
            Z3_solver s2 = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV"));
            Z3_solver_inc_ref(C, s2);
            s = s2;
            r = run(s, g_query_timeout_ms);
        }
    }
    Res res = Res::Unknown;
    if(r == Z3_L_TRUE) {
        res = Res::Sat;
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        std::vector<u32> vs;
        for(auto* c : cs) {
            auto& v = exprVars(c);
            vs.insert(vs.end(), v.begin(), v.end());
        }
        std::sort(vs.begin(), vs.end());
        vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        for(u32 v : vs) {
            Z3_ast a;
            if(v >= g_var.size() || !g_var[v]) continue;
            if(Z3_model_eval(C, m, g_var[v], true, &a)) {
                Z3_inc_ref(C, a);
                const char* str = Z3_get_numeral_string(C, a);
                out.vals[v] = APInt(g_vars[v].width, llvm::StringRef(str), 10);
                Z3_dec_ref(C, a);
            }
        }
        Z3_model_dec_ref(C, m);
        g_ss.sat++;
    } else if(r == Z3_L_FALSE) {
        res = Res::Unsat;
        g_ss.unsat++;
    } else {
        g_ss.unknown++;
        g_unknown_reason = Z3_solver_get_reason_unknown(C, s);
        if(getenv("VX_DUMP")) {
            FILE* f = fopen("/tmp/unknown.smt2", "w");
            fputs(Z3_solver_to_string(C, s), f);
            fclose(f);
        }
    }
    if(s != g_simple) Z3_solver_dec_ref(C, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if(dt > g_ss.max_time) g_ss.max_time = dt;
    return res;
}

static void splitAnd(Expr* c, std::vector<Expr*>& out) {
    if(c->op == Op::And && c->width == 1) {
        splitAnd(c->k[0], out);
        splitAnd(c->k[1], out);
    } else out.push_back(c);
}

Res solveWith(const std::vector<Expr*>& pc, Expr* c, const ModelP& base, ModelP& out) {
    if(c->isFalse()) return Res::Unsat;
    if(evalU64(c, *base)) {
        out = base;
        g_ss.trivial++;
        return Res::Sat;
    }
    // independent slice
    std::vector<Expr*> slice;
    {
        static std::vector<char> mark;
        mark.assign(g_vars.size(), 0);
        for(u32 v : exprVars(c)) mark[v] = 1;
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while(ch) {
            ch = false;
            for(size_t i = 0; i < pc.size(); i++) {
                if(used[i]) continue;
                auto& vs = exprVars(pc[i]);
                bool hit = false;
                for(u32 v : vs)
                    if(mark[v]) {
                        hit = true;
                        break;
                    }
                if(hit) {
                    used[i] = 1;
                    ch = true;
                    for(u32 v : vs) mark[v] = 1;
                }
            }
        }
        for(size_t i = 0; i < pc.size(); i++)
            if(used[i]) slice.push_back(pc[i]);
    }
    splitAnd(c, slice);
    std::vector<u32> key;
    for(auto* e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    u64 h = 0x12345;
    for(u32 k : key) h = (h ^ k) * 0x9E3779B97F4A7C15ull, h ^= h >> 31;
    auto merge = [&](const ModelP& m) {
        auto nm = std::make_shared<Model>(*base);
        for(auto* e : slice)
            for(u32 v : exprVars(e)) {
                auto it = m->vals.find(v);
                if(it != m->vals.end()) nm->vals[v] = it->second;
                else nm->vals.erase(v);
            }
        nm->gen = newGen();
        out = nm;
    };
    auto& bucket = g_cache[h];
    for(auto& e : bucket)
        if(e.key == key) {
            g_ss.cache_hits++;
            if(e.res == Res::Sat) merge(e.model);
            return e.res;
        }
    // recent models
    for(size_t i = g_recent.size(); i-- > 0;) {
        bool ok = true;
        for(size_t j = slice.size(); j-- > 0;)
            if(!evalU64(slice[j], *g_recent[i])) {
                ok = false;
                break;
            }
        if(ok) {
            g_ss.model_hits++;
            merge(g_recent[i]);
            return Res::Sat;
        }
    }
    auto m = std::make_shared<Model>();
    Res r = z3check(slice, *m);
    if(r == Res::Sat) {
        m->gen = newGen();
        for(auto* e : slice)
            if(!evalU64(e, *m)) {
                // evaluator and solver disagree (only possible with uninterpreted functions or
                // unspecified NaN payloads): the model is not usable
                bool uf = false;
                (void)uf;
                g_ss.unknown++;
                g_unknown_reason = "model not confirmed by evaluation: " + exprStr(e, 5);
                return Res::Unknown;
            }
        if(g_recent.size() >= 24) g_recent.erase(g_recent.begin());
        g_recent.push_back(m);
        merge(m);
    }
    if(g_cache.size() > 400000) g_cache.clear();
    g_cache[h].push_back({key, r, m});
    return r;
}
