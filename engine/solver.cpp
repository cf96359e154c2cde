#include "expr.h"
#include <unistd.h>
#include <chrono>
#include <cstring>
#include <z3++.h>

SolverStats gSolver;
static z3::context *ctx;
static std::unordered_map<E, Z3_ast> *tr; // translation cache (owned refs)
static z3::context &C() {
    if (!ctx) { ctx = new z3::context(); tr = new std::unordered_map<E, Z3_ast>(); }
    return *ctx;
}
static Z3_ast toZ3(E e0) {
    auto &c = C();
    std::vector<E> st{e0};
    auto get = [&](E e) { return (*tr)[e]; };
    while (!st.empty()) {
        E e = st.back();
        if (tr->count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (E k : e->kids) if (!tr->count(k)) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back();
        Z3_ast r = nullptr;
        static z3::expr *one, *zero; if (!one) { one = new z3::expr(c.bv_val(1, 1)); zero = new z3::expr(c.bv_val(0, 1)); }
        std::vector<z3::expr> hold; // keeps intermediate terms alive
        auto b2bv = [&](Z3_ast b) { hold.push_back(z3::expr(c, b)); return Z3_mk_ite(c, hold.back(), *one, *zero); };
        auto sort = [&](unsigned w) { return c.bv_sort(w); };
        switch (e->k) {
        case K::Const: { llvm::SmallString<64> s; e->val.toString(s, 10, false); z3::sort so = sort(e->w); r = Z3_mk_numeral(c, s.c_str(), so); break; }
        case K::Var: { z3::sort so = sort(e->w); r = Z3_mk_const(c, Z3_mk_string_symbol(c, (e->name + "!" + std::to_string(e->w)).c_str()), so); break; }
        case K::Add: r = Z3_mk_bvadd(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Sub: r = Z3_mk_bvsub(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Mul: r = Z3_mk_bvmul(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::UDiv: r = Z3_mk_bvudiv(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::SDiv: r = Z3_mk_bvsdiv(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::URem: r = Z3_mk_bvurem(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::SRem: r = Z3_mk_bvsrem(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::And: r = Z3_mk_bvand(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Or: r = Z3_mk_bvor(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Xor: r = Z3_mk_bvxor(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Shl: r = Z3_mk_bvshl(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::LShr: r = Z3_mk_bvlshr(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::AShr: r = Z3_mk_bvashr(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Concat: r = Z3_mk_concat(c, get(e->kids[0]), get(e->kids[1])); break;
        case K::Extract: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, get(e->kids[0])); break;
        case K::ZExt: r = Z3_mk_zero_ext(c, e->w - e->kids[0]->w, get(e->kids[0])); break;
        case K::SExt: r = Z3_mk_sign_ext(c, e->w - e->kids[0]->w, get(e->kids[0])); break;
        case K::Eq: r = b2bv(Z3_mk_eq(c, get(e->kids[0]), get(e->kids[1]))); break;
        case K::Ult: r = b2bv(Z3_mk_bvult(c, get(e->kids[0]), get(e->kids[1]))); break;
        case K::Ule: r = b2bv(Z3_mk_bvule(c, get(e->kids[0]), get(e->kids[1]))); break;
        case K::Slt: r = b2bv(Z3_mk_bvslt(c, get(e->kids[0]), get(e->kids[1]))); break;
        case K::Sle: r = b2bv(Z3_mk_bvsle(c, get(e->kids[0]), get(e->kids[1]))); break;
        case K::Ite: { z3::expr cc(c, Z3_mk_eq(c, get(e->kids[0]), *one)); r = Z3_mk_ite(c, cc, get(e->kids[1]), get(e->kids[2])); break; }
        }
        Z3_inc_ref(c, r);
        tr->emplace(e, r);
    }
    return (*tr)[e0];
}
#include "lia.inc"
static std::unordered_map<std::string, std::pair<Sat, Model>> cache;

static Sat solve1(const std::vector<E> &cs, Model *m, bool heavy) {
    auto &c = C();
    z3::expr one = c.bv_val(1, 1);
    auto run = [&](z3::solver &s) -> Sat {
        for (E e : cs) s.add(z3::expr(c, toZ3(e)) == one);
        auto r = s.check();
        if (r == z3::unsat) return Sat::unsat;
        if (r == z3::unknown) return Sat::unknown;
        if (m) {
            auto md = s.get_model();
            std::map<std::string, E> vs;
            for (E e : cs) collectVars(e, vs);
            for (auto &kv : vs) {
                z3::expr v = md.eval(z3::expr(c, toZ3(kv.second)), true);
                std::string str = Z3_get_numeral_string(c, v);
                unsigned bits = kv.second->w;
                unsigned need = std::max(bits + 1, (unsigned)(str.size() * 4 + 8));
                m->vals[kv.second] = APInt(need, str, 10).trunc(bits);
            }
        }
        return Sat::sat;
    };
    std::unordered_map<E, bool> seen; bool wide = false;
    for (E e : cs) wide = wide || hasWide(e, seen);
    if (wide) { Sat r = solveLia(c, cs, m, 20000); if (r != Sat::unknown) { gSolver.lia++; return r; } }
    if (!heavy) {
        z3::solver s(c, z3::solver::simple());
        z3::params p(c); p.set("rlimit", 20000000u); s.set(p);
        Sat r = run(s);
        if (r != Sat::unknown) return r;
    }
    z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat");
    z3::solver s = t.mk_solver();
    return run(s);
}

Sat solve(const std::vector<E> &cs0, Model *m, bool heavy) {
    std::vector<E> cs;
    for (E e : cs0) { if (isFalse(e)) return Sat::unsat; if (!isTrue(e)) cs.push_back(e); }
    if (cs.empty()) return Sat::sat;
    // all constraints about one byte: decided on its table of values
    bool one = cs[0]->tab != nullptr;
    for (E e : cs) one = one && e->tab && e->v1 == cs[0]->v1;
    if (one) {
        E v = cs[0]->v1; unsigned n = 1u << v->w;
        gSolver.table++;
        for (unsigned i = 0; i < n; i++) {
            bool ok = true;
            for (E e : cs) if (!e->tab[i]) { ok = false; break; }
            if (ok) { if (m) { m->vals.clear(); m->vals[v] = APInt(v->w, i); } return Sat::sat; }
        }
        return Sat::unsat;
    }
    std::string key;
    for (E e : cs) key.append((const char *)&e->id, sizeof e->id);
    auto f = cache.find(key);
    if (f != cache.end() && f->second.first != Sat::unknown) { gSolver.cached++; if (m) *m = f->second.second; return f->second.first; }
    auto t0 = std::chrono::steady_clock::now();
    Model mm; Sat r;
    try { r = solve1(cs, &mm, heavy); } catch (z3::exception &ex) { fprintf(stderr, "z3: %s\n", ex.msg()); r = Sat::unknown; }
    gSolver.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.queries++;
    if (r == Sat::sat) gSolver.sat++; else if (r == Sat::unsat) gSolver.unsat++; else gSolver.unknown++;
    if (r == Sat::sat) { // validate the model with our own evaluator
        std::unordered_map<E, APInt> memo;
        for (E e : cs) if (evalExpr(e, mm.vals, memo).isZero()) { fprintf(stderr, "egsym: internal error: z3 model does not satisfy %s\n", exprStr(e).c_str()); r = Sat::unknown; break; }
    }
    cache[key] = {r, mm};
    if (m) *m = mm;
    return r;
}

int solveOrder(const std::vector<int> &last, const std::vector<std::array<int, 4>> &before, const std::vector<std::array<int, 4>> &pairs) {
    auto &c = C();
    auto t0 = std::chrono::steady_clock::now();
    z3::solver s(c, "QF_IDL");
    auto ev = [&](int t, int k) { return c.int_const(("t" + std::to_string(t) + "_" + std::to_string(k)).c_str()); };
    for (size_t t = 1; t < last.size(); t++) for (int k = 0; k <= last[t]; k++) s.add(ev(t, k) < ev(t, k + 1));
    for (auto &b : before) s.add(ev(b[0], b[1]) < ev(b[2], b[3]));
    auto overlap = [&](const std::array<int, 4> &p) { return ev(p[0], p[1]) < ev(p[2], p[3] + 1) && ev(p[2], p[3]) < ev(p[0], p[1] + 1); };
    z3::expr_vector any(c);
    for (auto &p : pairs) any.push_back(overlap(p));
    s.add(z3::mk_or(any));
    int hit = -2;
    try {
        auto r = s.check();
        if (r == z3::unsat) { hit = -1; gSolver.unsat++; }
        else if (r == z3::sat) { auto m = s.get_model(); gSolver.sat++; for (size_t i = 0; i < pairs.size(); i++) if (m.eval(overlap(pairs[i]), true).is_true()) { hit = i; break; } }
        else gSolver.unknown++;
    } catch (z3::exception &ex) { fprintf(stderr, "z3: %s\n", ex.msg()); }
    gSolver.queries++; gSolver.lia++;
    gSolver.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return hit;
}
