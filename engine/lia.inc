#include <unordered_set>
// Integer back end: a bit-vector expression of width w is read as an integer in [0, 2^w); wrap-around becomes explicit
// quotient variables, so that wide additions, comparisons and conditional subtractions are linear arithmetic.
// Anything without a linear reading becomes an opaque bounded variable: "unsat" is sound, "sat" is only a candidate
// (the caller evaluates the model on the real expressions).
#include <gmpxx.h>
struct Lia {
    z3::context &c; z3::solver s; unsigned fresh = 0; bool opaque = false;
    struct T { z3::expr t; mpz_class ub; };
    std::unordered_map<E, T> ints; std::unordered_map<E, z3::expr> bools;
    std::map<std::pair<E, unsigned>, T> floors; std::unordered_map<E, z3::expr> vars;
    Lia(z3::context &c) : c(c), s(c) {}
    z3::expr num(const mpz_class &v) { return c.int_val(v.get_str().c_str()); }
    static mpz_class p2(unsigned w) { mpz_class r = 1; r <<= w; return r; }
    static mpz_class mz(const APInt &v) { llvm::SmallString<64> b; v.toString(b, 10, false); return mpz_class(b.c_str()); }
    z3::expr var(const mpz_class &ub) { z3::expr v = c.int_const(("k!" + std::to_string(fresh++)).c_str()); s.add(v >= 0 && v <= num(ub)); return v; }
    // a concatenation of variables (the limbs of one number) is one integer; the single variables are its digits
    struct Own { E whole; unsigned lo; };
    std::unordered_map<E, Own> owner; std::unordered_map<E, T> wholes;
    static bool varRun(E e, std::vector<E> &vs) { // least significant first
        if (e->k == K::Var) { vs.push_back(e); return true; }
        if (e->k == K::Concat) return varRun(e->kids[1], vs) && varRun(e->kids[0], vs);
        return false;
    }
    std::unordered_set<E> scanned;
    void scan(E e, std::vector<std::pair<unsigned, E>> &runs) {
        if (!scanned.insert(e).second) return;
        if (e->k == K::Concat) { std::vector<E> vs; if (varRun(e, vs)) runs.push_back({e->w, e}); }
        for (E k : e->kids) scan(k, runs);
    }
    void prepare(const std::vector<E> &cs) {
        std::vector<std::pair<unsigned, E>> runs;
        for (E e : cs) scan(e, runs);
        std::sort(runs.begin(), runs.end(), [](auto &a, auto &b) { return a.first != b.first ? a.first > b.first : a.second->id < b.second->id; });
        for (auto &r : runs) {
            std::vector<E> vs; varRun(r.second, vs);
            std::unordered_set<E> seen; bool ok = true;
            for (E v : vs) if (owner.count(v) || !seen.insert(v).second) ok = false;
            if (!ok) continue;
            mpz_class ub = p2(r.second->w) - 1;
            wholes.emplace(r.second, T{var(ub), ub});
            unsigned lo = 0; for (E v : vs) { owner[v] = {r.second, lo}; lo += v->w; }
        }
    }
    T wbits(E wh, unsigned lo, unsigned w) {
        T a = wfl(wh, lo);
        if (lo + w >= wh->w) return a;
        T b = wfl(wh, lo + w);
        z3::expr r = a.t - num(p2(w)) * b.t;
        s.add(r >= 0 && r < num(p2(w)));
        return {r, p2(w) - 1};
    }
    static void pieces(E e, std::vector<E> &out) { if (e->k == K::Concat) { pieces(e->kids[1], out); pieces(e->kids[0], out); } else out.push_back(e); }
    bool owned(E e, E &wh, unsigned &lo) {
        unsigned sh = 0; if (e->k == K::Extract) { sh = e->lo; e = e->kids[0]; }
        auto f = owner.find(e); if (f == owner.end()) return false;
        wh = f->second.whole; lo = f->second.lo + sh; return true;
    }
    // adjacent digits of one whole are taken together
    T joined(E e) {
        std::vector<E> ps; pieces(e, ps);
        z3::expr sum = c.int_val(0); mpz_class ub = 0; unsigned off = 0;
        for (size_t i = 0; i < ps.size();) {
            E wh; unsigned lo; unsigned w = ps[i]->w; size_t j = i + 1; T t{z3::expr(c), 0};
            if (owned(ps[i], wh, lo)) {
                E wh2; unsigned lo2;
                while (j < ps.size() && owned(ps[j], wh2, lo2) && wh2 == wh && lo2 == lo + w) w += ps[j++]->w;
                t = wbits(wh, lo, w);
            } else if (ps[i]->k == K::Extract) t = bits(ps[i]->kids[0], ps[i]->lo, ps[i]->w);
            else t = I(ps[i]);
            sum = off ? sum + num(p2(off)) * t.t : t.t; ub += p2(off) * t.ub; off += w; i = j;
        }
        return {sum, ub};
    }
    T wfl(E wh, unsigned k) {
        if (k == 0) return wholes.at(wh);
        if (k >= wh->w) return {c.int_val(0), 0};
        auto f = floors.find({wh, k}); if (f != floors.end()) return f->second;
        mpz_class ub = p2(wh->w - k) - 1; z3::expr v = var(ub), rest = wholes.at(wh).t - num(p2(k)) * v;
        s.add(rest >= 0 && rest < num(p2(k)));
        return floors.emplace(std::make_pair(wh, k), T{v, ub}).first->second;
    }
    z3::expr B(E e) { // width-1 expression as a boolean
        auto f = bools.find(e); if (f != bools.end()) return f->second;
        z3::expr r(c);
        auto k = [&](int i) { return e->kids[i]; };
        switch (e->k) {
        case K::Const: r = c.bool_val(!e->val.isZero()); break;
        case K::Eq: r = k(0)->w == 1 ? B(k(0)) == B(k(1)) : I(k(0)).t == I(k(1)).t; break;
        case K::Ult: r = I(k(0)).t < I(k(1)).t; break;
        case K::Ule: r = I(k(0)).t <= I(k(1)).t; break;
        case K::And: r = B(k(0)) && B(k(1)); break;
        case K::Or: r = B(k(0)) || B(k(1)); break;
        case K::Xor: case K::Add: case K::Sub: r = B(k(0)) != B(k(1)); break;
        case K::Ite: r = z3::ite(B(k(0)), B(k(1)), B(k(2))); break;
        case K::Slt: case K::Sle: { unsigned w = k(0)->w; mpz_class h = p2(w - 1), m = p2(w);
            auto sg = [&](E x) { auto t = I(x).t; return z3::ite(t >= num(h), t - num(m), t); };
            r = e->k == K::Slt ? sg(k(0)) < sg(k(1)) : sg(k(0)) <= sg(k(1)); break; }
        case K::Extract: { T x = bits(k(0), e->lo, 1); r = x.t == 1; break; }
        default: { if (e->k != K::Var) opaque = true; z3::expr v = c.bool_const(("b!" + std::to_string(fresh++)).c_str()); if (e->k == K::Var) vars.emplace(e, z3::ite(v, c.int_val(1), c.int_val(0))); r = v; }
        }
        bools.emplace(e, r);
        return r;
    }
    T fl(E x, unsigned k) { // floor(x / 2^k)
        if (k == 0) return I(x);
        if (k >= x->w) return {c.int_val(0), 0};
        auto f = floors.find({x, k}); if (f != floors.end()) return f->second;
        T xi = I(x);
        if (x->k == K::Concat) { unsigned wl = x->kids[1]->w; if (k == wl) return floors.emplace(std::make_pair(x, k), I(x->kids[0])).first->second; }
        mpz_class ub = xi.ub >> k;
        if (ub == 0) return {c.int_val(0), 0};
        z3::expr v = var(ub);
        z3::expr rest = xi.t - num(p2(k)) * v;
        s.add(rest >= 0 && rest < num(p2(k)));
        return floors.emplace(std::make_pair(x, k), T{v, ub}).first->second;
    }
    T bits(E x, unsigned lo, unsigned n) {
        T a = fl(x, lo);
        if (a.ub < p2(n)) return a;
        T b = fl(x, lo + n);
        z3::expr r = a.t - num(p2(n)) * b.t;
        s.add(r >= 0 && r < num(p2(n)));
        return {r, p2(n) - 1};
    }
    T wrap(const z3::expr &t, const mpz_class &lb, const mpz_class &ub, unsigned w) {
        mpz_class m = p2(w);
        if (lb >= 0 && ub < m) return {t, ub};
        mpz_class kl, ku; mpz_fdiv_q(kl.get_mpz_t(), lb.get_mpz_t(), m.get_mpz_t()); mpz_fdiv_q(ku.get_mpz_t(), ub.get_mpz_t(), m.get_mpz_t());
        z3::expr k = var(ku - kl); // quotient - kl
        z3::expr r = t - num(m) * (k + num(kl));
        s.add(r >= 0 && r < num(m));
        return {r, m - 1};
    }
    T I(E e) {
        auto f = ints.find(e); if (f != ints.end()) return f->second;
        T r{z3::expr(c), 0};
        auto k = [&](int i) { return e->kids[i]; };
        mpz_class m = p2(e->w);
        if (e->w == 1) { r = {z3::ite(B(e), c.int_val(1), c.int_val(0)), 1}; ints.emplace(e, r); return r; }
        auto opq = [&]() { opaque = true; r = {var(m - 1), m - 1}; };
        switch (e->k) {
        case K::Const: { mpz_class v = mz(e->val); r = {num(v), v}; break; }
        case K::Var: { if (owner.count(e)) { auto &o = owner[e]; r = wbits(o.whole, o.lo, e->w); break; } z3::expr v = var(m - 1); vars.emplace(e, v); r = {v, m - 1}; break; }
        case K::Add: { T a = I(k(0)), b = I(k(1)); r = wrap(a.t + b.t, 0, a.ub + b.ub, e->w); break; }
        case K::Sub: { T a = I(k(0)), b = I(k(1)); r = wrap(a.t - b.t, -b.ub, a.ub, e->w); break; }
        case K::Mul: { E x = k(0), y = k(1); if (x->isConst()) std::swap(x, y); if (!y->isConst()) { opq(); break; } T a = I(x); mpz_class cc = mz(y->val); r = wrap(a.t * num(cc), 0, a.ub * cc, e->w); break; }
        case K::Concat: r = joined(e); break;
        case K::Extract: { E wh; unsigned lo; if (owned(e, wh, lo)) r = wbits(wh, lo, e->w); else r = bits(k(0), e->lo, e->w); break; }
        case K::ZExt: r = I(k(0)); break;
        case K::SExt: { T a = I(k(0)); unsigned w0 = k(0)->w; mpz_class d = m - p2(w0); if (a.ub < p2(w0 - 1)) r = a; else r = {z3::ite(a.t >= num(p2(w0 - 1)), a.t + num(d), a.t), m - 1}; break; }
        case K::Ite: { T a = I(k(1)), b = I(k(2)); r = {z3::ite(B(k(0)), a.t, b.t), a.ub > b.ub ? a.ub : b.ub}; break; }
        case K::Shl: if (k(1)->isConst()) { unsigned n = k(1)->val.getLimitedValue(e->w); if (n >= e->w) { r = {c.int_val(0), 0}; break; } T a = bits(k(0), 0, e->w - n); r = {num(p2(n)) * a.t, a.ub * p2(n)}; } else opq(); break;
        case K::LShr: if (k(1)->isConst()) r = fl(k(0), k(1)->val.getLimitedValue(e->w)); else opq(); break;
        case K::URem: case K::UDiv: if (k(1)->isConst() && !k(1)->val.isZero()) {
            T a = I(k(0)); mpz_class d = mz(k(1)->val); mpz_class qb = a.ub / d; z3::expr q = var(qb); z3::expr rem = a.t - num(d) * q; s.add(rem >= 0 && rem < num(d));
            if (e->k == K::UDiv) r = {q, qb}; else r = {rem, a.ub < d - 1 ? a.ub : mpz_class(d - 1)}; } else opq(); break;
        case K::Or: case K::Xor: opq(); break;
        case K::And: { E x = k(0), y = k(1); if (x->isConst()) std::swap(x, y); if (y->isConst() && (y->val + 1).isPowerOf2() && !y->val.isZero()) r = bits(x, 0, y->val.countr_one()); else opq(); break; }
        default: opq();
        }
        ints.emplace(e, r);
        return r;
    }
};
static bool hasWide(E e, std::unordered_map<E, bool> &seen) {
    auto f = seen.find(e); if (f != seen.end()) return f->second;
    bool r = e->w > 128 && (e->k == K::Add || e->k == K::Sub || e->k == K::Mul || e->k == K::URem);
    for (E k : e->kids) if (!r && hasWide(k, seen)) r = true;
    return seen[e] = r;
}
static Sat solveLia(z3::context &c, const std::vector<E> &cs, Model *m, unsigned ms) {
    Lia L(c);
    z3::params p(c); p.set("timeout", ms); L.s.set(p);
    L.prepare(cs);
    for (E e : cs) L.s.add(L.B(e));
    if (getenv("EG_LIA")) { static int n; FILE *f = fopen(("/tmp/lia" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2").c_str(), "w"); fprintf(f, "%s", L.s.to_smt2().c_str()); fclose(f); }
    auto r = L.s.check();
    if (r == z3::unsat) return Sat::unsat;
    if (r == z3::unknown) return Sat::unknown;
    auto md = L.s.get_model();
    std::map<std::string, E> vs;
    for (E e : cs) collectVars(e, vs);
    Model mm;
    for (auto &kv : vs) {
        auto f = L.vars.find(kv.second); unsigned bits = kv.second->w;
        auto ow = L.owner.find(kv.second);
        if (ow != L.owner.end()) { E wh = ow->second.whole; std::string str = Z3_get_numeral_string(c, md.eval(L.wholes.at(wh).t, true)); mm.vals[kv.second] = APInt(std::max(wh->w + 1, (unsigned)(str.size() * 4 + 8)), str, 10).extractBits(bits, ow->second.lo); continue; }
        if (f == L.vars.end()) { mm.vals[kv.second] = APInt(bits, 0); continue; }
        std::string str = Z3_get_numeral_string(c, md.eval(f->second, true));
        mm.vals[kv.second] = APInt(std::max(bits + 1, (unsigned)(str.size() * 4 + 8)), str, 10).trunc(bits);
    }
    std::unordered_map<E, APInt> memo;
    for (E e : cs) if (evalExpr(e, mm.vals, memo).isZero()) return Sat::unknown;
    if (m) *m = mm;
    return Sat::sat;
}
