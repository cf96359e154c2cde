#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <unordered_set>

static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdULL; }
static std::unordered_map<uint64_t, std::vector<Expr *>> table;
static std::vector<Expr *> all;

static E intern(Expr &&x) {
    uint64_t h = mix((uint64_t)x.k, x.w); h = mix(h, x.lo);
    for (auto k : x.kids) h = mix(h, k->id + 1);
    if (x.k == K::Const) h = mix(h, (uint64_t)llvm::hash_value(x.val));
    if (x.k == K::Var) h = mix(h, std::hash<std::string>()(x.name));
    auto &b = table[h];
    for (auto *e : b)
        if (e->k == x.k && e->w == x.w && e->lo == x.lo && e->kids == x.kids && (x.k != K::Const || e->val == x.val) && (x.k != K::Var || e->name == x.name)) return e;
    x.h = h;
    x.id = all.size();
    auto *n = new Expr(std::move(x));
    b.push_back(n);
    all.push_back(n);
    return n;
}
size_t exprCount() { return all.size(); }
E byId(unsigned id) { return all[id]; }
E mkConst(const APInt &v) { Expr x; x.k = K::Const; x.w = v.getBitWidth(); x.val = v; return intern(std::move(x)); }
E mkConst(unsigned w, uint64_t v) { return mkConst(APInt(w, v)); }
E mkVar(unsigned w, const std::string &n) { Expr x; x.k = K::Var; x.w = w; x.name = n; x.multi = w > 8;
    auto *r = const_cast<Expr *>(intern(std::move(x)));
    if (w <= 8 && !r->tab) { r->v1 = r; auto *p = new uint64_t[1u << w]; for (unsigned i = 0; i < (1u << w); i++) p[i] = i; r->tab = p; }
    return r; }
static APInt fold(K k, const APInt &a, const APInt &b);
// Terms over one byte are kept in canonical form: the first term built for each function of the byte stands for all of
// them.  (Exact: the function is tabulated for all values of the byte.)
static std::unordered_map<uint64_t, std::vector<E>> canon;
static size_t nTabs;
static inline uint64_t mask(unsigned w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
static bool tabulate(Expr &x, uint64_t *t) {
    unsigned n = 1u << x.v1->w;
    const uint64_t *kt[3] = {}; uint64_t kc[3] = {}; unsigned kw[3] = {};
    for (size_t i = 0; i < x.kids.size(); i++) {
        E c = x.kids[i]; kw[i] = c->w;
        if (c->w > 64) return false;
        if (c->isConst()) kc[i] = c->val.getZExtValue();
        else if (c->tab) kt[i] = c->tab;
        else return false;
    }
    auto sx = [](uint64_t v, unsigned w) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    for (unsigned i = 0; i < n; i++) {
        uint64_t a = kt[0] ? kt[0][i] : kc[0], b = kt[1] ? kt[1][i] : kc[1], r;
        unsigned w = kw[0];
        switch (x.k) {
        case K::Extract: r = a >> x.lo; break;
        case K::ZExt: r = a; break;
        case K::SExt: r = (uint64_t)sx(a, w); break;
        case K::Ite: r = a ? b : (kt[2] ? kt[2][i] : kc[2]); break;
        case K::Add: r = a + b; break;
        case K::Sub: r = a - b; break;
        case K::Mul: r = a * b; break;
        case K::And: r = a & b; break;
        case K::Or: r = a | b; break;
        case K::Xor: r = a ^ b; break;
        case K::Eq: r = a == b; break;
        case K::Ult: r = a < b; break;
        case K::Ule: r = a <= b; break;
        case K::Slt: r = sx(a, w) < sx(b, w); break;
        case K::Sle: r = sx(a, w) <= sx(b, w); break;
        case K::Concat: r = (a << kw[1]) | b; break;
        default: r = fold(x.k, APInt(w, a), APInt(kw[1], b)).getZExtValue(); break;
        }
        t[i] = r & mask(x.w);
    }
    return true;
}
static E mk(K k, unsigned w, std::vector<E> kids, unsigned lo = 0) {
    Expr x; x.k = k; x.w = w; x.kids = std::move(kids); x.lo = lo;
    for (E c : x.kids) {
        if (c->isConst()) continue;
        if (c->multi || (x.v1 && x.v1 != c->v1)) x.multi = true;
        x.v1 = c->v1;
    }
    if (x.multi) x.v1 = nullptr;
    if (!x.v1 || w > 64 || nTabs > 200000) return intern(std::move(x));
    uint64_t t[256]; unsigned n = 1u << x.v1->w;
    if (!tabulate(x, t)) return intern(std::move(x));
    bool cst = true, id = w >= x.v1->w;
    uint64_t h = mix(x.v1->id, w);
    for (unsigned i = 0; i < n; i++) { cst = cst && t[i] == t[0]; id = id && t[i] == i; h = mix(h, t[i]); }
    if (cst) return mkConst(w, t[0]);
    if (id && !(k == K::ZExt && x.kids[0] == x.v1)) return mkZExt(x.v1, w);
    auto &b = canon[h];
    for (E e : b) if (e->v1 == x.v1 && e->w == w && !memcmp(e->tab, t, n * sizeof *t)) return e;
    E r = intern(std::move(x));
    if (!r->tab) { auto *p = new uint64_t[n]; memcpy(p, t, n * sizeof *t); const_cast<Expr *>(r)->tab = p; nTabs++; }
    b.push_back(r);
    return r;
}

static APInt fold(K k, const APInt &a, const APInt &b) {
    switch (k) {
    case K::Add: return a + b;
    case K::Sub: return a - b;
    case K::Mul: return a * b;
    case K::UDiv: return b.isZero() ? APInt::getAllOnes(a.getBitWidth()) : a.udiv(b);
    case K::SDiv: return b.isZero() ? (a.isNegative() ? APInt(a.getBitWidth(), 1) : APInt::getAllOnes(a.getBitWidth())) : a.sdiv(b);
    case K::URem: return b.isZero() ? a : a.urem(b);
    case K::SRem: return b.isZero() ? a : a.srem(b);
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b.uge(a.getBitWidth()) ? APInt(a.getBitWidth(), 0) : a.shl(b);
    case K::LShr: return b.uge(a.getBitWidth()) ? APInt(a.getBitWidth(), 0) : a.lshr(b);
    case K::AShr: return b.uge(a.getBitWidth()) ? (a.isNegative() ? APInt::getAllOnes(a.getBitWidth()) : APInt(a.getBitWidth(), 0)) : a.ashr(b);
    case K::Eq: return APInt(1, a == b);
    case K::Ult: return APInt(1, a.ult(b));
    case K::Ule: return APInt(1, a.ule(b));
    case K::Slt: return APInt(1, a.slt(b));
    case K::Sle: return APInt(1, a.sle(b));
    case K::Concat: { APInt r = a.zext(a.getBitWidth() + b.getBitWidth()); return r.shl(b.getBitWidth()) | b.zext(r.getBitWidth()); }
    default: assert(0); return a;
    }
}

// split into pieces low-to-high
static void pieces(E e, std::vector<E> &out) {
    if (e->k == K::Concat) { pieces(e->kids[1], out); pieces(e->kids[0], out); }
    else if (e->k == K::ZExt) { pieces(e->kids[0], out); out.push_back(mkConst(e->w - e->kids[0]->w, 0)); }
    else out.push_back(e);
}
static E joinPieces(const std::vector<E> &p) {
    E r = p[0];
    for (size_t i = 1; i < p.size(); i++) r = mkConcat(p[i], r);
    return r;
}
static bool structured(E e) { return e->k == K::Concat || e->k == K::ZExt || e->k == K::Const; }

static E bitwise(K k, E a, E b) {
    unsigned w = a->w;
    // piecewise processing if it resolves completely
    if (structured(a) && structured(b)) {
        std::vector<E> pa, pb;
        pieces(a, pa); pieces(b, pb);
        // constants: also break masks into runs
        auto runs = [](std::vector<E> &p) {
            std::vector<E> o;
            for (E e : p) {
                if (e->isConst() && e->w > 1) {
                    unsigned i = 0;
                    while (i < e->w) {
                        bool bit = e->val[i]; unsigned j = i;
                        while (j < e->w && e->val[j] == bit) j++;
                        o.push_back(mkConst(bit ? APInt::getAllOnes(j - i) : APInt(j - i, 0)));
                        i = j;
                    }
                } else o.push_back(e);
            }
            p = o;
        };
        // if a const has too many runs skip
        auto many = [](std::vector<E> &p) { size_t n = 0; for (E e : p) if (e->isConst()) { unsigned c = 0; for (unsigned i = 1; i < e->w; i++) c += e->val[i] != e->val[i - 1]; n += c; } return n > 8; };
        if (!many(pa) && !many(pb)) {
            runs(pa); runs(pb);
            std::vector<E> out;
            size_t i = 0, j = 0; unsigned oi = 0, oj = 0; bool ok = true; unsigned pos = 0;
            while (pos < w) {
                unsigned n = std::min(pa[i]->w - oi, pb[j]->w - oj);
                E x = mkExtract(pa[i], oi, n), y = mkExtract(pb[j], oj, n), r = nullptr;
                if (x->isConst() && y->isConst()) r = mkConst(fold(k, x->val, y->val));
                else {
                    if (x->isConst()) std::swap(x, y);
                    if (y->isConst()) {
                        if (y->val.isZero()) r = k == K::And ? y : x;
                        else if (y->val.isAllOnes()) { if (k == K::And) r = x; else if (k == K::Or) r = y; }
                    } else if (x == y) r = k == K::Xor ? mkConst(n, 0) : x;
                }
                if (!r) { ok = false; break; }
                out.push_back(r);
                pos += n; oi += n; oj += n;
                if (oi == pa[i]->w) { i++; oi = 0; }
                if (oj == pb[j]->w) { j++; oj = 0; }
            }
            if (ok) return joinPieces(out);
        }
    }
    return nullptr;
}

static bool isOnes(E e) { return e->isConst() && e->val.isAllOnes(); }
static bool isZero(E e) { return e->isConst() && e->val.isZero(); }

static bool knownDisjoint(E a, E b) { // a & b == 0 structurally
    std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb);
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0, pos = 0;
    while (pos < a->w) {
        unsigned n = std::min(pa[i]->w - oi, pb[j]->w - oj);
        bool za = pa[i]->isConst() && pa[i]->val.extractBits(n, oi).isZero();
        bool zb = pb[j]->isConst() && pb[j]->val.extractBits(n, oj).isZero();
        if (!za && !zb) return false;
        pos += n; oi += n; oj += n;
        if (oi == pa[i]->w) { i++; oi = 0; }
        if (oj == pb[j]->w) { j++; oj = 0; }
    }
    return true;
}

E mkBin(K k, E a, E b) {
    if (k == K::Eq) return mkEq(a, b);
    if (k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle) return mkCmp(k, a, b);
    assert(a->w == b->w);
    unsigned w = a->w;
    if (a->isConst() && b->isConst()) return mkConst(fold(k, a->val, b->val));
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
    if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    switch (k) {
    case K::Add:
        if (isZero(b)) return a;
        if (b->isConst() && a->k == K::Add && a->kids[1]->isConst()) return mkBin(K::Add, a->kids[0], mkConst(a->kids[1]->val + b->val));
        if (w == 1) return mkBin(K::Xor, a, b);
        if (a->k == K::Sub && a->kids[1] == b) return a->kids[0];
        if (b->k == K::Sub && b->kids[1] == a) return b->kids[0];
        if (structured(a) && structured(b) && knownDisjoint(a, b)) return mkBin(K::Or, a, b);
        break;
    case K::Sub:
        if (isZero(b)) return a;
        if (a == b) return mkConst(w, 0);
        if (b->isConst()) return mkBin(K::Add, a, mkConst(-b->val));
        if (w == 1) return mkBin(K::Xor, a, b);
        if (a->k == K::Add) { if (a->kids[0] == b) return a->kids[1]; if (a->kids[1] == b) return a->kids[0]; }
        break;
    case K::Mul:
        if (isZero(b)) return b;
        if (b->isConst() && b->val.isOne()) return a;
        if (b->isConst() && b->val.isPowerOf2()) return mkBin(K::Shl, a, mkConst(w, b->val.logBase2()));
        break;
    case K::UDiv:
        if (a->k == K::ZExt && b->isConst() && !b->val.isZero()) {
            unsigned iw = a->kids[0]->w;
            if (b->val.getActiveBits() > iw) return mkConst(w, 0);
            return mkZExt(mkBin(k, a->kids[0], mkConst(b->val.trunc(iw))), w);
        }
        if (b->isConst() && b->val.isOne()) return a;
        if (b->isConst() && b->val.isPowerOf2()) return mkBin(K::LShr, a, mkConst(w, b->val.logBase2()));
        break;
    case K::URem:
        if (a->k == K::ZExt && b->isConst() && !b->val.isZero()) {
            unsigned iw = a->kids[0]->w;
            if (b->val.getActiveBits() > iw) return a;
            return mkZExt(mkBin(k, a->kids[0], mkConst(b->val.trunc(iw))), w);
        }
        if (b->isConst() && b->val.isPowerOf2()) return mkBin(K::And, a, mkConst(b->val - 1));
        break;
    case K::And:
        if (isZero(b)) return b;
        if (isOnes(b) || a == b) return a;
        if (b->isConst() && a->k == K::And && a->kids[1]->isConst()) return mkBin(K::And, a->kids[0], mkConst(a->kids[1]->val & b->val));
        if (b->isConst() && b->val.isShiftedMask()) { // contiguous run -> extract
            unsigned lo = b->val.countr_zero(), n = b->val.popcount();
            E m = mkExtract(a, lo, n);
            E r = m;
            if (lo) r = mkConcat(r, mkConst(lo, 0));
            if (r->w < w) r = mkZExt(r, w);
            return r;
        }
        if (E r = bitwise(k, a, b)) return r;
        break;
    case K::Or:
        if (isZero(b) || a == b) return a;
        if (isOnes(b)) return b;
        if (E r = bitwise(k, a, b)) return r;
        break;
    case K::Xor:
        if (isZero(b)) return a;
        if (a == b) return mkConst(w, 0);
        if (b->isConst() && a->k == K::Xor && a->kids[1]->isConst()) return mkBin(K::Xor, a->kids[0], mkConst(a->kids[1]->val ^ b->val));
        if (w == 1 && isOnes(b)) {
            // not of comparison
            if (a->k == K::Ult) return mkCmp(K::Ule, a->kids[1], a->kids[0]);
            if (a->k == K::Ule) return mkCmp(K::Ult, a->kids[1], a->kids[0]);
            if (a->k == K::Slt) return mkCmp(K::Sle, a->kids[1], a->kids[0]);
            if (a->k == K::Sle) return mkCmp(K::Slt, a->kids[1], a->kids[0]);
            if (a->k == K::Ite) return mkIte(a->kids[0], mkNot(a->kids[1]), mkNot(a->kids[2]));
        }
        if (E r = bitwise(k, a, b)) return r;
        break;
    case K::Shl:
        if (isZero(a) || isZero(b)) return a;
        if (b->isConst()) {
            if (b->val.uge(w)) return mkConst(w, 0);
            unsigned s = b->val.getZExtValue();
            return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
        }
        break;
    case K::LShr:
        if (isZero(a) || isZero(b)) return a;
        if (b->isConst()) {
            if (b->val.uge(w)) return mkConst(w, 0);
            unsigned s = b->val.getZExtValue();
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::AShr:
        if (isZero(a) || isZero(b)) return a;
        if (b->isConst()) {
            unsigned s = b->val.uge(w) ? w - 1 : b->val.getZExtValue();
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    default: break;
    }
    return mk(k, w, {a, b});
}

E mkExtract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w && w > 0);
    if (lo == 0 && w == a->w) return a;
    switch (a->k) {
    case K::Const: return mkConst(a->val.extractBits(w, lo));
    case K::Extract: return mkExtract(a->kids[0], a->lo + lo, w);
    case K::Concat: {
        unsigned lw = a->kids[1]->w;
        if (lo + w <= lw) return mkExtract(a->kids[1], lo, w);
        if (lo >= lw) return mkExtract(a->kids[0], lo - lw, w);
        return mkConcat(mkExtract(a->kids[0], 0, lo + w - lw), mkExtract(a->kids[1], lo, lw - lo));
    }
    case K::ZExt: {
        unsigned iw = a->kids[0]->w;
        if (lo >= iw) return mkConst(w, 0);
        if (lo + w <= iw) return mkExtract(a->kids[0], lo, w);
        return mkZExt(mkExtract(a->kids[0], lo, iw - lo), w);
    }
    case K::SExt: {
        unsigned iw = a->kids[0]->w;
        if (lo + w <= iw) return mkExtract(a->kids[0], lo, w);
        if (lo >= iw) return w == 1 ? mkExtract(a->kids[0], iw - 1, 1) : mkSExt(mkExtract(a->kids[0], iw - 1, 1), w);
        if (lo == 0) return mkSExt(a->kids[0], w);
        return mkSExt(mkExtract(a->kids[0], lo, iw - lo), w);
    }
    case K::And: case K::Or: case K::Xor:
        return mkBin(a->k, mkExtract(a->kids[0], lo, w), mkExtract(a->kids[1], lo, w));
    case K::Add: case K::Sub: case K::Mul:
        if (lo == 0 && a->w <= 128) return mkBin(a->k, mkExtract(a->kids[0], 0, w), mkExtract(a->kids[1], 0, w));
        break;
    case K::Ite:
        if (a->kids[1]->isConst() || a->kids[2]->isConst()) return mkIte(a->kids[0], mkExtract(a->kids[1], lo, w), mkExtract(a->kids[2], lo, w));
        break;
    default: break;
    }
    return mk(K::Extract, w, {a}, lo);
}

E mkConcat(E hi, E lo) {
    if (hi->isConst() && lo->isConst()) return mkConst(fold(K::Concat, hi->val, lo->val));
    if (isZero(hi)) return mkZExt(lo, hi->w + lo->w);
    // adjacent extracts
    auto src = [](E e, E &s, unsigned &l) { if (e->k == K::Extract) { s = e->kids[0]; l = e->lo; } else { s = e; l = 0; } };
    E hs, ls; unsigned hl, ll; src(hi, hs, hl); src(lo, ls, ll);
    if (hs == ls && hl == ll + lo->w) return mkExtract(hs, ll, hi->w + lo->w);
    // hi ++ (m ++ l) with hi,m adjacent
    if (lo->k == K::Concat) {
        E ms; unsigned ml; src(lo->kids[0], ms, ml);
        if (hs == ms && hl == ml + lo->kids[0]->w) return mkConcat(mkExtract(hs, ml, hi->w + lo->kids[0]->w), lo->kids[1]);
        if (hi->isConst() && lo->kids[0]->isConst()) return mkConcat(mkConst(fold(K::Concat, hi->val, lo->kids[0]->val)), lo->kids[1]);
    }
    if (lo->k == K::ZExt && hi->isConst()) { // hi ++ zext(x) = (hi ++ 0) ++ x
        E z = mkConst(lo->w - lo->kids[0]->w, 0);
        return mkConcat(mkConst(fold(K::Concat, hi->val, z->val)), lo->kids[0]);
    }
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->kids[0], lo), hi->w + lo->w);
    if (hi->k == K::Concat && !hi->kids[1]->isConst()) { // right-assoc to find adjacency
        E ms; unsigned ml; src(hi->kids[1], ms, ml);
        if (ms == ls && ml == ll + lo->w) return mkConcat(hi->kids[0], mkExtract(ms, ll, hi->kids[1]->w + lo->w));
    }
    if (hi->k == K::Concat) return mkConcat(hi->kids[0], mkConcat(hi->kids[1], lo));
    return mk(K::Concat, hi->w + lo->w, {hi, lo});
}

E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    assert(w > a->w);
    if (a->isConst()) return mkConst(a->val.zext(w));
    if (a->k == K::ZExt) return mkZExt(a->kids[0], w);
    return mk(K::ZExt, w, {a});
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isConst()) return mkConst(a->val.sext(w));
    if (a->k == K::SExt) return mkSExt(a->kids[0], w);
    if (a->k == K::ZExt) return mkZExt(a->kids[0], w);
    return mk(K::SExt, w, {a});
}
E mkNot(E a) { assert(a->w == 1); return mkBin(K::Xor, a, mkConst(1, 1)); }
E mkAnd1(E a, E b) { return mkBin(K::And, a, b); }
E mkOr1(E a, E b) { return mkBin(K::Or, a, b); }

E mkEq(E a, E b) {
    assert(a->w == b->w);
    if (a == b) return mkBool(true);
    if (a->isConst() && b->isConst()) return mkBool(a->val == b->val);
    if (a->isConst()) std::swap(a, b);
    if (b->isConst()) {
        if (a->w == 1) return b->val.isZero() ? mkNot(a) : a;
        switch (a->k) {
        case K::ZExt: {
            unsigned iw = a->kids[0]->w;
            if (!b->val.extractBits(a->w - iw, iw).isZero()) return mkBool(false);
            return mkEq(a->kids[0], mkConst(b->val.trunc(iw)));
        }
        case K::SExt: {
            unsigned iw = a->kids[0]->w;
            if (b->val.trunc(iw).sext(a->w) != b->val) return mkBool(false);
            return mkEq(a->kids[0], mkConst(b->val.trunc(iw)));
        }
        case K::Concat: {
            unsigned lw = a->kids[1]->w;
            E x = mkEq(a->kids[0], mkConst(b->val.extractBits(a->w - lw, lw)));
            if (isFalse(x)) return x;
            return mkAnd1(x, mkEq(a->kids[1], mkConst(b->val.trunc(lw))));
        }
        case K::Add: if (a->kids[1]->isConst()) return mkEq(a->kids[0], mkConst(b->val - a->kids[1]->val)); break;
        case K::Xor: if (a->kids[1]->isConst()) return mkEq(a->kids[0], mkConst(b->val ^ a->kids[1]->val)); break;
        case K::Sub: if (b->val.isZero()) return mkEq(a->kids[0], a->kids[1]); break;
        case K::Ite:
            if (a->kids[1]->isConst() || a->kids[2]->isConst()) {
                E t = mkEq(a->kids[1], b), f = mkEq(a->kids[2], b);
                return mkIte(a->kids[0], t, f);
            }
            break;
        default: break;
        }
    } else {
        if (a->k == K::ZExt && b->k == K::ZExt && a->kids[0]->w == b->kids[0]->w) return mkEq(a->kids[0], b->kids[0]);
        if (a->k == K::Concat && b->k == K::Concat && a->kids[1]->w == b->kids[1]->w) return mkAnd1(mkEq(a->kids[0], b->kids[0]), mkEq(a->kids[1], b->kids[1]));
    }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return mk(K::Eq, 1, {a, b});
}
E mkCmp(K k, E a, E b) {
    assert(a->w == b->w);
    if (a->isConst() && b->isConst()) return mkConst(fold(k, a->val, b->val));
    if (a == b) return mkBool(k == K::Ule || k == K::Sle);
    if (k == K::Ult) {
        if (isZero(b)) return mkBool(false);
        if (a->isConst() && a->val.isMaxValue()) return mkBool(false);
        if (isZero(a)) return mkNot(mkEq(b, a));
        if (b->isConst() && b->val.isOne()) return mkEq(a, mkConst(a->w, 0));
    }
    if (k == K::Ule) {
        if (isZero(a)) return mkBool(true);
        if (b->isConst() && b->val.isMaxValue()) return mkBool(true);
        if (isZero(b)) return mkEq(a, b);
    }
    if ((k == K::Ult || k == K::Ule)) {
        if (a->k == K::ZExt && b->k == K::ZExt) { unsigned m = std::max(a->kids[0]->w, b->kids[0]->w); if (m < a->w) return mkCmp(k, mkExtract(a, 0, m), mkExtract(b, 0, m)); }
        if (a->k == K::ZExt && b->isConst()) {
            unsigned iw = a->kids[0]->w;
            if (b->val.getActiveBits() > iw) return mkBool(true);
            return mkCmp(k, a->kids[0], mkConst(b->val.trunc(iw)));
        }
        if (b->k == K::ZExt && a->isConst()) {
            unsigned iw = b->kids[0]->w;
            if (a->val.getActiveBits() > iw) return mkBool(false);
            return mkCmp(k, mkConst(a->val.trunc(iw)), b->kids[0]);
        }
    }
    if ((k == K::Slt || k == K::Sle)) {
        if (a->k == K::ZExt && b->k == K::ZExt) { unsigned m = std::max(a->kids[0]->w, b->kids[0]->w); if (m < a->w) return mkCmp(k == K::Slt ? K::Ult : K::Ule, mkExtract(a, 0, m), mkExtract(b, 0, m)); }
        if (a->k == K::ZExt && b->isConst() && !b->val.isNegative()) return mkCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
        if (a->k == K::ZExt && b->isConst() && b->val.isNegative()) return mkBool(false);
        if (b->k == K::ZExt && a->isConst() && !a->val.isNegative()) return mkCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
        if (b->k == K::ZExt && a->isConst() && a->val.isNegative()) return mkBool(true);
    }
    return mk(k, 1, {a, b});
}
E mkIte(E c, E t, E f) {
    assert(t->w == f->w && c->w == 1);
    if (c->isConst()) return isTrue(c) ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
        if (isTrue(t) && isFalse(f)) return c;
        if (isFalse(t) && isTrue(f)) return mkNot(c);
        if (isTrue(t)) return mkOr1(c, f);
        if (isFalse(t)) return mkAnd1(mkNot(c), f);
        if (isTrue(f)) return mkOr1(mkNot(c), t);
        if (isFalse(f)) return mkAnd1(c, t);
    }
    if (f->k == K::Ite && f->kids[0] == c) return mkIte(c, t, f->kids[2]);
    if (t->k == K::Ite && t->kids[0] == c) return mkIte(c, t->kids[1], f);
    if (t->k == K::ZExt && f->k == K::ZExt && t->kids[0]->w == f->kids[0]->w) return mkZExt(mkIte(c, t->kids[0], f->kids[0]), t->w);
    return mk(K::Ite, t->w, {c, t, f});
}

static const char *kname(K k) {
    static const char *n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "eq", "ult", "slt", "ule", "sle", "ite"};
    return n[(int)k];
}
std::string exprStr(E e, int d) {
    if (e->isConst()) { llvm::SmallString<64> s; e->val.toString(s, 16, false); return "0x" + std::string(s.c_str()); }
    if (e->k == K::Var) return e->name;
    if (d <= 0) return "#" + std::to_string(e->id);
    std::string s = std::string("(") + kname(e->k);
    if (e->k == K::Extract) s += "[" + std::to_string(e->lo + e->w - 1) + ":" + std::to_string(e->lo) + "]";
    if (e->k == K::ZExt || e->k == K::SExt) s += std::to_string(e->w);
    for (auto k : e->kids) s += " " + exprStr(k, d - 1);
    return s + ")";
}
static std::unordered_map<E, std::vector<unsigned>> varCache;
const std::vector<unsigned> &varIds(E e0) {
    auto f = varCache.find(e0);
    if (f != varCache.end()) return f->second;
    std::vector<E> st{e0};
    while (!st.empty()) {
        E e = st.back();
        if (varCache.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (E k : e->kids) if (!varCache.count(k)) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back();
        std::vector<unsigned> v;
        if (e->k == K::Var) v.push_back(e->id);
        for (E k : e->kids) { auto &o = varCache[k]; std::vector<unsigned> r; std::set_union(v.begin(), v.end(), o.begin(), o.end(), std::back_inserter(r)); v.swap(r); }
        varCache[e] = v;
    }
    return varCache[e0];
}
void collectVars(E e, std::map<std::string, E> &out) { for (auto id : varIds(e)) out[all[id]->name] = all[id]; }

APInt evalExpr(E e0, const std::unordered_map<E, APInt> &model, std::unordered_map<E, APInt> &memo) {
    std::vector<E> st{e0};
    while (!st.empty()) {
        E e = st.back();
        if (memo.count(e)) { st.pop_back(); continue; }
        bool ready = true;
        for (E k : e->kids) if (!memo.count(k)) { st.push_back(k); ready = false; }
        if (!ready) continue;
        st.pop_back();
        APInt r;
        switch (e->k) {
        case K::Const: r = e->val; break;
        case K::Var: { auto f = model.find(e); r = f == model.end() ? APInt(e->w, 0) : f->second; break; }
        case K::Extract: r = memo.at(e->kids[0]).extractBits(e->w, e->lo); break;
        case K::ZExt: r = memo.at(e->kids[0]).zext(e->w); break;
        case K::SExt: r = memo.at(e->kids[0]).sext(e->w); break;
        case K::Ite: r = memo.at(e->kids[0]).isZero() ? memo.at(e->kids[2]) : memo.at(e->kids[1]); break;
        default: r = fold(e->k, memo.at(e->kids[0]), memo.at(e->kids[1])); break;
        }
        memo.emplace(e, r);
    }
    return memo.at(e0);
}
