// C10: disjunctive Chaum-Pedersen proofs: honest proofs verify, anything that misses one verification equation does not
#include "sym.hpp"
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/precompute_buffers.hpp>
using namespace electionguard;
using std::make_unique;
using std::unique_ptr;
static unique_ptr<ElGamalCiphertext> enc(const ElementModP &K, const ElementModQ &r, uint64_t m)
{
    auto b = ppow(K, r);
    if (m) b = pmul(*b, *gen());
    return make_unique<ElGamalCiphertext>(gpow(r), std::move(b));
}
ENTRY(h_complete)
{
    auto s = qvar("secret"), r = qvar("nonce"), q = qvar("base_hash");
    auto K = gpow(*s);
    uint64_t m = eg_choice(2, "m"), how = eg_choice(3, "how");
    auto c = enc(*K, *r, m);
    unique_ptr<DisjunctiveChaumPedersenProof> p;
    if (how == 0) p = DisjunctiveChaumPedersenProof::make(*c, *r, *K, *q, m);
    else if (how == 1) p = DisjunctiveChaumPedersenProof::make(*c, *r, *K, *q, *qvar("seed"), m);
    else {
        auto u = qvar("u"), v = qvar("v"), w = qvar("w");
        auto t1 = make_unique<Triple>(dup(r), gpow(*r), ppow(*K, *r));
        auto t2 = make_unique<Triple>(dup(u), gpow(*u), ppow(*K, *u));
        auto qd = make_unique<Quadruple>(dup(v), dup(w), gpow(*v), pmul(*gpow(*w), *ppow(*K, *v)));
        p = DisjunctiveChaumPedersenProof::make_with_precomputed(*c, make_unique<TwoTriplesAndAQuadruple>(std::move(t1), std::move(t2), std::move(qd)), *q, m);
    }
    MUST(p->isValid(*c, *K, *q), "an honestly made proof verifies");
    // the proof is bound to key, ciphertext and base hash
    auto other = qvar("other");
    MUST(!p->isValid(*c, *gpow(*other), *q), "the proof does not verify under another key");
    MUST(!p->isValid(*c, *K, *other), "the proof does not verify under another base hash");
    auto c2 = make_unique<ElGamalCiphertext>(gpow(*other), dup(EP(make_unique<ElementModP>(*c->getData()))));
    MUST(!p->isValid(*c2, *K, *q), "the proof does not verify for another pad");
    auto c3 = make_unique<ElGamalCiphertext>(make_unique<ElementModP>(*c->getPad()), gpow(*other));
    MUST(!p->isValid(*c3, *K, *q), "the proof does not verify for other data");
    eg_reach(1 + how);
}
// a proof of a statement about m outside {0,1} cannot be made
ENTRY(h_reject_plain)
{
    auto s = qvar("secret"), r = qvar("nonce"), q = qvar("base_hash");
    auto K = gpow(*s);
    uint64_t m; eg_sym(&m, 8, "m"); eg_assume(m > 1);
    auto c = enc(*K, *r, 1);
    uint64_t how = eg_choice(2, "how");
    bool threw = false;
    try { if (how) DisjunctiveChaumPedersenProof::make(*c, *r, *K, *q, m); else DisjunctiveChaumPedersenProof::make(*c, *r, *K, *q, *qvar("seed"), m); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "proofs for plaintexts other than 0 and 1 are refused");
    eg_reach(1);
}
// proof over an arbitrary ciphertext that satisfies every equation except a chosen one
ENTRY(h_sound)
{
    enum { NONE, A0, B0, A1, B1, C_HASH, C_SUM, V0_RANGE, C0_RANGE, NR_ALPHA, NR_BETA, NR_A0, NR_B0, NR_A1, NR_B1, HEADER, V0, V1, KINDS };
    uint32_t k = eg_choice(KINDS, "broken"), m = eg_choice(2, "m");
    auto s = qvar("secret"), r = qvar("nonce"), q = qvar("base_hash"), d = qvar("d");
    auto K = gpow(*s);
    auto zero = qconst(0);
    auto beta_e = qadd(*qmul(*s, *r), *qconst(m));
    PL64 nr; // an element outside the subgroup
    auto fix = [&](EP e, bool bad) -> EP { if (!bad) return e; PL64 t; eg_t_pvar_nr(t, "outside", 1); return pmul(*e, *mkP(t)); };
    // simulated branch (1-m): free challenge and response; real branch m: commitment u
    auto cs = k == C0_RANGE ? qconst(7) : qvar("cs"), vs = k == V0_RANGE ? qconst(5) : qvar("vs"), u = qvar("u");
    auto us_a = qsub(*vs, *qmul(*cs, *r));
    // equation for data of branch b: b*c_b + s*v_b = log(b_b) + c_b*beta
    auto us_b = qsub(*qadd(*qmul(*s, *vs), *(m == 1 ? EQ(qconst(0)) : dup(cs))), *qmul(*cs, *beta_e));
    auto ur_a = dup(u), ur_b = qmul(*s, *u);
    EQ a0e = m ? dup(us_a) : dup(ur_a), b0e = m ? dup(us_b) : dup(ur_b), a1e = m ? dup(ur_a) : dup(us_a), b1e = m ? dup(ur_b) : dup(us_b);
    if (k == A0) a0e = qadd(*a0e, *d);
    if (k == B0) b0e = qadd(*b0e, *d);
    if (k == A1) a1e = qadd(*a1e, *d);
    if (k == B1) b1e = qadd(*b1e, *d);
    auto alpha = fix(gpow(*r), k == NR_ALPHA), beta = fix(gpow(*beta_e), k == NR_BETA);
    auto a0 = fix(gpow(*a0e), k == NR_A0), b0 = fix(gpow(*b0e), k == NR_B0), a1 = fix(gpow(*a1e), k == NR_A1), b1 = fix(gpow(*b1e), k == NR_B1);
    // the expected challenge is recomputed through the library's hash (its encoding is C06)
    EQ h = k == HEADER ? hash_elems({alpha.get(), beta.get(), a0.get(), b0.get(), a1.get(), b1.get()}) : hash_elems({q.get(), alpha.get(), beta.get(), a0.get(), b0.get(), a1.get(), b1.get()});
    EQ c = k == C_HASH ? qadd(*h, *d) : dup(h);
    EQ cr = qsub(*c, *cs);
    if (k == C_SUM) cr = qadd(*cr, *d);
    EQ vr = qadd(*u, *qmul(*cr, *r));
    if (k == V0_RANGE || k == C0_RANGE) { // the same residue, written as a number >= q
        uint64_t off = k == V0_RANGE ? 5 : 7;
        u256 w = fromLimbs<256>(Q_ARRAY_REVERSE) + off; QL4 l; memcpy(l, &w, 32);
        (k == V0_RANGE ? vs : cs) = mkQ(l);
    }
    EQ v0 = m ? dup(vs) : dup(vr), v1 = m ? dup(vr) : dup(vs);
    if (k == V0) v0 = qadd(*v0, *d);
    if (k == V1) v1 = qadd(*v1, *d);
    DisjunctiveChaumPedersenProof p(dup(a0), dup(b0), dup(a1), dup(b1), m ? dup(cs) : dup(cr), m ? dup(cr) : dup(cs), dup(c), std::move(v0), std::move(v1));
    ElGamalCiphertext ct(dup(alpha), dup(beta));
    bool ok = p.isValid(ct, *K, *q);
    if (k == NONE) { MUST(ok, "a proof that satisfies every equation verifies"); eg_reach(1); }
    else { MUST(!ok, "a proof that misses one equation, challenge or range condition does not verify"); eg_reach(2); }
}
// for arbitrary values, the verdict is exactly the conjunction of the verification equations
ENTRY(h_exact)
{
    eg_t_atoms(1);
    auto K = pvar("K"), alpha = pvar("alpha"), beta = pvar("beta"), a0 = pvar("a0"), b0 = pvar("b0"), a1 = pvar("a1"), b1 = pvar("b1");
    auto q = qvar("base_hash"), c0 = qvar("c0"), c1 = qvar("c1"), c = qvar("c"), v0 = qvar("v0"), v1 = qvar("v1");
    DisjunctiveChaumPedersenProof p(dup(a0), dup(b0), dup(a1), dup(b1), dup(c0), dup(c1), dup(c), dup(v0), dup(v1));
    ElGamalCiphertext ct(dup(alpha), dup(beta));
    bool ok = p.isValid(ct, *K, *q);
    auto h = hash_elems({q.get(), alpha.get(), beta.get(), a0.get(), b0.get(), a1.get(), b1.get()});
    bool e1 = qeq(*qadd(*c0, *c1), *c), e2 = qeq(*c, *h);
    bool e3 = peq(*gpow(*v0), *pmul(*a0, *ppow(*alpha, *c0))), e4 = peq(*gpow(*v1), *pmul(*a1, *ppow(*alpha, *c1)));
    bool e5 = peq(*ppow(*K, *v0), *pmul(*b0, *ppow(*beta, *c0))), e6 = peq(*pmul(*gpow(*c1), *ppow(*K, *v1)), *pmul(*b1, *ppow(*beta, *c1)));
    MUST(ok == (e1 && e2 && e3 && e4 && e5 && e6), "the verdict is the conjunction of the verification equations");
    eg_reach(ok ? 1 : 2);
}
