// C11: constant Chaum-Pedersen proofs
#include "sym.hpp"
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/precompute_buffers.hpp>
using namespace electionguard;
using std::make_unique;
using std::unique_ptr;
static unique_ptr<ElGamalCiphertext> enc(const ElementModP &K, const ElementModQ &r, const ElementModQ &m)
{
    return make_unique<ElGamalCiphertext>(gpow(r), pmul(*ppow(K, r), *gpow(m)));
}
ENTRY(h_complete)
{
    auto s = qvar("secret"), r = qvar("nonce"), q = qvar("base_hash"), seed = qvar("seed");
    auto K = gpow(*s);
    static const uint64_t Ls[] = {0, 1, 2, 3, 10, 0xffffffffULL, 0x100000000ULL, 0xffffffffffffffffULL};
    uint64_t L = Ls[eg_choice(8, "constant")];
    auto c = enc(*K, *r, *qconst(L));
    uint32_t how = eg_choice(2, "precomputed");
    if (how) { PrecomputeBufferContext::init(1); PrecomputeBufferContext::populate(*K); }
    auto p = ConstantChaumPedersenProof::make(*c, *r, *K, *seed, *q, L);
    if (how) PrecomputeBufferContext::empty_queues();
    MUST(p->getConstant() == L, "the proof records the constant");
    MUST(p->isValid(*c, *K, *q), "an honestly made proof verifies");
    auto other = qvar("other");
    MUST(!p->isValid(*c, *gpow(*other), *q), "the proof does not verify under another key");
    MUST(!p->isValid(*c, *K, *other), "the proof does not verify under another base hash");
    ElGamalCiphertext c2(gpow(*other), make_unique<ElementModP>(*c->getData()));
    MUST(!p->isValid(c2, *K, *q), "the proof does not verify for another pad");
    ElGamalCiphertext c3(make_unique<ElementModP>(*c->getPad()), gpow(*other));
    MUST(!p->isValid(c3, *K, *q), "the proof does not verify for other data");
    auto L2 = L == 0 ? 1 : L - 1;
    ConstantChaumPedersenProof p2(make_unique<ElementModP>(*p->getPad()), make_unique<ElementModP>(*p->getData()), make_unique<ElementModQ>(*p->getChallenge()), make_unique<ElementModQ>(*p->getResponse()), L2);
    MUST(!p2.isValid(*c, *K, *q), "the proof does not verify for another constant");
    eg_reach(1 + how);
}
// an honestly executed proof about a ciphertext of a different total does not verify
ENTRY(h_wrong_total)
{
    auto s = qvar("secret"), r = qvar("nonce"), q = qvar("base_hash"), seed = qvar("seed"), m = qvar("total");
    auto K = gpow(*s);
    uint64_t L = eg_choice(4, "constant");
    auto c = enc(*K, *r, *m);
    auto p = ConstantChaumPedersenProof::make(*c, *r, *K, *seed, *q, L);
    MUST(!p->isValid(*c, *K, *q), "a proof that a ciphertext holds the constant does not verify when it holds another total");
    eg_reach(1);
}
ENTRY(h_sound)
{
    enum { NONE, A, B, C_HASH, V, NR_ALPHA, NR_BETA, NR_A, NR_B, V_RANGE, C_RANGE, HEADER, H_ALPHA, H_BETA, H_A, H_B, KINDS };
    uint32_t k = eg_choice(KINDS, "broken");
    uint64_t L = eg_choice(4, "constant");
    auto s = qvar("secret"), q = qvar("base_hash"), d = qvar("d");
    // out-of-range response: with nonce 0 the response equals the commitment 5, written as q+5
    auto r = k == V_RANGE ? qconst(0) : qvar("nonce"), u = k == V_RANGE ? qconst(5) : qvar("u");
    auto K = gpow(*s);
    auto fix = [&](EP e, bool bad) -> EP { if (!bad) return e; PL64 t; eg_t_pvar_nr(t, "outside", 1); return pmul(*e, *mkP(t)); };
    EQ a_e = dup(u), b_e = qmul(*s, *u);
    if (k == A) a_e = qadd(*a_e, *d);
    if (k == B) b_e = qadd(*b_e, *d);
    EQ c, v;
    auto alpha = fix(gpow(*r), k == NR_ALPHA), beta = fix(gpow(*qadd(*qmul(*s, *r), *qconst(L))), k == NR_BETA);
    EP a = fix(gpow(*a_e), k == NR_A), b = fix(gpow(*b_e), k == NR_B);
    auto H = [&](std::vector<CryptoHashableType> l) { return hash_elems(l); };
    if (k == HEADER) c = H({alpha.get(), beta.get(), a.get(), b.get()});
    else if (k == H_ALPHA) c = H({q.get(), beta.get(), a.get(), b.get()});
    else if (k == H_BETA) c = H({q.get(), alpha.get(), a.get(), b.get()});
    else if (k == H_A) c = H({q.get(), alpha.get(), beta.get(), b.get()});
    else if (k == H_B) c = H({q.get(), alpha.get(), beta.get(), a.get()});
    else c = H({q.get(), alpha.get(), beta.get(), a.get(), b.get()});
    if (k == C_HASH) c = qadd(*c, *d);
    v = qadd(*u, *qmul(*c, *r));
    if (k == V) v = qadd(*v, *d);
    if (k == V_RANGE) { u256 w = fromLimbs<256>(Q_ARRAY_REVERSE) + 5; QL4 l; memcpy(l, &w, 32); v = mkQ(l); }
    if (k == C_RANGE) { u256 w = fromLimbs<256>(Q_ARRAY_REVERSE) + 7; QL4 l; memcpy(l, &w, 32); c = mkQ(l); }
    ConstantChaumPedersenProof p(dup(a), dup(b), dup(c), dup(v), L);
    ElGamalCiphertext ct(dup(alpha), dup(beta));
    bool ok = p.isValid(ct, *K, *q);
    if (k == NONE) { MUST(ok, "a proof that satisfies every equation verifies"); eg_reach(1); }
    else { MUST(!ok, "a proof that misses one equation, challenge or range condition does not verify"); eg_reach(2); }
}
ENTRY(h_exact)
{
    eg_t_atoms(1);
    auto K = pvar("K"), alpha = pvar("alpha"), beta = pvar("beta"), a = pvar("a"), b = pvar("b");
    auto q = qvar("base_hash"), c = qvar("c"), v = qvar("v");
    uint64_t L = eg_choice(3, "constant");
    ConstantChaumPedersenProof p(dup(a), dup(b), dup(c), dup(v), L);
    ElGamalCiphertext ct(dup(alpha), dup(beta));
    bool ok = p.isValid(ct, *K, *q);
    auto h = hash_elems({q.get(), alpha.get(), beta.get(), a.get(), b.get()});
    bool e1 = qeq(*c, *h), e2 = peq(*gpow(*v), *pmul(*a, *ppow(*alpha, *c))), e3 = peq(*pmul(*gpow(*qmul(*c, *qconst(L))), *ppow(*K, *v)), *pmul(*b, *ppow(*beta, *c)));
    MUST(ok == (e1 && e2 && e3), "the verdict is the conjunction of the verification equations");
    eg_reach(ok ? 1 : 2);
}
