// C08: exponential ElGamal
#include "sym.hpp"
#include <electionguard/elgamal.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <stdexcept>
#include <vector>
using namespace electionguard;
using std::make_unique;
static EQ qu64(uint64_t v) { QL4 l = {v}; return mkQ(l); }
// every plaintext: the ciphertext is (g^r, g^m K^r); 0 and 1 decrypt to themselves, nothing else decrypts to 0 or 1
ENTRY(h_encrypt)
{
    auto s = qvar("secret"), r = qvar("nonce");
    auto K = gpow(*s);
    uint64_t m; eg_sym(&m, 8, "m");
    uint32_t how = eg_choice(2, "precomputed");
    std::unique_ptr<ElGamalCiphertext> c;
    if (how) { auto a = gpow(*r), b = ppow(*K, *r); c = elgamalEncrypt_with_precomputed(m, *a, *b); }
    else c = elgamalEncrypt(m, *r, *K);
    MUST(peq(*c->getPad(), *gpow(*r)), "the pad is g^r");
    MUST(peq(*c->getData(), *pmul(*gpow(*qu64(m)), *ppow(*K, *r))), "the data is g^m K^r");
    uint64_t d = c->decrypt(*s);
    if (m <= 1) { MUST(d == m, "decrypting an encryption of 0 or 1 gives it back"); eg_reach(1); }
    else { MUST(d != 0 && d != 1, "an encryption of another number does not decrypt to 0 or 1"); eg_reach(2); }
}
// decryption with any other key, or of any other ciphertext, is not taken for 0 or 1
ENTRY(h_decrypt)
{
    auto s = qvar("secret"), r = qvar("nonce"), x = qvar("x");
    auto K = gpow(*s);
    uint64_t m = eg_choice(2, "m");
    ElGamalCiphertext c(gpow(*r), pmul(*gpow(*qconst(m)), *ppow(*K, *r)));
    MUST(c.decrypt(*s) == m, "any ciphertext of that form decrypts");
    uint64_t w = c.decrypt(*x);
    MUST(w != 0 && w != 1, "another key does not decrypt");
    ElGamalCiphertext o(gpow(*r), pmul(*gpow(*x), *ppow(*K, *r)));
    w = o.decrypt(*s);
    MUST(w != 0 && w != 1, "a ciphertext of another value does not decrypt to 0 or 1");
    eg_reach(1);
}
// homomorphic addition of n ciphertexts
ENTRY(h_add)
{
    uint32_t n = 1 + eg_choice(eg_def("n", 4), "n");
    auto s = qvar("secret");
    auto K = gpow(*s);
    std::vector<std::unique_ptr<ElGamalCiphertext>> cs; std::vector<std::reference_wrapper<ElGamalCiphertext>> refs;
    auto R = qconst(0), M = qconst(0);
    for (uint32_t i = 0; i < n; i++) {
        auto r = qvar("r"), m = qvar("m");
        cs.push_back(make_unique<ElGamalCiphertext>(gpow(*r), pmul(*gpow(*m), *ppow(*K, *r))));
        R = qadd(*R, *r); M = qadd(*M, *m);
    }
    for (auto &c : cs) refs.push_back(*c);
    auto sum = elgamalAdd(refs);
    MUST(peq(*sum->getPad(), *gpow(*R)), "the pad of the sum is g^(sum of nonces)");
    MUST(peq(*sum->getData(), *pmul(*gpow(*M), *ppow(*K, *R))), "the data of the sum encrypts the sum of the plaintexts");
    eg_reach(1);
}
ENTRY(h_reject)
{
    bool threw = false;
    auto s = qvar("secret");
    auto K = gpow(*s);
    uint64_t m; eg_sym(&m, 8, "m");
    try { elgamalEncrypt(m, *qconst(0), *K); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "encryption with nonce 0 is refused");
    threw = false;
    try { elgamalAdd(std::vector<std::reference_wrapper<ElGamalCiphertext>>{}); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "adding no ciphertexts is refused");
    eg_reach(1);
}
// key pairs: the public key is g^secret
ENTRY(h_keypair)
{
    auto s = qvar("secret");
    eg_assume(!qeq(*s, *qconst(0)) && !qeq(*s, *qconst(1)));
    auto kp = ElGamalKeyPair::fromSecret(*s, eg_choice(2, "fixed"));
    MUST(qeq(*kp->getSecretKey(), *s), "the key pair keeps the secret");
    MUST(peq(*kp->getPublicKey(), *gpow(*s)), "the public key is g^secret");
    bool t0 = false, t1 = false;
    try { ElGamalKeyPair::fromSecret(*qconst(0)); } catch (const std::invalid_argument &) { t0 = true; }
    try { ElGamalKeyPair::fromSecret(*qconst(1)); } catch (const std::invalid_argument &) { t1 = true; }
    MUST(t0 && t1, "secrets 0 and 1 are refused");
    auto k2 = ElGamalKeyPair::fromSecret(*qconst(2));
    MUST(peq(*k2->getPublicKey(), *gpow(*qconst(2))), "2 is the least accepted secret");
    eg_reach(1);
}
// the ciphertext produced with a refilled precompute buffer is an encryption under the key of the buffer
ENTRY(h_precompute)
{
    auto s = qvar("secret");
    auto K = gpow(*s);
    Triple t(*K); Quadruple q(*K);
    auto e = t.get_exp();
    MUST(peq(*t.get_g_to_exp(), *gpow(*e)) && peq(*t.get_pubkey_to_exp(), *ppow(*K, *e)), "a precomputed triple is (e, g^e, K^e)");
    auto e1 = q.get_exp1(), e2 = q.get_exp2();
    MUST(peq(*q.get_g_to_exp1(), *gpow(*e1)), "a precomputed quadruple holds g^e1");
    MUST(peq(*q.get_g_to_exp2_mult_by_pubkey_to_exp1(), *pmul(*gpow(*e2), *ppow(*K, *e1))), "a precomputed quadruple holds g^e2 K^e1");
    MUST(!qeq(*e1, *e2), "the exponents are drawn separately");
    Triple t2(*K);
    MUST(!qeq(*e, *t2.get_exp()), "every triple draws a new exponent");
    eg_reach(1);
}
