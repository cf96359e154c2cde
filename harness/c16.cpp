// C16: the crypto hashes of ciphertexts, selections, contests and ballots.  C21: the election context.
#include "spec.hpp"
#include <stdexcept>
using namespace electionguard;
static unique_ptr<ElGamalCiphertext> ct(const char *n) { return make_unique<ElGamalCiphertext>(pvar((string(n) + ".a").c_str()), pvar((string(n) + ".b").c_str())); }
static EQ ctHash(const ElGamalCiphertext &c) { return HL({c.getPad()->toHex(), c.getData()->toHex()}); }
static unique_ptr<CiphertextBallotSelection> sel3(const string &id, uint64_t seq, EQ hash, const ElGamalCiphertext &c, EQ nonce) { return make_unique<CiphertextBallotSelection>(id, seq, *qvar("dh"), make_unique<ElGamalCiphertext>(c), false, std::move(nonce), std::move(hash), nullptr, nullptr); }
static unique_ptr<CiphertextBallotSelection> sel(const string &id, uint64_t seq, EQ hash, const char *n) { return make_unique<CiphertextBallotSelection>(id, seq, *qvar("dh"), ct(n), false, qvar(n), std::move(hash), nullptr, nullptr); }
// selections: every way of making one gives the hash of the specification, and so does recomputing it
ENTRY(h_selection)
{
    string id = symText("id", 1 + eg_choice(2, "length")); auto dh = qvar("dh"), n = qvar("n"), base = qvar("base"), other = qvar("other"); auto key = gpow(*qvar("s"));
    uint64_t m = eg_choice(2, "vote"); bool ph = eg_choice(2, "placeholder");
    uint64_t seq; eg_sym(&seq, 8, "seq");
    auto x = elgamalEncrypt(m, *n, *key);
    MUST(qeq(*x->crypto_hash(), *ctHash(*x)), "the hash of a ciphertext is the hash of its pad and data");
    auto want = HL({id, dh->toHex(), ctHash(*x)->toHex()}); auto given = qvar("given"); bool has = eg_choice(2, "given");
    unique_ptr<CiphertextBallotSelection> s; auto h = has ? dup(given) : nullptr;
    switch (eg_choice(4, "way")) {
    case 0: s = CiphertextBallotSelection::make(id, seq, *dh, make_unique<ElGamalCiphertext>(*x), *key, *base, m, ph, true, dup(n), std::move(h)); break;
    case 1: s = CiphertextBallotSelection::make(id, seq, *dh, make_unique<ElGamalCiphertext>(*x), *key, *base, m, ph, false, nullptr, std::move(h)); break;
    case 2: s = CiphertextBallotSelection::make(id, seq, *dh, make_unique<ElGamalCiphertext>(*x), *key, *base, *qvar("ps"), m, ph, dup(n), std::move(h)); break;
    case 3: s = CiphertextBallotSelection::make(id, seq, *dh, make_unique<ElGamalCiphertext>(*x), *key, *base, *qvar("ps"), m, ph, nullptr, std::move(h)); break;
    }
    MUST(qeq(*s->getCryptoHash(), has ? *given : *want), "the hash of a selection covers its id, description hash and ciphertext");
    MUST(qeq(*s->crypto_hash_with(*dh), *want), "recomputing the hash of a selection gives the same");
    MUST(qeq(*static_cast<const CiphertextBallotSelection &>(*s).crypto_hash_with(*other), *HL({id, other->toHex(), ctHash(*x)->toHex()})), "and covers the seed it is recomputed with");
    MUST(s->getObjectId() == id && s->getSequenceOrder() == seq && s->getIsPlaceholder() == ph && qeq(*s->getDescriptionHash(), *dh) && peq(*s->getCiphertext()->getPad(), *x->getPad()) && peq(*s->getCiphertext()->getData(), *x->getData()), "a selection keeps what it was made from");
    eg_reach(1);
}
static const uint32_t ORD[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
// contests: in sequence order, whatever the order in which the selections were supplied
ENTRY(h_contest)
{
    uint32_t n = 1 + eg_choice(3, "selections"), o = eg_choice(n == 1 ? 1 : n == 2 ? 2 : 6, "order");
    if (n == 2) o = o ? 2 : 0;
    static const char *nm[] = {"x0", "x1", "x2"}, *hn[] = {"h0", "h1", "h2"};
    string id = symText("id"); auto dh = qvar("dh"), base = qvar("base"), other = qvar("other"); auto key = gpow(*qvar("s"));
    EQ h[3]; uint64_t seq[3]; EP pad, data; EQ agg = qconst(0); uint8_t step[3]; eg_sym_bytes(step, n, "step");
    vector<string> parts; unique_ptr<ElGamalCiphertext> x[3]; EQ r[3];
    for (uint32_t i = 0; i < n; i++) {
        h[i] = qvar(hn[i]); r[i] = qvar(nm[i]); x[i] = ct(nm[i]); seq[i] = (i ? seq[i - 1] : 0) + 1 + step[i]; parts.push_back(h[i]->toHex());
        pad = i ? pmul(*pad, *x[i]->getPad()) : make_unique<ElementModP>(*x[i]->getPad()); data = i ? pmul(*data, *x[i]->getData()) : make_unique<ElementModP>(*x[i]->getData()); agg = qadd(*agg, *r[i]);
    }
    UV<CiphertextBallotSelection> v;
    for (uint32_t k = 0; k < n; k++) { uint32_t i = ORD[o][k]; v.push_back(sel3(string("s") + (char)('0' + i), seq[i], dup(h[i]), *x[i], dup(r[i]))); }
    auto spec = [&](const EQ &d) { vector<string> w = {id, d->toHex()}; for (auto &p : parts) w.push_back(p); return HL(w); };
    bool direct = eg_choice(2, "constructed");
    auto c = direct ? make_unique<CiphertextBallotContest>(id, 5, *dh, std::move(v), qvar("cn"), ct("acc"), qvar("given"), nullptr, nullptr)
                    : CiphertextBallotContest::make(id, 5, *dh, std::move(v), *key, *base, *qvar("ps"), 1, qvar("cn"));
    if (!direct) {
        MUST(qeq(*c->getCryptoHash(), *spec(dh)), "the hash of a contest covers its id, description hash and selections in sequence order");
        MUST(peq(*c->getCiphertextAccumulation()->getPad(), *pad) && peq(*c->getCiphertextAccumulation()->getData(), *data), "the accumulation of a contest is the product of its selections");
    }
    MUST(qeq(*c->crypto_hash_with(*dh), *spec(dh)) && qeq(*c->crypto_hash_with(*other), *spec(other)), "recomputing the hash of a contest gives the same, for the seed given");
    auto acc = c->elgamalAccumulate();
    MUST(peq(*acc->getPad(), *pad) && peq(*acc->getData(), *data), "accumulating multiplies the selections");
    MUST(qeq(*c->aggregateNonce(), *agg), "the aggregate nonce is the sum of the nonces");
    auto s = c->getSelections(); MUST(s.size() == n, "all selections are kept");
    for (uint32_t i = 0; i < n; i++) MUST(s[i].get().getSequenceOrder() == seq[i] && qeq(*s[i].get().getCryptoHash(), *h[i]), "selections are listed in sequence order");
    eg_reach(1);
}
ENTRY(h_ballot)
{
    uint32_t n = 1 + eg_choice(3, "contests"), o = eg_choice(n == 1 ? 1 : n == 2 ? 2 : 6, "order");
    if (n == 2) o = o ? 2 : 0;
    static const char *hn[] = {"h0", "h1", "h2"};
    string id = symText("id"), style = symText("style"); auto mh = qvar("mh"), other = qvar("other");
    EQ h[3]; uint64_t seq[3]; uint8_t step[3]; eg_sym_bytes(step, n, "step"); vector<string> parts;
    for (uint32_t i = 0; i < n; i++) { h[i] = qvar(hn[i]); seq[i] = (i ? seq[i - 1] : 0) + 1 + step[i]; parts.push_back(h[i]->toHex()); }
    UV<CiphertextBallotContest> v;
    for (uint32_t k = 0; k < n; k++) { uint32_t i = ORD[o][k]; UV<CiphertextBallotSelection> w; w.push_back(sel("s", 1, qvar("hs"), "x")); v.push_back(make_unique<CiphertextBallotContest>(string("c") + (char)('0' + i), seq[i], *qvar("dh"), std::move(w), nullptr, ct("acc"), dup(h[i]), nullptr, nullptr)); }
    auto spec = [&](const EQ &d) { vector<string> w = {id, d->toHex()}; for (auto &p : parts) w.push_back(p); return HL(w); };
    uint64_t t = symFar("time", eg_def("limit", 200)); bool hasSeed = eg_choice(2, "seed"), hasCode = eg_choice(2, "code"); auto seed = qvar("seed"), code = qvar("code"), nonce = qvar("nonce");
    eg_assume(t != 0);
    auto b = CiphertextBallot::make(id, style, *mh, std::move(v), dup(nonce), t, hasSeed ? dup(seed) : nullptr, hasCode ? dup(code) : nullptr);
    MUST(qeq(*b->getCryptoHash(), *spec(mh)), "the hash of a ballot covers its id, manifest hash and contests in sequence order");
    MUST(qeq(*b->crypto_hash_with(*mh), *spec(mh)) && qeq(*b->crypto_hash_with(*other), *spec(other)), "recomputing the hash of a ballot gives the same, for the manifest given");
    const EQ &sd = hasSeed ? seed : mh;
    MUST(qeq(*b->getBallotCodeSeed(), *sd), "the code seed is the one given, or the manifest hash");
    MUST(qeq(*b->getBallotCode(), hasCode ? *code : *HL({sd->toHex(), dec(t), spec(mh)->toHex()})), "the ballot code is the one given, or covers seed, time and ballot hash");
    MUST(b->getTimestamp() == t && b->getObjectId() == id && b->getStyleId() == style && qeq(*b->getManifestHash(), *mh) && qeq(*b->getNonce(), *nonce), "a ballot keeps what it was made from");
    MUST(qeq(*CiphertextBallot::nonceSeed(*mh, id, *nonce), *HL({mh->toHex(), id, nonce->toHex()})), "the nonce seed covers the manifest hash, ballot id and nonce");
    auto s = b->getContests(); MUST(s.size() == n, "all contests are kept");
    for (uint32_t i = 0; i < n; i++) MUST(s[i].get().getSequenceOrder() == seq[i] && qeq(*s[i].get().getCryptoHash(), *h[i]), "contests are listed in sequence order");
    eg_reach(1);
}
// objects that differ in one part have different hashes
ENTRY(h_differ)
{
    string i0 = symText("i0"), i1 = i0; auto d0 = qvar("d0"), d1 = dup(d0), a0 = qvar("a0"), a1 = dup(a0), b0 = qvar("b0"), b1 = dup(b0); EP p0 = pvar("p0"), p1 = dup(p0), r0 = pvar("r0"), r1 = dup(r0);
    uint32_t level = eg_choice(3, "level"), w = eg_choice(4, "what"); bool same = false;
    switch (w) {
    case 0: i1 = symText("i1"); same = i0 == i1; break;
    case 1: d1 = qvar("d1"); same = qeq(*d0, *d1); break;
    case 2: if (level) { a1 = qvar("a1"); same = qeq(*a0, *a1); } else { p1 = pvar("p1"); same = peq(*p0, *p1); } break;
    case 3: if (level) { b1 = qvar("b1"); same = qeq(*b0, *b1); } else { r1 = pvar("r1"); same = peq(*r0, *r1); } break;
    }
    EQ x, y;
    auto contest = [&](const string &i, const EQ &d, const EQ &a, const EQ &b) { UV<CiphertextBallotSelection> v; v.push_back(sel("s", 1, dup(a), "x")); v.push_back(sel("t", 2, dup(b), "x")); return make_unique<CiphertextBallotContest>(i, 5, *d, std::move(v), nullptr, ct("acc"), qvar("given"), nullptr, nullptr)->crypto_hash_with(*d); };
    auto ballot = [&](const string &i, const EQ &d, const EQ &a, const EQ &b) {
        UV<CiphertextBallotContest> cs; for (int k = 0; k < 2; k++) { UV<CiphertextBallotSelection> v; v.push_back(sel("s", 1, qvar("hs"), "x")); cs.push_back(make_unique<CiphertextBallotContest>(k ? "d" : "c", k, *qvar("dh"), std::move(v), nullptr, ct("acc"), dup(k ? b : a), nullptr, nullptr)); }
        auto r = CiphertextBallot::make(i, "st", *d, std::move(cs), nullptr, 1); return make_unique<ElementModQ>(*r->getCryptoHash()); };
    if (level == 0) { x = make_unique<CiphertextBallotSelection>(i0, 1, *d0, make_unique<ElGamalCiphertext>(std::move(p0), std::move(r0)), false, nullptr, nullptr, nullptr)->crypto_hash_with(*d0);
                      y = make_unique<CiphertextBallotSelection>(i1, 1, *d1, make_unique<ElGamalCiphertext>(std::move(p1), std::move(r1)), false, nullptr, nullptr, nullptr)->crypto_hash_with(*d1); }
    else if (level == 1) { x = contest(i0, d0, a0, b0); y = contest(i1, d1, a1, b1); }
    else { x = ballot(i0, d0, a0, b0); y = ballot(i1, d1, a1, b1); }
    MUST(qeq(*x, *y) == same, "objects have the same hash exactly if their parts are the same");
    eg_reach(same ? 1 : 2);
}
ENTRY(h_empty)
{
    bool threw = false;
    if (eg_choice(2, "ballot")) { try { CiphertextBallot::make("b", "s", *qvar("m"), UV<CiphertextBallotContest>()); } catch (const std::invalid_argument &) { threw = true; } }
    else { try { CiphertextBallotContest::make("c", 1, *qvar("d"), UV<CiphertextBallotSelection>(), *gpow(*qvar("s")), *qvar("b"), *qvar("ps"), 1); } catch (const std::invalid_argument &) { threw = true; } }
    MUST(threw, "ballots without contests and contests without selections are refused");
    eg_reach(1);
}
// ---- C21
static unique_ptr<CiphertextElectionContext> context(uint32_t way, uint64_t n, uint64_t k, const EP &key, const EQ &commit, const EQ &mh, bool over, uint64_t max, const std::unordered_map<string, string> &ext)
{
    auto conf = [&]() { return make_unique<ContextConfiguration>(over, max); };
    using C = CiphertextElectionContext;
    switch (way) {
    case 0: return C::make(n, k, dup(key), dup(commit), dup(mh));
    case 1: return C::make(n, k, dup(key), dup(commit), dup(mh), conf());
    case 2: return C::make(n, k, dup(key), dup(commit), dup(mh), ext);
    case 3: return C::make(n, k, dup(key), dup(commit), dup(mh), conf(), ext);
    case 4: return C::make(n, k, key->toHex(), commit->toHex(), mh->toHex());
    case 5: return C::make(n, k, key->toHex(), commit->toHex(), mh->toHex(), conf());
    case 6: return C::make(n, k, key->toHex(), commit->toHex(), mh->toHex(), ext);
    default: return C::make(n, k, key->toHex(), commit->toHex(), mh->toHex(), conf(), ext);
    }
}
ENTRY(h_context)
{
    uint32_t way = eg_choice(8, "way"); uint64_t n = symFar("n", eg_def("limit", 100)), k = eg_choice(3, "k") * 50;
    auto key = gpow(*qvar("s")); auto commit = qvar("commit"), mh = qvar("mh"); bool over = eg_choice(2, "overvotes"); uint64_t max; eg_sym(&max, 8, "max");
    std::unordered_map<string, string> ext = {{"k1", symText("v1")}, {"k2", ""}};
    auto c = context(way, n, k, key, commit, mh, over, max, ext);
    auto base = HL({P().toHex(), Q().toHex(), G().toHex(), num(n), num(k), mh->toHex()});
    MUST(qeq(*c->getCryptoBaseHash(), *base), "the base hash covers p, q, g, guardians, quorum and manifest hash");
    MUST(qeq(*c->getCryptoExtendedBaseHash(), *HL({base->toHex(), commit->toHex()})), "the extended base hash covers the base hash and the commitments");
    MUST(c->getNumberOfGuardians() == n && c->getQuorum() == k && peq(*c->getElGamalPublicKey(), *key) && qeq(*c->getCommitmentHash(), *commit) && qeq(*c->getManifestHash(), *mh), "a context keeps what it was made from");
    MUST(c->getElGamalPublicKey()->isFixedBase(), "the key of a context is a fixed base");
    bool conf = way & 1, e = way & 2;
    MUST(c->getConfiguration() != nullptr, "a context has a configuration");
    MUST(c->getConfiguration()->getAllowOverVotes() == (conf ? over : true) && c->getConfiguration()->getMaxNumberOfBallots() == (conf ? max : DEFAULT_MAX_BALLOTS), "the configuration is the one given, or the default");
    MUST(c->getExtendedData() == (e ? ext : std::unordered_map<string, string>()), "the extended data is kept");
    eg_reach(1);
}
ENTRY(h_context_differ)
{
    uint32_t w = eg_choice(5, "what"), way = eg_choice(2, "way") * 3; uint64_t n0 = 5, n1 = 5, k0 = 3, k1 = 3; EQ c0 = qvar("c0"), c1 = dup(c0), m0 = qvar("m0"), m1 = dup(m0); EP e0 = gpow(*qvar("s0")), e1 = dup(e0);
    bool same = true, sameExt = true; uint64_t lim = eg_def("limit", 200);
    switch (w) {
    case 0: n0 = symFar("n0", lim); n1 = symFar("n1", lim); same = sameExt = n0 == n1; break;
    case 1: k0 = symFar("k0", lim); k1 = symFar("k1", lim); same = sameExt = k0 == k1; break;
    case 2: c1 = qvar("c1"); sameExt = qeq(*c0, *c1); break;
    case 3: m1 = qvar("m1"); same = sameExt = qeq(*m0, *m1); break;
    case 4: n0 = k1 = symFar("n0", lim); n1 = k0 = symFar("n1", lim); same = sameExt = n0 == n1; break;
    }
    auto x = context(way, n0, k0, e0, c0, m0, true, 5, {}), y = context(way, n1, k1, e1, c1, m1, true, 5, {});
    MUST(qeq(*x->getCryptoBaseHash(), *y->getCryptoBaseHash()) == same, "base hashes are the same exactly if guardians, quorum and manifest are");
    MUST(qeq(*x->getCryptoExtendedBaseHash(), *y->getCryptoExtendedBaseHash()) == sameExt, "extended base hashes are the same exactly if the commitments are too");
    eg_reach(sameExt ? 1 : 2);
}
