// Everything a user can observe about an object, as text.
#pragma once
#include "mk.hpp"
struct Dump {
    string s;
    void t(const char *k, const string &v) { s += k; s += '<'; s += v; s += ">\n"; }
    static string dec(uint64_t v) { string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
    void n(const char *k, uint64_t v) { char c[8]; memcpy(c, &v, 8); t(k, string(c, 8)); }
    void q(const char *k, const eg::ElementModQ *e) { t(k, e ? string((const char *)e->get(), sizeof(QL4)) : string("none")); }
    void p(const char *k, const eg::ElementModP *e) { t(k, e ? string((const char *)e->get(), sizeof(PL64)) + (e->isFixedBase() ? "F" : "-") : string("none")); }
    void pv(const char *k, const eg::ElementModP *e) { t(k, e ? string((const char *)e->get(), sizeof(PL64)) : string("none")); }
    void b(const char *k, const vector<uint8_t> &v) { t(k, string(v.begin(), v.end())); }
    void sl(const char *k, const vector<string> &v) { n(k, v.size()); for (auto &x : v) t("-", x); }
    bool nonces = true, proofs = true;
};
inline void dump(Dump &d, const eg::ElGamalCiphertext *c) { if (!c) { d.t("ciphertext", "none"); return; } d.pv("pad", c->getPad()); d.pv("data", c->getData()); }
inline void dump(Dump &d, const eg::HashedElGamalCiphertext *c) { if (!c) { d.t("hashed", "none"); return; } d.pv("pad", c->getPad()); d.b("data", c->getData()); d.b("mac", c->getMac()); }
inline void dump(Dump &d, const eg::DisjunctiveChaumPedersenProof *x)
{
    if (!x) { d.t("proof", "none"); return; }
    d.pv("0pad", x->getProofZeroPad()); d.pv("0data", x->getProofZeroData()); d.pv("1pad", x->getProofOnePad()); d.pv("1data", x->getProofOneData());
    d.q("0c", x->getProofZeroChallenge()); d.q("1c", x->getProofOneChallenge()); d.q("c", x->getChallenge()); d.q("0r", x->getProofZeroResponse()); d.q("1r", x->getProofOneResponse());
}
inline void dump(Dump &d, const eg::ConstantChaumPedersenProof *x)
{
    if (!x) { d.t("proof", "none"); return; }
    d.pv("pad", x->getPad()); d.pv("data", x->getData()); d.q("c", x->getChallenge()); d.q("r", x->getResponse()); d.n("constant", x->getConstant());
}
inline void dump(Dump &d, const eg::PlaintextBallotSelection *x) { d.t("sel", x->getObjectId()); d.n("vote", x->getVote()); d.n("ph", x->getIsPlaceholder()); d.t("write-in", x->getWriteIn()); }
inline void dump(Dump &d, const eg::PlaintextBallotContest *x) { d.t("contest", x->getObjectId()); auto v = x->getSelections(); d.n("sels", v.size()); for (auto &s : v) dump(d, &s.get()); }
inline void dump(Dump &d, const eg::PlaintextBallot *x) { d.t("ballot", x->getObjectId()); d.t("style", x->getStyleId()); auto v = x->getContests(); d.n("contests", v.size()); for (auto &c : v) dump(d, &c.get()); }
inline void dump(Dump &d, const eg::CiphertextBallotSelection *x)
{
    d.t("sel", x->getObjectId()); d.n("seq", x->getSequenceOrder()); d.q("desc", x->getDescriptionHash()); dump(d, x->getCiphertext()); d.n("ph", x->getIsPlaceholder());
    if (d.nonces) d.q("nonce", const_cast<eg::CiphertextBallotSelection *>(x)->getNonce());
    d.q("hash", x->getCryptoHash()); if (d.proofs) dump(d, x->getProof());
}
inline void dump(Dump &d, const eg::CiphertextBallotContest *x, bool hashed = true)
{
    d.t("contest", x->getObjectId()); d.n("seq", x->getSequenceOrder()); d.q("desc", x->getDescriptionHash()); if (d.nonces) d.q("nonce", x->getNonce());
    dump(d, x->getCiphertextAccumulation()); d.q("hash", x->getCryptoHash()); if (d.proofs) dump(d, x->getProof());
    if (hashed) dump(d, x->getHashedElGamalCiphertext().get());
    auto v = x->getSelections(); d.n("sels", v.size()); for (auto &s : v) dump(d, &s.get());
}
inline void dump(Dump &d, const eg::CiphertextBallot *x, bool hashed = true)
{
    d.t("ballot", x->getObjectId()); d.t("style", x->getStyleId()); d.q("manifest", x->getManifestHash()); d.q("seed", x->getBallotCodeSeed()); d.q("code", x->getBallotCode()); d.n("time", x->getTimestamp());
    if (d.nonces) d.q("nonce", x->getNonce());
    d.q("hash", x->getCryptoHash()); auto v = x->getContests(); d.n("contests", v.size()); for (auto &c : v) dump(d, &c.get(), hashed);
}
inline void dump(Dump &d, const eg::CompactPlaintextBallot *x) { d.t("ballot", x->getObjectId()); d.t("style", x->getStyleId()); auto v = x->getSelections(); d.n("sels", v.size()); for (auto u : v) d.n("v", u); d.sl("write-ins", x->getWriteIns()); }
inline void dump(Dump &d, const eg::CompactCiphertextBallot *x)
{
    d.t("ballot", x->getObjectId()); dump(d, x->getPlaintext()); d.q("seed", x->getBallotCodeSeed()); d.q("code", x->getBallotCode()); d.q("nonce", x->getNonce()); d.n("time", x->getTimestamp()); d.n("state", (uint64_t)x->getBallotBoxState());
}
inline void dump(Dump &d, const eg::Language *x) { d.t("value", x->getValue()); d.t("lang", x->getLanguage()); }
inline void dump(Dump &d, const eg::AnnotatedString *x) { d.t("ann", x->getAnnotation()); d.t("value", x->getValue()); }
inline void dump(Dump &d, const eg::InternationalizedText *x) { if (!x) { d.t("text", "none"); return; } auto v = x->getText(); d.n("text", v.size()); for (auto &l : v) dump(d, &l.get()); }
inline void dump(Dump &d, const eg::ContactInformation *x)
{
    if (!x) { d.t("contact", "none"); return; }
    d.sl("address", x->getAddressLine()); d.t("name", x->getName()); auto e = x->getEmail(), p = x->getPhone();
    d.n("email", e.size()); for (auto &a : e) dump(d, &a.get()); d.n("phone", p.size()); for (auto &a : p) dump(d, &a.get());
}
inline void dump(Dump &d, const eg::GeopoliticalUnit *x) { d.t("unit", x->getObjectId()); d.t("name", x->getName()); d.n("type", (uint64_t)x->getType()); dump(d, x->getContactInformation()); }
inline void dump(Dump &d, const eg::BallotStyle *x) { d.t("style", x->getObjectId()); d.sl("units", x->getGeopoliticalUnitIds()); d.sl("parties", x->getPartyIds()); d.t("image", x->getImageUri()); }
inline void dump(Dump &d, const eg::Party *x) { d.t("party", x->getObjectId()); dump(d, x->getName()); d.t("abbr", x->getAbbreviation()); d.t("color", x->getColor()); d.t("logo", x->getLogoUri()); }
inline void dump(Dump &d, const eg::Candidate *x) { d.t("cand", x->getObjectId()); dump(d, x->getName()); d.t("party", x->getPartyId()); d.t("image", x->getImageUri()); d.n("writein", x->isWriteIn()); }
inline void dump(Dump &d, const eg::SelectionDescription *x) { d.t("sel", x->getObjectId()); d.t("cand", x->getCandidateId()); d.n("seq", x->getSequenceOrder()); }
inline void dump(Dump &d, const eg::ContestDescription *x)
{
    d.t("contest", x->getObjectId()); d.t("district", x->getElectoralDistrictId()); d.n("seq", x->getSequenceOrder()); d.n("type", (uint64_t)x->getVoteVariation()); d.n("elected", x->getNumberElected()); d.n("allowed", x->getVotesAllowed());
    d.t("name", x->getName()); dump(d, x->getBallotTitle()); dump(d, x->getBallotSubtitle()); auto v = x->getSelections(); d.n("sels", v.size()); for (auto &s : v) dump(d, &s.get());
}
inline void dump(Dump &d, const eg::ContestDescriptionWithPlaceholders *x) { dump(d, static_cast<const eg::ContestDescription *>(x)); auto v = x->getPlaceholders(); d.n("placeholders", v.size()); for (auto &s : v) dump(d, &s.get()); }
template <class T> string show(const T &x) { Dump d; dump(d, &x); return d.s; }

template <class T> string showNoProofs(const T &x) { Dump d; d.proofs = false; dump(d, &x); return d.s; }
