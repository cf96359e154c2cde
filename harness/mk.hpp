// Builders for small elections.
#pragma once
#include "sym.hpp"
#include <electionguard/ballot.hpp>
#include <electionguard/ballot_compact.hpp>
#include <electionguard/election.hpp>
#include <electionguard/encrypt.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/manifest.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <string>
#include <vector>
namespace eg = electionguard;
using std::make_unique;
using std::string;
using std::unique_ptr;
using std::vector;
template <class T> using UV = vector<unique_ptr<T>>;
template <class T, class... A> UV<T> uv(unique_ptr<T> a, A... rest) { UV<T> v; v.push_back(std::move(a)); (v.push_back(std::move(rest)), ...); return v; }
struct ContestSpec { string id, district; uint64_t seq, nsel, elected; uint64_t votesAllowed = 0; bool writeIn = false; };
inline string selId(const string &c, uint64_t i) { return c + "-s" + (char)('0' + i); }
inline unique_ptr<eg::ContestDescription> mkContest(const ContestSpec &c)
{
    UV<eg::SelectionDescription> sel;
    for (uint64_t i = 0; i < c.nsel; i++) sel.push_back(make_unique<eg::SelectionDescription>(selId(c.id, i), string("cand-") + (char)('0' + i), i));
    if (c.votesAllowed) {
        vector<unique_ptr<eg::Language>> t; t.push_back(make_unique<eg::Language>("title", "en"));
        vector<unique_ptr<eg::Language>> s; s.push_back(make_unique<eg::Language>("sub", "en"));
        return make_unique<eg::ContestDescription>(c.id, c.district, c.seq, eg::VoteVariationType::n_of_m, c.elected, c.votesAllowed, c.id + " name", make_unique<eg::InternationalizedText>(std::move(t)), make_unique<eg::InternationalizedText>(std::move(s)), std::move(sel));
    }
    return make_unique<eg::ContestDescription>(c.id, c.district, c.seq, eg::VoteVariationType::n_of_m, c.elected, c.id + " name", std::move(sel));
}
struct StyleSpec { string id; vector<string> geo; };
inline unique_ptr<eg::Manifest> mkManifest(const vector<ContestSpec> &cs, const vector<StyleSpec> &ss, uint64_t ncand = 4, int writeInCand = -1)
{
    UV<eg::GeopoliticalUnit> geo; UV<eg::Party> parties; UV<eg::Candidate> cands; UV<eg::ContestDescription> contests; UV<eg::BallotStyle> styles;
    for (int i = 0; i < 3; i++) geo.push_back(make_unique<eg::GeopoliticalUnit>(string("geo-") + (char)('0' + i), string("geo name ") + (char)('0' + i), eg::ReportingUnitType::county));
    parties.push_back(make_unique<eg::Party>("party-0"));
    for (uint64_t i = 0; i < ncand; i++) cands.push_back(make_unique<eg::Candidate>(string("cand-") + (char)('0' + i), (int)i == writeInCand));
    for (auto &c : cs) contests.push_back(mkContest(c));
    for (auto &s : ss) styles.push_back(make_unique<eg::BallotStyle>(s.id, s.geo));
    auto t0 = std::chrono::system_clock::from_time_t(1600000000), t1 = std::chrono::system_clock::from_time_t(1600086400);
    return make_unique<eg::Manifest>("election", eg::ElectionType::general, t0, t1, std::move(geo), std::move(parties), std::move(cands), std::move(contests), std::move(styles));
}
struct Election {
    unique_ptr<eg::Manifest> manifest;
    unique_ptr<eg::InternalManifest> internal;
    EQ secret; EP key;
    unique_ptr<eg::CiphertextElectionContext> context;
};
inline Election mkElection(unique_ptr<eg::Manifest> m)
{
    Election e;
    e.manifest = std::move(m);
    e.internal = make_unique<eg::InternalManifest>(*e.manifest);
    e.secret = qvar("secret");
    e.key = gpow(*e.secret);
    e.context = eg::CiphertextElectionContext::make(3, 2, dup(e.key), qvar("commitments"), make_unique<eg::ElementModQ>(*e.internal->getManifestHash()));
    return e;
}
// independent ElGamal decryption of 0/1 by known exponent: pad^s * g^m == data ?
inline bool decryptsTo(const eg::ElGamalCiphertext &c, const eg::ElementModQ &secret, uint64_t m)
{
    auto t = ppow(*c.getPad(), secret);
    auto gm = gpow(*qconst(m));
    t = pmul(*t, *gm);
    return peq(*t, *c.getData());
}
inline bool isEncryptionOf(const eg::ElGamalCiphertext &c, const eg::ElementModP &key, const eg::ElementModQ &r, uint64_t m)
{
    auto gm = gpow(*qconst(m));
    return peq(*gpow(r), *c.getPad()) && peq(*pmul(*ppow(key, r), *gm), *c.getData());
}
