// C14: an encrypted ballot covers exactly the contests of its style.  C17: ballot codes chain.
#include "mk.hpp"
#include <electionguard/ballot_code.hpp>
#include <stdexcept>
using namespace electionguard;
static const vector<ContestSpec> CS = {{"c0", "geo-0", 0, 2, 1}, {"c1", "geo-1", 1, 1, 1}, {"c2", "geo-0", 2, 1, 1}, {"c3", "geo-2", 3, 1, 1}};
static const vector<StyleSpec> SS = {{"style-a", {"geo-0"}}, {"style-b", {"geo-1", "geo-2"}}, {"style-c", {"geo-0", "geo-1", "geo-2"}}};
static bool inStyle(const ContestSpec &c, const StyleSpec &s) { for (auto &g : s.geo) if (g == c.district) return true; return false; }
static unique_ptr<PlaintextBallot> ballotFor(const string &id, uint32_t style, vector<int> &has, vector<vector<uint64_t>> &votes, bool reverse)
{
    UV<PlaintextBallotContest> pcs;
    for (size_t i = 0; i < CS.size(); i++) {
        has[i] = eg_choice(2, "contest_on_ballot");
        votes[i].assign(CS[i].nsel, 0);
        if (!has[i]) continue;
        UV<PlaintextBallotSelection> ps;
        for (uint64_t j = 0; j < CS[i].nsel; j++) {
            if (j == 0) { eg_sym(&votes[i][j], 8, "vote"); eg_assume(votes[i][j] <= 1); }
            ps.push_back(make_unique<PlaintextBallotSelection>(selId(CS[i].id, j), votes[i][j], false, ""));
        }
        auto pc = make_unique<PlaintextBallotContest>(CS[i].id, std::move(ps));
        if (reverse) pcs.insert(pcs.begin(), std::move(pc)); else pcs.push_back(std::move(pc));
    }
    return make_unique<PlaintextBallot>(id, SS[style].id, std::move(pcs));
}
ENTRY(h_ballot)
{
    auto e = mkElection(mkManifest(CS, SS));
    uint32_t st = eg_choice(3, "style");
    vector<int> has(CS.size()); vector<vector<uint64_t>> votes(CS.size());
    auto b = ballotFor("ballot-1", st, has, votes, eg_choice(2, "order"));
    auto nonce = qvar("ballot_nonce"), codeSeed = qvar("code_seed");
    uint64_t ts; eg_sym(&ts, 8, "timestamp"); eg_assume(ts != 0 && ts < 10); // decimal rendering of one digit
    bool verify = eg_choice(2, "verify");
    auto c = encryptBallot(*b, *e.internal, *e.context, *codeSeed, dup(nonce), ts, verify);
    MUST(c->getObjectId() == "ballot-1" && c->getStyleId() == SS[st].id, "the encrypted ballot keeps the id and style");
    MUST(qeq(*c->getManifestHash(), *e.internal->getManifestHash()), "the encrypted ballot carries the manifest hash");
    MUST(c->getTimestamp() == ts, "the timestamp is kept");
    MUST(qeq(*c->getNonce(), *nonce) && qeq(*c->getBallotCodeSeed(), *codeSeed), "the nonce and the code seed are kept");
    auto cs = c->getContests();
    size_t k = 0;
    vector<ElementModQ *> nonces;
    for (size_t i = 0; i < CS.size(); i++) {
        if (!inStyle(CS[i], SS[st])) continue;
        MUST(k < cs.size() && cs[k].get().getObjectId() == CS[i].id, "exactly the contests of the ballot style are encrypted, in order");
        auto sel = cs[k].get().getSelections();
        MUST(sel.size() == CS[i].nsel + CS[i].elected, "every selection and placeholder of the contest is encrypted");
        uint64_t tot = 0;
        for (uint64_t j = 0; j < sel.size(); j++) {
            uint64_t m = j < CS[i].nsel ? (has[i] ? votes[i][j] : 0) : 1 - tot;
            tot += m;
            MUST(decryptsTo(*sel[j].get().getCiphertext(), *e.secret, m), "each contest holds the voter's votes; a contest left out is a full undervote");
            nonces.push_back(sel[j].get().getNonce());
        }
        k++;
    }
    MUST(k == cs.size(), "no contest outside the ballot style is encrypted");
    for (size_t i = 0; i < nonces.size(); i++) for (size_t j = 0; j < i; j++) MUST(!qeq(*nonces[i], *nonces[j]), "no two selections of a ballot share a nonce");
    MUST(c->isValidEncryption(*e.internal->getManifestHash(), *e.key, *e.context->getCryptoExtendedBaseHash()), "the encrypted ballot verifies");
    auto code = BallotCode::getBallotCode(*codeSeed, ts, *c->getCryptoHash());
    MUST(qeq(*code, *c->getBallotCode()), "the ballot code is derived from seed, timestamp and ballot hash");
    eg_reach(1 + st);
}
ENTRY(h_unknown_style)
{
    auto e = mkElection(mkManifest(CS, SS));
    char id[2]; eg_sym(id, 1, "style"); id[1] = 0; eg_assume(id[0]);
    PlaintextBallot b("ballot", string(id, 1), UV<PlaintextBallotContest>());
    bool threw = false;
    auto seed = qvar("seed");
    try { encryptBallot(b, *e.internal, *e.context, *seed, qvar("nonce"), 7, eg_choice(2, "verify")); } catch (const std::exception &) { threw = true; }
    MUST(threw, "a ballot of an unknown style is refused");
    eg_reach(1);
}
ENTRY(h_unknown_style_compact)
{
    auto e = mkElection(mkManifest(CS, SS));
    PlaintextBallot b("ballot", "nope", UV<PlaintextBallotContest>());
    bool threw = false;
    auto seed = qvar("seed");
    try { encryptCompactBallot(b, *e.internal, *e.context, *seed, qvar("nonce"), 7, true); } catch (const std::exception &) { threw = true; }
    MUST(threw, "a compact ballot of an unknown style is refused");
    eg_reach(1);
}
// different ballots never share nonces even if ids or nonces coincide partially; the same inputs give the same ciphertexts
ENTRY(h_nonces)
{
    vector<ContestSpec> cs = {{"c0", "geo-0", 0, 1, 1}};
    vector<StyleSpec> ss = {{"style-a", {"geo-0"}}};
    auto e = mkElection(mkManifest(cs, ss));
    auto mk = [&](const string &id) { return make_unique<PlaintextBallot>(id, "style-a", UV<PlaintextBallotContest>()); };
    auto n1 = qvar("n1"), n2 = qvar("n2"), seed = qvar("seed");
    char i1[2] = {0}, i2[2] = {0}; eg_sym(i1, 1, "id1"); eg_sym(i2, 1, "id2"); eg_assume(i1[0] && i2[0]);
    bool sameNonce = eg_choice(2, "same_nonce");
    auto b1 = mk(i1), b2 = mk(i2);
    auto c1 = encryptBallot(*b1, *e.internal, *e.context, *seed, dup(n1), 7, false);
    auto c2 = encryptBallot(*b2, *e.internal, *e.context, *seed, dup(sameNonce ? n1 : n2), 7, false);
    bool same = i1[0] == i2[0] && sameNonce;
    auto s1 = c1->getContests()[0].get().getSelections(), s2 = c2->getContests()[0].get().getSelections();
    for (auto &a : s1) for (auto &b : s2)
        MUST(qeq(*a.get().getNonce(), *b.get().getNonce()) == (same && a.get().getSequenceOrder() == b.get().getSequenceOrder()), "selection nonces coincide only for the same ballot id, ballot nonce and selection");
    MUST(qeq(*c1->getCryptoHash(), *c2->getCryptoHash()) == same, "the same inputs give the same ballot hash, different ones another");
    MUST(qeq(*c1->getBallotCode(), *c2->getBallotCode()) == same, "ballot codes differ between ballots");
    eg_reach(same ? 1 : 2);
    // without a nonce a fresh one is drawn for every ballot
    auto c3 = encryptBallot(*b1, *e.internal, *e.context, *seed, nullptr, 7, false);
    auto c4 = encryptBallot(*b1, *e.internal, *e.context, *seed, nullptr, 7, false);
    MUST(!qeq(*c3->getNonce(), *c4->getNonce()) && !qeq(*c3->getNonce(), *n1), "a fresh ballot nonce is drawn when none is given");
    MUST(!qeq(*c3->getContests()[0].get().getSelections()[0].get().getNonce(), *c4->getContests()[0].get().getSelections()[0].get().getNonce()), "and the selection nonces depend on it");
}
// C17
ENTRY(h_mediator)
{
    vector<ContestSpec> cs = {{"c0", "geo-0", 0, 1, 1}};
    vector<StyleSpec> ss = {{"style-a", {"geo-0"}}};
    auto e = mkElection(mkManifest(cs, ss));
    uint64_t dv[3] = {11, 12, 13};
    EncryptionDevice dev(dv[0], dv[1], dv[2], "here");
    EncryptionMediator med(*e.internal, *e.context, dev);
    EQ prev = BallotCode::getHashForDevice(dv[0], dv[1], dv[2], "here");
    MUST(qeq(*prev, *dev.getHash()), "the device hash covers the device identifiers");
    uint64_t n = eg_def("n", 3);
    EQ first = dup(prev);
    vector<EQ> nonces;
    for (uint64_t i = 0; i < n; i++) {
        PlaintextBallot b(string("ballot-") + (char)('0' + i), "style-a", UV<PlaintextBallotContest>());
        uint32_t kind = eg_choice(3, "operation");
        if (kind == 2) { // a failed encryption leaves the chain alone
            PlaintextBallot bad("bad", "nope", UV<PlaintextBallotContest>());
            bool threw = false;
            try { med.encrypt(bad, false); } catch (const std::exception &) { threw = true; }
            MUST(threw, "a ballot of an unknown style is refused");
            eg_reach(3);
        } else if (kind == 0) {
            auto c = med.encrypt(b, eg_def("verify", 0));
            MUST(qeq(*c->getBallotCodeSeed(), *prev), "each ballot is chained to the code of the one before");
            MUST(qeq(*c->getBallotCode(), *BallotCode::getBallotCode(*prev, c->getTimestamp(), *c->getCryptoHash())), "the code is derived from the chain");
            prev = make_unique<ElementModQ>(*c->getBallotCode());
            for (auto &x : nonces) MUST(!qeq(*x, *c->getNonce()), "every ballot draws its own nonce");
            nonces.push_back(make_unique<ElementModQ>(*c->getNonce()));
            eg_reach(1);
        } else {
            auto c = med.compactEncrypt(b, eg_def("verify", 0));
            MUST(qeq(*c->getBallotCodeSeed(), *prev), "each compact ballot is chained to the code of the one before");
            prev = make_unique<ElementModQ>(*c->getBallotCode());
            for (auto &x : nonces) MUST(!qeq(*x, *c->getNonce()), "every ballot draws its own nonce");
            nonces.push_back(make_unique<ElementModQ>(*c->getNonce()));
            eg_reach(2);
        }
    }
}
ENTRY(h_device_hash)
{
    uint64_t a[3] = {11, 12, 13}, b[3] = {11, 12, 13};
    uint32_t w = eg_choice(3, "field"); a[w] = symFar("a", eg_def("limit", 200)); b[w] = symFar("b", eg_def("limit", 200));
    char la[2] = {0}, lb[2] = {0}; eg_sym(la, 1, "la"); eg_sym(lb, 1, "lb"); eg_assume(la[0] && lb[0] && la[0] != '|' && lb[0] != '|');
    bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && la[0] == lb[0];
    EncryptionDevice d1(a[0], a[1], a[2], la), d2(b[0], b[1], b[2], lb);
    MUST(d1.getDeviceUuid() == a[0] && d1.getSessionUuid() == a[1] && d1.getLaunchCode() == a[2] && d1.getLocation() == la, "the device reports its identifiers");
    MUST(qeq(*d1.getHash(), *d2.getHash()) == same, "device hashes agree only for the same device, session, launch code and location");
    eg_reach(same ? 1 : 2);
}
ENTRY(h_code_binding)
{
    auto s1 = qvar("s1"), s2 = qvar("s2"), h1 = qvar("h1"), h2 = qvar("h2");
    uint64_t t1 = symFar("t1", eg_def("limit", 200)), t2 = symFar("t2", eg_def("limit", 200));
    bool ds = eg_choice(2, "seed"), dh = eg_choice(2, "hash");
    bool same = !ds && !dh && t1 == t2;
    auto a = BallotCode::getBallotCode(*s1, t1, *h1), b = BallotCode::getBallotCode(*(ds ? s2 : s1), t2, *(dh ? h2 : h1));
    MUST(qeq(*a, *b) == same, "ballot codes agree only for the same seed, timestamp and ballot hash");
    eg_reach(same ? 1 : 2);
}
// a mediator is refused when the context was made for another manifest
ENTRY(h_mediator_mismatch)
{
    vector<StyleSpec> ss = {{"style-a", {"geo-0"}}};
    auto e = mkElection(mkManifest({{"c0", "geo-0", 0, 1, 1}}, ss));
    auto ctx = CiphertextElectionContext::make(3, 2, dup(e.key), qvar("h"), qvar("other_manifest"));
    EncryptionDevice dev(1, 2, 3, "here");
    bool threw = false;
    try { EncryptionMediator med(*e.internal, *ctx, dev); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "a mediator refuses a context that was made for another manifest");
    eg_reach(1);
}
