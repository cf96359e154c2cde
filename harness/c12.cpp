// C12: an encrypted contest holds exactly the voter's votes, with placeholders making up the seats.
// C13: overvotes are nullified and recorded; write-ins are recorded.
#include "mk.hpp"
#include <stdexcept>
using namespace electionguard;
struct Made { Election e; uint64_t nsel, elected; vector<uint64_t> v; vector<int> have; EQ seed; unique_ptr<CiphertextBallotContest> c; bool threw = false; };
static void checkContest(Made &M, const ContestDescriptionWithPlaceholders &d, bool over)
{
    auto &e = M.e; auto Qx = e.context->getCryptoExtendedBaseHash();
    auto sel = M.c->getSelections();
    uint64_t tot = 0; for (auto x : M.v) if (x == 1) tot++;
    MUST(M.c->getObjectId() == d.getObjectId() && M.c->getSequenceOrder() == d.getSequenceOrder(), "the encrypted contest carries the description's id and order");
    MUST(qeq(*M.c->getDescriptionHash(), *d.crypto_hash()), "the encrypted contest carries the description hash");
    MUST(sel.size() == M.nsel + M.elected, "one ciphertext per selection and per seat");
    auto ds = d.getSelections(); auto ph = d.getPlaceholders();
    EQ agg = qconst(0);
    for (uint64_t i = 0; i < sel.size(); i++) {
        auto &s = sel[i].get();
        auto &sd = i < M.nsel ? ds[i].get() : ph[i - M.nsel].get();
        uint64_t m = i < M.nsel ? (over ? 0 : M.v[i] == 1) : (over ? 1 : (i - M.nsel < M.elected - tot));
        MUST(s.getObjectId() == sd.getObjectId() && s.getSequenceOrder() == sd.getSequenceOrder(), "selections keep the description's ids and order");
        MUST(s.getIsPlaceholder() == (i >= M.nsel), "exactly the placeholders are marked as such");
        MUST(qeq(*s.getDescriptionHash(), *sd.crypto_hash()), "selections carry the description hash");
        MUST(decryptsTo(*s.getCiphertext(), *e.secret, m), i < M.nsel ? "every selection decrypts to the voter's vote (zero on an overvote)" : "placeholders make up exactly the seats not voted for");
        MUST(isEncryptionOf(*s.getCiphertext(), *e.key, *s.getNonce(), m), "the recorded nonce is the nonce of the ciphertext");
        MUST(s.isValidEncryption(*s.getDescriptionHash(), *e.key, *Qx), "every selection has a proof that verifies");
        agg = qadd(*agg, *s.getNonce());
        for (uint64_t j = 0; j < i; j++) MUST(!qeq(*s.getNonce(), *sel[j].get().getNonce()), "no two ciphertexts share a nonce");
    }
    MUST(isEncryptionOf(*M.c->getCiphertextAccumulation(), *e.key, *agg, M.elected), "the accumulation encrypts exactly the number of seats");
    MUST(M.c->getProof()->getConstant() == M.elected, "the contest proof is for the number of seats");
    MUST(M.c->isValidEncryption(*M.c->getDescriptionHash(), *e.key, *Qx), "the contest proof verifies");
}
static bool contains(const vector<uint8_t> &h, const string &n)
{
    if (n.size() > h.size()) return false;
    for (size_t i = 0; i + n.size() <= h.size(); i++) { size_t k = 0; while (k < n.size() && h[i + k] == (uint8_t)n[k]) k++; if (k == n.size()) return true; }
    return false;
}
static uint64_t fillBuffer(const ElementModP &K)
{
    uint32_t n = eg_choice(3, "precomputed");
    if (n) { PrecomputeBufferContext::init(n == 1 ? 1 : 4); PrecomputeBufferContext::populate(K); }
    return n;
}
// votes in {0,1}, present or absent
ENTRY(h_votes)
{
    Made M; M.nsel = eg_def("nsel", 3); M.elected = 1 + eg_choice(eg_def("elected", 2), "elected");
    uint32_t va = eg_choice(3, "votes_allowed");
    uint64_t allowed = va == 0 ? 0 : M.elected + va - 1;
    M.e = mkElection(mkManifest({{"c0", "geo-0", 3, M.nsel, M.elected, allowed}}, {{"style", {"geo-0"}}}));
    auto descs = M.e.internal->getContests(); auto &d = descs[0].get();
    UV<PlaintextBallotSelection> ps; M.v.resize(M.nsel);
    uint64_t tot = 0;
    bool rev = eg_choice(2, "order");
    for (uint64_t i = 0; i < M.nsel; i++) {
        if (eg_choice(2, "absent")) { M.v[i] = 0; continue; }
        eg_sym(&M.v[i], 8, "vote"); eg_assume(M.v[i] <= 1);
        auto p = make_unique<PlaintextBallotSelection>(selId("c0", i), M.v[i], false, "");
        if (rev) ps.insert(ps.begin(), std::move(p)); else ps.push_back(std::move(p));
        tot += M.v[i];
    }
    eg_assume(tot <= M.elected);
    PlaintextBallotContest pc("c0", std::move(ps));
    M.seed = qvar("seed");
    uint64_t pre = eg_def("pre", 0) ? fillBuffer(*M.e.key) : 0;
    M.c = encryptContest(pc, *M.e.internal, d, *M.e.key, *M.e.context->getCryptoExtendedBaseHash(), *M.seed, eg_choice(2, "verify"));
    PrecomputeBufferContext::empty_queues();
    checkContest(M, d, false);
    if (!pre) MUST(M.c->getHashedElGamalCiphertext()->decrypt(*M.e.secret, *M.e.context->getCryptoExtendedBaseHash(), true).empty(), "nothing is recorded for a valid vote without write-in");
    eg_reach(1 + (pre != 0));
}
// any 64-bit votes: an overvote is encrypted as all zeros and recorded; a vote above 1 is refused or nullified, never encrypted
ENTRY(h_overvotes)
{
    Made M; M.nsel = eg_def("nsel", 2); M.elected = 1 + eg_choice(2, "elected");
    uint64_t allowed = eg_choice(2, "votes_allowed") ? M.elected + 1 : 0;
    M.e = mkElection(mkManifest({{"c0", "geo-0", 0, M.nsel, M.elected, allowed}}, {{"style", {"geo-0"}}}));
    auto descs = M.e.internal->getContests(); auto &d = descs[0].get();
    UV<PlaintextBallotSelection> ps; M.v.resize(M.nsel);
    uint64_t marks = 0; bool big = false;
    for (uint64_t i = 0; i < M.nsel; i++) {
        eg_sym(&M.v[i], 8, "vote");
        ps.push_back(make_unique<PlaintextBallotSelection>(selId("c0", i), M.v[i], false, ""));
        if (M.v[i] >= 1) marks++;
        if (M.v[i] > 1) big = true;
    }
    PlaintextBallotContest pc("c0", std::move(ps));
    M.seed = qvar("seed");
    try { M.c = encryptContest(pc, *M.e.internal, d, *M.e.key, *M.e.context->getCryptoExtendedBaseHash(), *M.seed, true); } catch (const std::invalid_argument &) { M.threw = true; }
    if (M.threw) { MUST(big, "only votes above 1 are refused"); eg_reach(3); return; }
    bool over = big || marks > M.elected;
    checkContest(M, d, over);
    auto x = M.c->getHashedElGamalCiphertext()->decrypt(*M.e.secret, *M.e.context->getCryptoExtendedBaseHash(), true);
    if (over) {
        MUST(contains(x, "overvote"), "an overvote is recorded in the encrypted contest data");
        for (uint64_t i = 0; i < M.nsel; i++) {
            if (M.v[i] == 1) MUST(contains(x, "\"" + selId("c0", i) + "\""), "the record of an overvote names every marked selection");
            if (M.v[i] == 0) MUST(!contains(x, "\"" + selId("c0", i) + "\""), "the record of an overvote names no unmarked selection");
        }
        eg_reach(2);
    } else { MUST(x.empty(), "nothing is recorded for a valid vote without write-in"); eg_reach(1); }
}
// write-in text of every marked write-in selection is recorded
ENTRY(h_writeins)
{
    Made M; M.nsel = eg_def("nsel", 2); M.elected = 1 + eg_choice(2, "elected");
    int wi = eg_choice(3, "writein_candidate");
    M.e = mkElection(mkManifest({{"c0", "geo-0", 0, M.nsel, M.elected}}, {{"style", {"geo-0"}}}, 4, wi == 2 ? -1 : wi));
    auto descs = M.e.internal->getContests(); auto &d = descs[0].get();
    UV<PlaintextBallotSelection> ps; M.v.resize(M.nsel);
    uint64_t marks = 0;
    const string text[] = {"Ada", "Grace", "Mary"};
    for (uint64_t i = 0; i < M.nsel; i++) {
        eg_sym(&M.v[i], 8, "vote"); eg_assume(M.v[i] <= 1);
        ps.push_back(make_unique<PlaintextBallotSelection>(selId("c0", i), M.v[i], false, text[i]));
        if (M.v[i]) marks++;
    }
    PlaintextBallotContest pc("c0", std::move(ps));
    M.seed = qvar("seed");
    M.c = encryptContest(pc, *M.e.internal, d, *M.e.key, *M.e.context->getCryptoExtendedBaseHash(), *M.seed, true);
    bool over = marks > M.elected;
    checkContest(M, d, over);
    auto x = M.c->getHashedElGamalCiphertext()->decrypt(*M.e.secret, *M.e.context->getCryptoExtendedBaseHash(), true);
    bool any = over;
    for (uint64_t i = 0; i < M.nsel; i++) {
        bool rec = (int)i == wi && M.v[i] == 1;
        MUST(contains(x, text[i]) == rec, "the write-in text of exactly the marked write-in selections is recorded");
        any |= rec;
    }
    MUST(any == !x.empty(), "the contest data is empty unless there is something to record");
    eg_reach(any ? 1 : 2);
}
// a contest that does not belong to the description, or has too many selections, is refused
ENTRY(h_refused)
{
    uint64_t nsel = 2;
    auto e = mkElection(mkManifest({{"c0", "geo-0", 0, nsel, 1}}, {{"style", {"geo-0"}}}));
    auto descs = e.internal->getContests(); auto &d = descs[0].get();
    uint32_t k = eg_choice(3, "kind");
    UV<PlaintextBallotSelection> ps;
    for (uint64_t i = 0; i < (k == 1 ? 3 : nsel); i++) ps.push_back(make_unique<PlaintextBallotSelection>(i < 2 ? selId("c0", i) : string("x"), 0, false, ""));
    char id[3] = {0, 0, 0};
    if (k == 0) { eg_sym(id, 2, "id"); eg_assume(id[0] && id[1] && !(id[0] == 'c' && id[1] == '0')); } else { id[0] = 'c'; id[1] = '0'; }
    PlaintextBallotContest pc(string(id, 2), std::move(ps));
    auto seed = qvar("seed");
    bool threw = false;
    try { encryptContest(pc, *e.internal, d, *e.key, *e.context->getCryptoExtendedBaseHash(), *seed, eg_choice(2, "verify")); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw == (k != 2), "a contest with another id or too many selections is refused");
    // a selection offered for another description is refused as well
    auto sd = d.getSelections();
    PlaintextBallotSelection s(selId("c0", 1), 0, false, "");
    threw = false;
    try { encryptSelection(s, sd[0].get(), *e.key, *e.context->getCryptoExtendedBaseHash(), *seed, false, true); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "a selection with another id is refused");
    uint64_t v; eg_sym(&v, 8, "vote"); eg_assume(v > 1);
    PlaintextBallotSelection t(selId("c0", 0), v, false, "");
    threw = false;
    try { encryptSelection(t, sd[0].get(), *e.key, *e.context->getCryptoExtendedBaseHash(), *seed, false, false); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "a vote above 1 is refused");
    eg_reach(k == 2 ? 2 : 1);
}
