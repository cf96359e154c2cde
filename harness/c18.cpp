// C18: a compact ballot expands to the ballot it stands for, and to nothing else.
#include "dump.hpp"
#include <stdexcept>
using namespace electionguard;
static const vector<ContestSpec> CS = {{"c0", "geo-0", 0, 2, 1}, {"c1", "geo-1", 1, 1, 1}, {"c2", "geo-0", 2, 1, 1}};
static const vector<StyleSpec> SS = {{"style-a", {"geo-0"}}, {"style-b", {"geo-1"}}, {"style-c", {"geo-0", "geo-1"}}};
static bool inStyle(const ContestSpec &c, const StyleSpec &s) { for (auto &g : s.geo) if (g == c.district) return true; return false; }
struct Case {
    Election e; uint32_t st; unique_ptr<PlaintextBallot> ballot, full; vector<uint64_t> votes; vector<string> writeins;
    EQ nonce, seed; uint64_t ts;
};
// any ballot: contests and selections left out or given in another order, votes 0 or 1, one write-in text
static void make(Case &c, bool symTime = true)
{
    c.e = mkElection(mkManifest(CS, SS, 4, 1));
    c.st = eg_choice(3, "style");
    bool reverse = eg_choice(2, "order");
    UV<PlaintextBallotContest> pcs, full;
    for (auto &k : CS) {
        UV<PlaintextBallotSelection> ps, fs; bool has = eg_choice(2, "contest"), in = inStyle(k, SS[c.st]);
        for (uint64_t j = 0; j < k.nsel; j++) {
            uint64_t v = 0; string w;
            if (has && (j > 0 || eg_choice(2, "selection"))) {
                eg_sym(&v, 8, "vote"); eg_assume(v <= 1);
                v = eg_concretize(v); // the votes decide what is hashed
                if (j == 1 && v) { char t[2] = {}; eg_sym_bytes(t, 1, "write-in"); eg_assume(t[0] >= 'a' && t[0] <= 'z'); w = string(t, 1); }
                auto s = make_unique<PlaintextBallotSelection>(selId(k.id, j), v, false, w);
                if (reverse) ps.insert(ps.begin(), std::move(s)); else ps.push_back(std::move(s));
            }
            if (in) { c.votes.push_back(v); c.writeins.push_back(w); fs.push_back(make_unique<PlaintextBallotSelection>(selId(k.id, j), v, false, w)); }
        }
        if (in) full.push_back(make_unique<PlaintextBallotContest>(k.id, std::move(fs)));
        if (!has) continue;
        auto pc = make_unique<PlaintextBallotContest>(k.id, std::move(ps));
        if (reverse) pcs.insert(pcs.begin(), std::move(pc)); else pcs.push_back(std::move(pc));
    }
    c.ballot = make_unique<PlaintextBallot>("ballot-1", SS[c.st].id, std::move(pcs));
    c.full = make_unique<PlaintextBallot>("ballot-1", SS[c.st].id, std::move(full));
    c.nonce = qvar("nonce"); c.seed = qvar("seed"); c.ts = 7;
    if (symTime) { static const uint64_t from[] = {0, 1700000000, 1ull << 32, 1ull << 63}; uint8_t t; eg_sym_bytes(&t, 1, "timestamp"); eg_assume(t != 0 && t < 10); c.ts = from[eg_choice(4, "time")] + t; }
}
// Everything but the selection proofs, which are drawn anew.
static string text(const CiphertextBallot &b)
{
    Dump d; auto *x = &b;
    d.t("ballot", x->getObjectId()); d.t("style", x->getStyleId()); d.q("manifest", x->getManifestHash()); d.q("seed", x->getBallotCodeSeed()); d.q("code", x->getBallotCode()); d.n("time", x->getTimestamp()); d.q("nonce", x->getNonce()); d.q("hash", x->getCryptoHash());
    for (auto &cr : x->getContests()) {
        auto &c = cr.get();
        d.t("contest", c.getObjectId()); d.n("seq", c.getSequenceOrder()); d.q("desc", c.getDescriptionHash()); d.q("nonce", c.getNonce()); dump(d, c.getCiphertextAccumulation()); d.q("hash", c.getCryptoHash()); dump(d, c.getHashedElGamalCiphertext().get());
        for (auto &sr : c.getSelections()) { auto &s = sr.get(); d.t("sel", s.getObjectId()); d.n("seq", s.getSequenceOrder()); d.q("desc", s.getDescriptionHash()); dump(d, s.getCiphertext()); d.n("ph", s.getIsPlaceholder()); d.q("nonce", s.getNonce()); d.q("hash", s.getCryptoHash()); }
    }
    return d.s;
}
static bool valid(const CiphertextBallot &b, const Election &e) { return const_cast<CiphertextBallot &>(b).isValidEncryption(*e.internal->getManifestHash(), *e.key, *e.context->getCryptoExtendedBaseHash()); }
ENTRY(h_expand)
{
    Case c; make(c);
    auto compact = encryptCompactBallot(*c.ballot, *c.e.internal, *c.e.context, *c.seed, dup(c.nonce), c.ts, false);
    auto plain = compact->getPlaintext();
    MUST(plain->getObjectId() == "ballot-1" && compact->getObjectId() == "ballot-1" && plain->getStyleId() == SS[c.st].id, "a compact ballot keeps its id and style");
    MUST(plain->getSelections() == c.votes && plain->getWriteIns() == c.writeins, "a compact ballot holds a vote and a write-in for every selection of its style, in order");
    MUST(qeq(*compact->getNonce(), *c.nonce) && qeq(*compact->getBallotCodeSeed(), *c.seed) && compact->getTimestamp() == c.ts, "a compact ballot keeps nonce, seed and timestamp");
    auto direct = encryptBallot(*c.ballot, *c.e.internal, *c.e.context, *c.seed, dup(c.nonce), c.ts, false);
    MUST(qeq(*compact->getBallotCode(), *direct->getBallotCode()), "a compact ballot has the code of the encrypted ballot");
    auto back = expandCompactPlaintextBallot(*plain, *c.e.internal);
    Dump d, w; dump(d, back.get()); dump(w, c.full.get());
    MUST(d.s == w.s, "a compact plaintext ballot expands to the voter's ballot with every selection filled in");
    auto full = expandCompactCiphertextBallot(*compact, *c.e.internal, *c.e.context);
    MUST(text(*full) == text(*direct), "a compact ballot expands to the encrypted ballot it stands for");
    MUST(valid(*full, c.e), "the expanded ballot verifies");
    eg_reach(1 + c.st);
}
// also when precomputed values are at hand
ENTRY(h_precomputed)
{
    Case c; c.e = mkElection(mkManifest(CS, SS, 4, 1));
    uint64_t v; eg_sym(&v, 8, "vote"); eg_assume(v <= 1);
    UV<PlaintextBallotSelection> ps; ps.push_back(make_unique<PlaintextBallotSelection>("c1-s0", v, false, ""));
    PlaintextBallot b("ballot-1", "style-b", uv(make_unique<PlaintextBallotContest>("c1", std::move(ps))));
    auto nonce = qvar("nonce"), seed = qvar("seed");
    PrecomputeBufferContext::init(4);
    uint32_t when = eg_choice(3, "populated");
    bool viaMediator = eg_choice(2, "mediator");
    if (when == 0 || when == 2) PrecomputeBufferContext::populate(*c.e.key);
    unique_ptr<CompactCiphertextBallot> compact;
    if (viaMediator) { EncryptionDevice dev(1, 2, 3, "here"); EncryptionMediator med(*c.e.internal, *c.e.context, dev); compact = med.compactEncrypt(b, true); }
    else compact = encryptCompactBallot(b, *c.e.internal, *c.e.context, *seed, dup(nonce), 7, true);
    if (when == 1) PrecomputeBufferContext::populate(*c.e.key);
    if (when == 2) PrecomputeBufferContext::empty_queues();
    string why; unique_ptr<CiphertextBallot> full;
    try { full = expandCompactCiphertextBallot(*compact, *c.e.internal, *c.e.context); } catch (const std::exception &x) { why = x.what(); }
    PrecomputeBufferContext::empty_queues();
    MUST(full, "a compact ballot expands whether or not precomputed values are at hand");
    MUST(qeq(*full->getBallotCode(), *compact->getBallotCode()) && valid(*full, c.e), "and gives the ballot with its code");
    auto sel = full->getContests()[0].get().getSelections();
    MUST(decryptsTo(*sel[0].get().getCiphertext(), *c.e.secret, v) && decryptsTo(*sel[1].get().getCiphertext(), *c.e.secret, 1 - v), "and its votes");
    eg_reach(1 + when);
}
// any change of what the code covers is refused
ENTRY(h_tampered)
{
    vector<ContestSpec> cs = {{"c0", "geo-0", 0, 2, 1}, {"c1", "geo-1", 1, 2, 1}};
    vector<StyleSpec> ss = {{"style-a", {"geo-0"}}, {"style-b", {"geo-1"}}};
    auto e = mkElection(mkManifest(cs, ss));
    uint64_t v[2], u[2]; for (int i = 0; i < 2; i++) { eg_sym(&v[i], 8, "vote"); eg_assume(v[i] <= 1); v[i] = eg_concretize(v[i]); }
    u[0] = v[0]; u[1] = v[1];
    UV<PlaintextBallotSelection> ps; for (int i = 0; i < 2; i++) ps.push_back(make_unique<PlaintextBallotSelection>(selId("c0", i), v[i], false, ""));
    PlaintextBallot b("ballot-1", "style-a", uv(make_unique<PlaintextBallotContest>("c0", std::move(ps))));
    auto nonce = qvar("nonce"), seed = qvar("code_seed");
    auto compact = encryptCompactBallot(b, *e.internal, *e.context, *seed, dup(nonce), 7, false);
    uint32_t what = eg_choice(9, "changed");
    string id = "ballot-1", style = "style-a"; uint64_t ts = 7; EQ n = dup(nonce), s = dup(seed), code = make_unique<ElementModQ>(*compact->getBallotCode());
    size_t count = 2; bool same = false;
    switch (what) {
    case 0: for (auto &x : u) eg_sym(&x, 8, "new vote"), eg_assume(x <= 1), x = eg_concretize(x); same = (u[0] == v[0] && u[1] == v[1]); break;
    case 1: id = "ballot-2"; break;
    case 2: style = "style-b"; break;
    case 3: ts = symFar("new time", 10); eg_assume(ts != 0 && ts != 7); break;
    case 4: n = qvar("other nonce"); break;
    case 5: s = qvar("other seed"); break;
    case 6: code = qvar("other code"); break;
    case 7: count = eg_choice(2, "votes"); break;
    default: u[0] = 2; break;
    }
    vector<uint64_t> votes(u, u + count); vector<string> wi(count);
    CompactCiphertextBallot t(make_unique<CompactPlaintextBallot>(id, style, votes, wi), BallotBoxState::unknown, std::move(s), std::move(code), ts, std::move(n));
    bool threw = false; unique_ptr<CiphertextBallot> full;
    try { full = expandCompactCiphertextBallot(t, *e.internal, *e.context); } catch (const std::exception &) { threw = true; }
    // an overvoted contest is encrypted as a full undervote, so the code covers the votes up to that
    auto counted = [](uint64_t a, uint64_t b) { return a + b > 1 ? 0 : a + 2 * b; };
    if (what == 0 || what == 8) same = counted(u[0], u[1]) == counted(v[0], v[1]);
    MUST(threw == !same, "a compact ballot expands only if its votes, id, style, timestamp, nonce, seed and code are those it was made with");
    eg_reach(same ? 1 : 2);
}
// the state of a compact ballot, and parts that are missing
ENTRY(h_parts)
{
    Case c; make(c, false);
    auto compact = encryptCompactBallot(*c.ballot, *c.e.internal, *c.e.context, *c.seed, dup(c.nonce), c.ts, false);
    MUST(compact->getBallotBoxState() == BallotBoxState::unknown, "a new compact ballot has no state");
    auto st = eg_choice(2, "state") ? BallotBoxState::cast : BallotBoxState::spoiled;
    Dump a; dump(a, compact->getPlaintext()); auto code = make_unique<ElementModQ>(*compact->getBallotCode());
    compact->setBallotBoxState(st);
    Dump b; dump(b, compact->getPlaintext());
    MUST(compact->getBallotBoxState() == st && a.s == b.s && qeq(*code, *compact->getBallotCode()), "setting the state changes the state only");
    uint32_t miss = eg_choice(4, "missing");
    auto cl = [&](ElementModQ *q, uint32_t i) { return i == miss ? EQ() : make_unique<ElementModQ>(*q); };
    unique_ptr<CompactPlaintextBallot> pl; if (miss != 0) pl = CompactPlaintextBallot::make(*c.full);
    if (pl) { Dump x; dump(x, pl.get()); MUST(x.s == a.s, "compressing the full plaintext ballot gives the same compact ballot"); }
    CompactCiphertextBallot t(std::move(pl), st, cl(compact->getBallotCodeSeed(), 1), cl(compact->getBallotCode(), 2), c.ts, cl(compact->getNonce(), 3));
    bool threw = false;
    try { expandCompactCiphertextBallot(t, *c.e.internal, *c.e.context); } catch (const std::exception &) { threw = true; }
    MUST(threw, "a compact ballot with a part missing is refused");
    eg_reach(1);
}
