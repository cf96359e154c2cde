// C15: a ballot whose parts were altered after encryption does not verify
#include "mk.hpp"
#include <stdexcept>
using namespace electionguard;
struct Sel { string id; uint64_t seq; EQ dh; unique_ptr<ElGamalCiphertext> ct; bool ph; EQ nonce, ch; unique_ptr<DisjunctiveChaumPedersenProof> proof; };
struct Con { string id; uint64_t seq; EQ dh; vector<Sel> sel; EQ nonce; unique_ptr<ElGamalCiphertext> acc; EQ ch; unique_ptr<ConstantChaumPedersenProof> proof; unique_ptr<HashedElGamalCiphertext> h; };
struct Bal { string id, style; EQ mh, seed; vector<Con> con; EQ code; uint64_t ts; EQ nonce, ch; };
static EQ cp(const ElementModQ *q) { return make_unique<ElementModQ>(*q); }
static Sel open(CiphertextBallotSelection &s) { return {s.getObjectId(), s.getSequenceOrder(), cp(s.getDescriptionHash()), make_unique<ElGamalCiphertext>(*s.getCiphertext()), s.getIsPlaceholder(), cp(s.getNonce()), cp(s.getCryptoHash()), make_unique<DisjunctiveChaumPedersenProof>(*s.getProof())}; }
static Con open(CiphertextBallotContest &c) { Con r{c.getObjectId(), c.getSequenceOrder(), cp(c.getDescriptionHash()), {}, cp(c.getNonce()), make_unique<ElGamalCiphertext>(*c.getCiphertextAccumulation()), cp(c.getCryptoHash()), make_unique<ConstantChaumPedersenProof>(*c.getProof()), c.getHashedElGamalCiphertext()}; for (auto &s : c.getSelections()) r.sel.push_back(open(s.get())); return r; }
static Bal open(CiphertextBallot &b) { Bal r{b.getObjectId(), b.getStyleId(), cp(b.getManifestHash()), cp(b.getBallotCodeSeed()), {}, cp(b.getBallotCode()), b.getTimestamp(), cp(b.getNonce()), cp(b.getCryptoHash())}; for (auto &c : b.getContests()) r.con.push_back(open(c.get())); return r; }
static unique_ptr<CiphertextBallot> close(Bal &b)
{
    UV<CiphertextBallotContest> cs;
    for (auto &c : b.con) {
        UV<CiphertextBallotSelection> ss;
        for (auto &s : c.sel) ss.push_back(make_unique<CiphertextBallotSelection>(s.id, s.seq, *s.dh, std::move(s.ct), s.ph, std::move(s.nonce), std::move(s.ch), std::move(s.proof), nullptr));
        cs.push_back(make_unique<CiphertextBallotContest>(c.id, c.seq, *c.dh, std::move(ss), std::move(c.nonce), std::move(c.acc), std::move(c.ch), std::move(c.proof), std::move(c.h)));
    }
    return make_unique<CiphertextBallot>(b.id, b.style, *b.mh, std::move(b.seed), std::move(cs), std::move(b.code), b.ts, std::move(b.nonce), std::move(b.ch));
}
// an adversary may recompute every public hash; the reference formulas are those of the specification
static EQ selHash(Sel &s) { auto h = hash_elems({s.ct->getPad(), s.ct->getData()}); return hash_elems({s.id, s.dh.get(), h.get()}); }
static EQ conHash(Con &c) { vector<CryptoHashableType> v = {c.id, c.dh.get()}; for (auto &s : c.sel) v.emplace_back(s.ch.get()); return hash_elems(v); }
static EQ balHash(Bal &b) { vector<CryptoHashableType> v = {b.id, b.mh.get()}; for (auto &c : b.con) v.emplace_back(c.ch.get()); return hash_elems(v); }
static void rehash(Bal &b) { for (auto &c : b.con) { for (auto &s : c.sel) s.ch = selHash(s); c.ch = conHash(c); } b.ch = balHash(b); }
static void reaccumulate(Con &c) { PL64 one = {1}; EP p = mkP(one), d = mkP(one); for (auto &s : c.sel) { p = pmul(*p, *s.ct->getPad()); d = pmul(*d, *s.ct->getData()); } c.acc = make_unique<ElGamalCiphertext>(std::move(p), std::move(d)); }
static Sel copySel(const Sel &s) { return {s.id, s.seq, cp(s.dh.get()), make_unique<ElGamalCiphertext>(*s.ct), s.ph, cp(s.nonce.get()), cp(s.ch.get()), make_unique<DisjunctiveChaumPedersenProof>(*s.proof)}; }
static Con copyCon(const Con &c) { Con r{c.id, c.seq, cp(c.dh.get()), {}, cp(c.nonce.get()), make_unique<ElGamalCiphertext>(*c.acc), cp(c.ch.get()), make_unique<ConstantChaumPedersenProof>(*c.proof), c.h->clone()}; for (auto &s : c.sel) r.sel.push_back(copySel(s)); return r; }
static unique_ptr<ElGamalCiphertext> ct(EP a, EP b) { return make_unique<ElGamalCiphertext>(std::move(a), std::move(b)); }
static EP cpp(const ElementModP *p) { return make_unique<ElementModP>(*p); }
ENTRY(h_tamper)
{
    enum { NONE, REHASH, PAD, DATA, PAD_H, DATA_H, SID, SDH, SCH, SPROOF_SWAP, SPROOF_OTHER, SPROOF_NULL, DROP, DROP_H, DUP_H, SWAP_CT, SWAP_CT_H, ACC_PAD, ACC_DATA, CPROOF_OTHER, CPROOF_NULL, CPROOF_CONST, CCH, CID, CDH, CDROP, CSWAP, BID, BMH, BCH, VOTE2_H, SCH_UP, CCH_UP, DUPC_FIRST, DUPC_LAST, DUPS, REPLAY_CT, FORGE_TOTAL, FORGE_ACC, FORGE_SEL, FORGE_SEL_ACC, KINDS };
    uint32_t k = eg_choice(KINDS, "tamper"), c = eg_choice(2, "contest"), s = eg_choice(3, "selection");
    auto e = mkElection(mkManifest({{"c0", "geo-0", 0, 2, 1}, {"c1", "geo-0", 1, 2, 1}}, {{"st", {"geo-0"}}}));
    UV<PlaintextBallotContest> pcs; UV<PlaintextBallotSelection> ps;
    ps.push_back(make_unique<PlaintextBallotSelection>("c0-s0", 1, false, ""));
    pcs.push_back(make_unique<PlaintextBallotContest>("c0", std::move(ps)));
    PlaintextBallot pb("ballot", "st", std::move(pcs));
    auto seed = qvar("seed"), n = qvar("nonce"), d = qvar("d");
    auto &Qx = *e.context->getCryptoExtendedBaseHash();
    auto enc = encryptBallot(pb, *e.internal, *e.context, *seed, dup(n), 7, false);
    Bal b = open(*enc);
    Con &C = b.con[c]; Sel &S = C.sel[s]; uint32_t s2 = (s + 1) % 3; Sel &T = C.sel[s2];
    auto g = gpow(*d);
    switch (k) {
        case NONE: break;
        case REHASH: rehash(b); for (auto &x : b.con) reaccumulate(x); break;
        case PAD: case PAD_H: S.ct = ct(pmul(*S.ct->getPad(), *g), cpp(S.ct->getData())); break;
        case DATA: case DATA_H: S.ct = ct(cpp(S.ct->getPad()), pmul(*S.ct->getData(), *g)); break;
        case SID: S.id += "x"; break;
        case SDH: S.dh = dup(d); break;
        case SCH: S.ch = dup(d); break;
        case SPROOF_SWAP: std::swap(S.proof, T.proof); break;
        case SPROOF_OTHER: S.proof = DisjunctiveChaumPedersenProof::make(*S.ct, *d, *e.key, Qx, 0); break;
        case SPROOF_NULL: S.proof = nullptr; break;
        case DROP: C.sel.erase(C.sel.begin() + s); break;
        case DROP_H: C.sel.erase(C.sel.begin() + s); break;
        case DUP_H: C.sel.push_back(copySel(S)); C.sel.back().seq = 9; C.sel.back().id += "y"; break;
        case SWAP_CT: case SWAP_CT_H: std::swap(S.ct, T.ct); break;
        case ACC_PAD: C.acc = ct(pmul(*C.acc->getPad(), *g), cpp(C.acc->getData())); break;
        case ACC_DATA: C.acc = ct(cpp(C.acc->getPad()), pmul(*C.acc->getData(), *g)); break;
        case CPROOF_OTHER: C.proof = ConstantChaumPedersenProof::make(*C.acc, *d, *e.key, *seed, Qx, 1); break;
        case CPROOF_NULL: C.proof = nullptr; break;
        case CPROOF_CONST: C.proof = make_unique<ConstantChaumPedersenProof>(cpp(C.proof->getPad()), cpp(C.proof->getData()), cp(C.proof->getChallenge()), cp(C.proof->getResponse()), C.proof->getConstant() + 1); break;
        case CCH: C.ch = dup(d); break;
        case CID: C.id += "x"; break;
        case CDH: C.dh = dup(d); break;
        case CDROP: b.con.erase(b.con.begin() + c); break;
        case CSWAP: std::swap(b.con[0].seq, b.con[1].seq); break;
        case BID: b.id += "x"; break;
        case BMH: b.mh = dup(d); break;
        case BCH: b.ch = dup(d); break;
        case VOTE2_H: { // an honest second vote, everything but the impossible contest proof redone
            auto r = qvar("r2"); S.ct = ct(gpow(*r), pmul(*ppow(*e.key, *r), *gen())); S.nonce = dup(r); S.proof = DisjunctiveChaumPedersenProof::make(*S.ct, *r, *e.key, Qx, 1);
            bool was1 = (c == 0 && s == 0) || (c == 1 && s == 2);
            if (was1) { S.ct = ct(gpow(*r), ppow(*e.key, *r)); S.proof = DisjunctiveChaumPedersenProof::make(*S.ct, *r, *e.key, Qx, 0); }
            EQ agg = qconst(0); for (auto &x : C.sel) agg = qadd(*agg, *x.nonce);
            reaccumulate(C); C.proof = ConstantChaumPedersenProof::make(*C.acc, *agg, *e.key, *seed, Qx, 1); break; }
        case SCH_UP: S.ch = dup(d); C.ch = conHash(C); b.ch = balHash(b); break;
        case CCH_UP: C.ch = dup(d); b.ch = balHash(b); break;
        case DUPC_FIRST: case DUPC_LAST: { // a second contest with the same id; only one of the two is altered
            Con X = copyCon(C); (k == DUPC_FIRST ? C : X).proof = ConstantChaumPedersenProof::make(*C.acc, *d, *e.key, *seed, Qx, 1);
            X.seq = C.seq; b.con.insert(b.con.begin() + c + 1, std::move(X)); break; }
        case DUPS: { // a second selection with the same id, altered proof first; the totals are made to match
            Sel X = copySel(T); X.id = S.id; X.dh = dup(S.dh); X.seq = S.seq; S.proof = DisjunctiveChaumPedersenProof::make(*S.ct, *d, *e.key, Qx, 0);
            C.sel[s2] = std::move(X); break; }
        // forgeries with honest proofs: everything is consistent except the one condition under test
        case FORGE_TOTAL: { EQ agg = qconst(0); for (auto &x : C.sel) agg = qadd(*agg, *x.nonce); C.acc = ct(cpp(C.acc->getPad()), pmul(*C.acc->getData(), *gen())); C.proof = ConstantChaumPedersenProof::make(*C.acc, *agg, *e.key, *seed, Qx, 2); break; }
        case FORGE_ACC: { auto r = qvar("r3"); C.acc = ct(gpow(*r), pmul(*ppow(*e.key, *r), *gen())); C.proof = ConstantChaumPedersenProof::make(*C.acc, *r, *e.key, *seed, Qx, 1); break; }
        case FORGE_SEL: case FORGE_SEL_ACC: { auto r = qvar("r4"); S.ct = ct(gpow(*r), pmul(*ppow(*e.key, *r), *gen())); S.proof = DisjunctiveChaumPedersenProof::make(*S.ct, *r, *e.key, Qx, 1); break; }
        case REPLAY_CT: C.sel[s].ct = make_unique<ElGamalCiphertext>(*b.con[1 - c].sel[s].ct); break;
    }
    if (k == PAD_H || k == DATA_H || k == DROP_H || k == DUP_H || k == SWAP_CT_H || k == REPLAY_CT || k == DUPS) { rehash(b); reaccumulate(C); }
    if (k == FORGE_SEL || k == FORGE_SEL_ACC) rehash(b);
    if (k == FORGE_SEL_ACC) reaccumulate(C);
    if (k == VOTE2_H || k == DUPC_FIRST || k == DUPC_LAST || k == DROP) rehash(b);
    auto t = close(b);
    bool ok = t->isValidEncryption(*e.internal->getManifestHash(), *e.key, Qx);
    if (k == NONE || k == REHASH) {
        MUST(ok, "the unaltered ballot verifies"); eg_reach(1);
        MUST(!t->isValidEncryption(*d, *e.key, Qx), "a ballot does not verify against another manifest");
        MUST(!t->isValidEncryption(*e.internal->getManifestHash(), *g, Qx), "a ballot does not verify under another election key");
        MUST(!t->isValidEncryption(*e.internal->getManifestHash(), *e.key, *d), "a ballot does not verify under another extended base hash");
    } else { MUST(!ok, "an altered ballot does not verify"); eg_reach(2); }
}
// selection- and contest-level verdicts
ENTRY(h_parts)
{
    auto e = mkElection(mkManifest({{"c0", "geo-0", 0, 2, 1}}, {{"st", {"geo-0"}}}));
    PlaintextBallot pb("ballot", "st", UV<PlaintextBallotContest>());
    auto seed = qvar("seed"), n = qvar("nonce"), d = qvar("d");
    auto &Qx = *e.context->getCryptoExtendedBaseHash();
    auto enc = encryptBallot(pb, *e.internal, *e.context, *seed, dup(n), 7, false);
    auto cs = enc->getContests(); auto &c = cs[0].get(); auto sel = c.getSelections(); auto &s = sel[eg_choice(3, "selection")].get();
    MUST(s.isValidEncryption(*s.getDescriptionHash(), *e.key, Qx), "an honest selection verifies");
    MUST(!s.isValidEncryption(*d, *e.key, Qx), "a selection does not verify for another description");
    MUST(!s.isValidEncryption(*s.getDescriptionHash(), *gpow(*d), Qx), "a selection does not verify under another key");
    MUST(!s.isValidEncryption(*s.getDescriptionHash(), *e.key, *d), "a selection does not verify under another base hash");
    MUST(c.isValidEncryption(*c.getDescriptionHash(), *e.key, Qx), "an honest contest verifies");
    MUST(!c.isValidEncryption(*d, *e.key, Qx), "a contest does not verify for another description");
    MUST(!c.isValidEncryption(*c.getDescriptionHash(), *gpow(*d), Qx), "a contest does not verify under another key");
    MUST(!c.isValidEncryption(*c.getDescriptionHash(), *e.key, *d), "a contest does not verify under another base hash");
    eg_reach(1);
}
// contests handed over in any order give the same ballot
ENTRY(h_order)
{
    auto e = mkElection(mkManifest({{"c0", "geo-0", 0, 1, 1}, {"c1", "geo-0", 1, 1, 1}}, {{"st", {"geo-0"}}}));
    PlaintextBallot pb("ballot", "st", UV<PlaintextBallotContest>());
    auto seed = qvar("seed"), n = qvar("nonce");
    auto enc = encryptBallot(pb, *e.internal, *e.context, *seed, dup(n), 7, false);
    UV<CiphertextBallotContest> cs; auto rs = enc->getContests();
    bool rev = eg_choice(2, "reverse");
    for (size_t i = 0; i < rs.size(); i++) cs.push_back(make_unique<CiphertextBallotContest>(rs[rev ? rs.size() - 1 - i : i].get()));
    auto b = CiphertextBallot::make("ballot", "st", *enc->getManifestHash(), std::move(cs), dup(n), 7, dup(seed));
    MUST(b->isValidEncryption(*e.internal->getManifestHash(), *e.key, *e.context->getCryptoExtendedBaseHash()), "a ballot made from valid contests in any order verifies");
    MUST(qeq(*b->getCryptoHash(), *enc->getCryptoHash()) && qeq(*b->getBallotCode(), *enc->getBallotCode()), "the order in which contests are handed over does not matter");
    bool threw = false;
    try { CiphertextBallot::make("ballot", "st", *enc->getManifestHash(), UV<CiphertextBallotContest>(), dup(n), 7); } catch (const std::invalid_argument &) { threw = true; }
    MUST(threw, "a ballot without contests is refused");
    eg_reach(1);
}
