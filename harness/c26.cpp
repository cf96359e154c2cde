// C25/C26: precomputed values are handed out once; shared state is safe to use from several threads.
#include "mk.hpp"
using namespace electionguard;
typedef PrecomputeBufferContext Pool;
static void checkTriple(Triple &t, const ElementModP &key)
{
    auto e = t.get_exp();
    MUST(peq(*t.get_g_to_exp(), *gpow(*e)) && peq(*t.get_pubkey_to_exp(), *ppow(key, *e)), "a precomputed triple is (e, g^e, K^e)");
}
static void checkTwo(TwoTriplesAndAQuadruple &w, const ElementModP &key)
{
    auto a = w.get_triple1(), b = w.get_triple2(); auto q = w.get_quad();
    checkTriple(*a, key); checkTriple(*b, key);
    MUST(peq(*q->get_g_to_exp1(), *gpow(*q->get_exp1())) && peq(*q->get_g_to_exp2_mult_by_pubkey_to_exp1(), *pmul(*gpow(*q->get_exp2()), *ppow(key, *q->get_exp1()))), "a precomputed quadruple is (a, b, g^a, g^b K^a)");
}
// all secret exponents handed out so far, none of which may come back
struct Seen {
    UV<ElementModQ> e;
    void add(unique_ptr<ElementModQ> x) { for (auto &y : e) MUST(!qeq(*x, *y), "a precomputed exponent is handed out once"); e.push_back(std::move(x)); }
    void add(Triple &t) { add(t.get_exp()); }
    void add(TwoTriplesAndAQuadruple &w) { add(*w.get_triple1()); add(*w.get_triple2()); add(w.get_quad()->get_exp1()); add(w.get_quad()->get_exp2()); }
};
ENTRY(h_history)
{
    auto key = gpow(*qvar("secret"));
    Seen seen;
    uint64_t two = 0, tri = 0, max = DEFAULT_PRECOMPUTE_SIZE, total = 0; bool ok = false;
    uint32_t steps = (uint32_t)eg_def("steps", 5);
    Pool::init(1 + eg_choice(2, "size")); max = Pool::get_max_queue_size(); ok = true;
    for (uint32_t s = 0; s < steps; s++) {
        switch (eg_choice(6, "op")) {
        case 0: {
            Pool::populate(*key);
            if (ok) { uint64_t it = 0; do { two++; if (it % 3 == 0) tri += 2; it++; total++; } while (two < max); }
            break;
        }
        case 1: { auto t = Pool::getTriple(); MUST((t != nullptr) == (tri > 0), "a triple is available exactly when one is left"); if (t) { tri--; checkTriple(*t, *key); seen.add(*t); eg_reach(1); } break; }
        case 2: { auto w = Pool::getTwoTriplesAndAQuadruple(); MUST((w != nullptr) == (two > 0), "a set is available exactly when one is left"); if (w) { two--; checkTwo(*w, *key); seen.add(*w); eg_reach(2); } break; }
        case 3: Pool::empty_queues(); two = tri = 0; break;
        case 4: Pool::stop_populate(); ok = false; break;
        case 5: { uint32_t n = 1 + eg_choice(3, "size"); Pool::init(n); max = n; ok = true; MUST(Pool::get_max_queue_size() == n, "the configured size is kept"); break; }
        }
        MUST(Pool::get_current_queue_size() == two, "the reported size is the number of sets left");
    }
}
// no two encryptions share precomputed values, also when the buffer runs dry
ENTRY(h_encrypt)
{
    auto e = mkElection(mkManifest({{"c0", "geo-0", 0, 2, 1}, {"c1", "geo-0", 1, 1, 1}}, {{"style", {"geo-0"}}}));
    unsigned size = eg_choice(4, "size");
    if (size) { const unsigned n[] = {0, 1, 3, 6}; Pool::init(n[size]); Pool::populate(*e.key); }
    Seen seen;
    auto see = [&](EQ x) { seen.add(std::move(x)); };
    (void)see;
    vector<EP> pads;
    auto pad = [&](const ElementModP &p) { for (auto &y : pads) MUST(!peq(p, *y), "no encryption or proof commitment is ever reused"); pads.push_back(make_unique<ElementModP>(p)); };
    for (int b = 0; b < 2; b++) {
        auto descs = e.internal->getContests();
        UV<PlaintextBallotContest> pcs;
        for (auto &d : descs) {
            UV<PlaintextBallotSelection> ps;
            for (auto &s : d.get().getSelections()) ps.push_back(make_unique<PlaintextBallotSelection>(s.get().getObjectId(), 0, false, ""));
            pcs.push_back(make_unique<PlaintextBallotContest>(d.get().getObjectId(), std::move(ps)));
        }
        PlaintextBallot pb(string("ballot-") + (char)('0' + b), "style", std::move(pcs));
        auto cb = encryptBallot(pb, *e.internal, *e.context, *qvar("code"), qvar("nonce"), 5, true);
        for (auto &c : cb->getContests()) {
            pad(*c.get().getHashedElGamalCiphertext()->getPad());
            for (auto &s : c.get().getSelections()) {
                pad(*s.get().getCiphertext()->getPad());
                auto p = s.get().getProof();
                pad(*p->getProofZeroPad()); pad(*p->getProofOnePad());
            }
            pad(*c.get().getProof()->getPad());
        }
    }
    eg_reach(size ? 1 : 2);
}
// ---- threads
struct Ctx { unique_ptr<ElementModP> key; uint32_t op[4]; UV<Triple> triples; unique_ptr<Triple> t[4]; unique_ptr<TwoTriplesAndAQuadruple> w[4]; uint32_t n[4]; string s[4]; };
static void poolOp(void *p, unsigned i)
{
    Ctx &c = *(Ctx *)p;
    switch (c.op[i]) {
    case 0: c.t[i] = Pool::getTriple(); break;
    case 1: c.w[i] = Pool::getTwoTriplesAndAQuadruple(); break;
    case 2: Pool::populate(*c.key); break;
    case 3: Pool::stop_populate(); break;
    case 4: c.n[i] = Pool::get_max_queue_size(); break;
    case 5: c.n[i] = Pool::get_current_queue_size(); break;
    case 6: Pool::empty_queues(); break;
    case 7: Pool::init(3); break;
    }
}
ENTRY(h_pool_threads)
{
    unsigned n = (unsigned)eg_def("threads", 2);
    auto c = make_unique<Ctx>();
    c->key = gpow(*qvar("secret"));
    Pool::init(1 + eg_choice(2, "size"));
    if (eg_choice(2, "filled")) Pool::populate(*c->key);
    uint32_t last = 0;
    for (unsigned i = 0; i < n; i++) { c->op[i] = eg_choice(8, "op"); eg_assume(c->op[i] >= last); last = c->op[i]; }
    eg_threads(n, poolOp, c.get());
    Seen seen;
    for (unsigned i = 0; i < n; i++) { if (c->t[i]) { checkTriple(*c->t[i], *c->key); seen.add(*c->t[i]); } if (c->w[i]) { checkTwo(*c->w[i], *c->key); seen.add(*c->w[i]); } }
    uint32_t left = 0;
    while (auto w = Pool::getTwoTriplesAndAQuadruple()) { checkTwo(*w, *c->key); seen.add(*w); left++; }
    while (auto t = Pool::getTriple()) { checkTriple(*t, *c->key); seen.add(*t); }
    MUST(Pool::get_current_queue_size() == 0, "the pool is empty in the end");
    eg_reach(1);
}
// two ballots encrypted at the same time against one manifest, context and pool
struct Enc { Election e; unique_ptr<PlaintextBallot> pb[3]; unique_ptr<CiphertextBallot> cb[3]; EQ code[3], nonce[3]; };
static void encOp(void *p, unsigned i)
{
    Enc &x = *(Enc *)p;
    x.cb[i] = encryptBallot(*x.pb[i], *x.e.internal, *x.e.context, *x.code[i], dup(x.nonce[i]), 5, true);
}
ENTRY(h_encrypt_threads)
{
    auto x = make_unique<Enc>();
    x->e = mkElection(mkManifest({{"c0", "geo-0", 0, 1, 1}}, {{"style", {"geo-0"}}}));
    unsigned n = (unsigned)eg_def("threads", 2);
    for (unsigned i = 0; i < n; i++) {
        UV<PlaintextBallotSelection> ps; ps.push_back(make_unique<PlaintextBallotSelection>(selId("c0", 0), i & 1, false, ""));
        UV<PlaintextBallotContest> pcs; pcs.push_back(make_unique<PlaintextBallotContest>("c0", std::move(ps)));
        x->pb[i] = make_unique<PlaintextBallot>(string("ballot-") + (char)('0' + i), "style", std::move(pcs));
        x->code[i] = qvar("code"); x->nonce[i] = qvar("nonce");
    }
    { // (lazily made tables of the stream library and constants)
        UV<PlaintextBallotContest> none; PlaintextBallot b("warm", "style", std::move(none));
        encryptBallot(b, *x->e.internal, *x->e.context, *x->code[0], dup(x->nonce[0]), 5, true);
    }
    unsigned size = eg_choice(2, "size");
    if (size) { Pool::init(1 + 2 * eg_choice(2, "more")); Pool::populate(*x->e.key); }
    eg_preemptions((int)eg_def("preemptions", 1));
    eg_threads(n, encOp, x.get());
    vector<EP> pads;
    auto pad = [&](const ElementModP &p) { for (auto &y : pads) MUST(!peq(p, *y), "no encryption or proof commitment is shared by ballots encrypted at the same time"); pads.push_back(make_unique<ElementModP>(p)); };
    for (unsigned i = 0; i < n; i++) {
        auto &cb = *x->cb[i];
        MUST(cb.isValidEncryption(*x->e.internal->getManifestHash(), *x->e.key, *x->e.context->getCryptoExtendedBaseHash()), "a ballot encrypted while others are is valid");
        for (auto &c : cb.getContests()) {
            pad(*c.get().getHashedElGamalCiphertext()->getPad()); pad(*c.get().getProof()->getPad());
            unsigned k = 0;
            for (auto &s : c.get().getSelections()) {
                pad(*s.get().getCiphertext()->getPad()); pad(*s.get().getProof()->getProofZeroPad()); pad(*s.get().getProof()->getProofOnePad());
                MUST(decryptsTo(*s.get().getCiphertext(), *x->e.secret, k ? 1 - (i & 1) : (i & 1)), "and holds the voter's choices");
                k++;
            }
        }
    }
    eg_reach(size ? 1 : 2);
}
