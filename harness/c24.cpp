// C24: copies are faithful and independent.
#include "dump.hpp"
using namespace electionguard;
static string sym(const char *n) { char c[2]; eg_sym_bytes(c, 2, n); return string(c, 2); }
static uint64_t num(const char *n) { uint64_t v; eg_sym(&v, 8, n); return v; }
static unique_ptr<ElGamalCiphertext> ct(const char *n) { string a = string(n) + ".a", b = string(n) + ".b"; return make_unique<ElGamalCiphertext>(pvar(a.c_str()), pvar(b.c_str())); }
static unique_ptr<DisjunctiveChaumPedersenProof> dproof() { return make_unique<DisjunctiveChaumPedersenProof>(pvar("a0"), pvar("b0"), pvar("a1"), pvar("b1"), qvar("c0"), qvar("c1"), qvar("c"), qvar("v0"), qvar("v1")); }
static unique_ptr<ConstantChaumPedersenProof> cproof() { return make_unique<ConstantChaumPedersenProof>(pvar("ca"), pvar("cb"), qvar("cc"), qvar("cv"), num("constant")); }
static unique_ptr<HashedElGamalCiphertext> hashed() { uint8_t b[6]; eg_sym_bytes(b, 6, "bytes"); return make_unique<HashedElGamalCiphertext>(pvar("hpad"), vector<uint8_t>(b, b + 4), vector<uint8_t>(b + 4, b + 6)); }
static bool opt(const char *n) { return eg_choice(2, n); }
static unique_ptr<CiphertextBallotSelection> csel(bool rich) { return make_unique<CiphertextBallotSelection>(sym("id"), num("seq"), *qvar("desc"), ct("ct"), true, rich ? qvar("nonce") : nullptr, qvar("hash"), rich ? dproof() : nullptr, rich ? ct("ext") : nullptr); }
static unique_ptr<CiphertextBallotContest> ccon(bool rich)
{
    UV<CiphertextBallotSelection> v; v.push_back(csel(rich)); v.push_back(csel(!rich));
    return make_unique<CiphertextBallotContest>(sym("cid"), num("cseq"), *qvar("cdesc"), std::move(v), rich ? qvar("cnonce") : nullptr, ct("acc"), qvar("chash"), rich ? cproof() : nullptr, rich ? hashed() : nullptr);
}
static unique_ptr<PlaintextBallotContest> pcon() { UV<PlaintextBallotSelection> v; v.push_back(make_unique<PlaintextBallotSelection>(sym("sid"), num("vote"), opt("ph"), sym("writein"))); v.push_back(make_unique<PlaintextBallotSelection>("two", 0)); return make_unique<PlaintextBallotContest>(sym("pid"), std::move(v)); }
static unique_ptr<InternationalizedText> text() { UV<Language> t; t.push_back(make_unique<Language>(sym("v"), sym("l"))); t.push_back(make_unique<Language>("b", "c")); return make_unique<InternationalizedText>(std::move(t)); }
static unique_ptr<ContactInformation> contact() { UV<AnnotatedString> e, p; e.push_back(make_unique<AnnotatedString>(sym("ea"), sym("ev"))); p.push_back(make_unique<AnnotatedString>(sym("pa"), sym("pv"))); p.push_back(make_unique<AnnotatedString>("x", "y")); return make_unique<ContactInformation>(vector<string>{sym("l0"), "l1"}, std::move(e), std::move(p), sym("cn")); }
static unique_ptr<ContestDescription> cdesc()
{
    UV<SelectionDescription> v; v.push_back(make_unique<SelectionDescription>(sym("sid"), sym("cand"), 9)); v.push_back(make_unique<SelectionDescription>("s", "c", 3));
    return make_unique<ContestDescription>(sym("id"), sym("district"), num("seq"), VoteVariationType::approval, num("elected"), num("allowed"), sym("name"), opt("title") ? text() : nullptr, opt("subtitle") ? text() : nullptr, std::move(v), vector<string>{sym("party")});
}
// one copy made by construction, one by assignment; the original is then destroyed
template <class T> void check(unique_ptr<T> x, unique_ptr<T> other)
{
    string want = show(*x);
    auto c = make_unique<T>(*x);
    MUST(show(*c) == want, "a copy equals the original");
    MUST(show(*x) == want, "copying leaves the original as it was");
    *other = *x;
    MUST(show(*other) == want, "an assigned object equals the original");
    MUST(show(*x) == want, "assigning leaves the original as it was");
    auto d = make_unique<T>(*c);
    x.reset();
    MUST(show(*c) == want && show(*other) == want, "copies outlive the original");
    c.reset(); other.reset();
    MUST(show(*d) == want, "copies of copies are independent");
    eg_reach(1);
}
// the same for types that can be copied by construction only
template <class T> void checkCtor(unique_ptr<T> x)
{
    string want = show(*x);
    auto c = make_unique<T>(*x);
    MUST(show(*c) == want && show(*x) == want, "a copy equals the original and leaves it as it was");
    x.reset();
    MUST(show(*c) == want, "the copy outlives the original");
    eg_reach(1);
}
static void dump(Dump &d, const ElementModQ *x) { d.q("q", x); d.t("hex", x->toHex()); }
static void dump(Dump &d, const ElementModP *x) { d.p("p", x); d.t("hex", x->toHex()); }
static void dump(Dump &d, const ElGamalKeyPair *x) { d.q("s", const_cast<ElGamalKeyPair *>(x)->getSecretKey()); d.p("k", const_cast<ElGamalKeyPair *>(x)->getPublicKey()); }
static void dump(Dump &d, const Triple *t) { auto x = const_cast<Triple *>(t); d.q("e", x->get_exp().get()); d.p("g", x->get_g_to_exp().get()); d.p("k", x->get_pubkey_to_exp().get()); }
static void dump(Dump &d, const Quadruple *t) { auto x = const_cast<Quadruple *>(t); d.q("e1", x->get_exp1().get()); d.q("e2", x->get_exp2().get()); d.p("g", x->get_g_to_exp1().get()); d.p("k", x->get_g_to_exp2_mult_by_pubkey_to_exp1().get()); }
static void dump(Dump &d, const TwoTriplesAndAQuadruple *t) { auto x = const_cast<TwoTriplesAndAQuadruple *>(t); dump(d, x->get_triple1().get()); dump(d, x->get_triple2().get()); dump(d, x->get_quad().get()); }
static void dump(Dump &d, const SubmittedBallot *x) { dump(d, static_cast<const CiphertextBallot *>(x), true); d.n("state", (uint64_t)x->getState()); }
static unique_ptr<Triple> tri(const char *n) { return make_unique<Triple>(qvar(n), pvar((string(n) + ".g").c_str()), pvar((string(n) + ".k").c_str())); }
static unique_ptr<Quadruple> quad() { return make_unique<Quadruple>(qvar("e1"), qvar("e2"), pvar("qg"), pvar("qk")); }
static unique_ptr<TwoTriplesAndAQuadruple> two() { return make_unique<TwoTriplesAndAQuadruple>(tri("t1"), tri("t2"), quad()); }
ENTRY(h_copies)
{
    switch (eg_choice(26, "type")) {
    case 0: check(qvar("q"), qconst(1)); break;
    case 1: { auto p = pvar("p"); p->setIsFixedBase(opt("fixed")); check(std::move(p), gen()); } break;
    case 2: check(make_unique<ElGamalKeyPair>(qvar("s"), pvar("k")), make_unique<ElGamalKeyPair>(qconst(1), gen())); break;
    case 3: check(ct("x"), ct("y")); break;
    case 4: check(hashed(), make_unique<HashedElGamalCiphertext>(gen(), vector<uint8_t>{}, vector<uint8_t>{})); break;
    case 5: check(dproof(), make_unique<DisjunctiveChaumPedersenProof>(gen(), gen(), gen(), gen(), qconst(1), qconst(1), qconst(1), qconst(1), qconst(1))); break;
    case 6: check(cproof(), make_unique<ConstantChaumPedersenProof>(gen(), gen(), qconst(1), qconst(2), 3)); break;
    case 7: check(make_unique<PlaintextBallotSelection>(sym("sid"), num("vote"), opt("ph"), sym("writein")), make_unique<PlaintextBallotSelection>("a", 1)); break;
    case 8: check(pcon(), make_unique<PlaintextBallotContest>("a", UV<PlaintextBallotSelection>())); break;
    case 9: { UV<PlaintextBallotContest> v; v.push_back(pcon()); check(make_unique<PlaintextBallot>(sym("bid"), sym("style"), std::move(v)), make_unique<PlaintextBallot>("a", "b", UV<PlaintextBallotContest>())); } break;
    case 10: check(csel(opt("rich")), csel(true)); break;
    case 11: check(ccon(opt("rich")), ccon(true)); break;
    case 12: { UV<CiphertextBallotContest> v; v.push_back(ccon(true)); v.push_back(ccon(false)); UV<CiphertextBallotContest> w; w.push_back(ccon(true));
               check(make_unique<CiphertextBallot>(sym("bid"), sym("style"), *qvar("m"), qvar("seed"), std::move(v), qvar("code"), num("time"), opt("rich") ? qvar("bn") : nullptr, qvar("bh")), make_unique<CiphertextBallot>("a", "b", *qconst(1), qconst(2), std::move(w), qconst(3), 4, qconst(5), qconst(6))); } break;
    case 13: { UV<CiphertextBallotContest> v; v.push_back(ccon(true)); v.push_back(ccon(false));
               auto b = make_unique<CiphertextBallot>(sym("bid"), sym("style"), *qvar("m"), qvar("seed"), std::move(v), qvar("code"), num("time"), opt("rich") ? qvar("bn") : nullptr, qvar("bh"));
               auto st = eg_choice(2, "state") ? BallotBoxState::cast : BallotBoxState::spoiled;
               auto text = [](const CiphertextBallot &x) { Dump d; d.nonces = false; dump(d, &x); return d.s; };  // (C23: its nonces are not kept)
               string want = text(*b); auto s = SubmittedBallot::from(*b, st); b.reset();
               MUST(text(*s) == want && s->getState() == st, "a submitted ballot is the encrypted ballot with its state"); eg_reach(1); } break;
    case 14: check(make_unique<AnnotatedString>(sym("a"), sym("b")), make_unique<AnnotatedString>("", "")); break;
    case 15: check(make_unique<Language>(sym("a"), sym("b")), make_unique<Language>("", "")); break;
    case 16: check(text(), make_unique<InternationalizedText>(UV<Language>())); break;
    case 17: check(contact(), make_unique<ContactInformation>("n")); break;
    case 18: check(make_unique<GeopoliticalUnit>(sym("id"), sym("name"), ReportingUnitType::ward, opt("contact") ? contact() : nullptr), make_unique<GeopoliticalUnit>("a", "b", ReportingUnitType::city)); break;
    case 19: check(make_unique<BallotStyle>(sym("id"), vector<string>{sym("u"), "v"}, vector<string>{sym("p")}, sym("i")), make_unique<BallotStyle>("a", vector<string>{})); break;
    case 20: check(make_unique<Party>(sym("id"), opt("name") ? text() : nullptr, sym("ab"), sym("col"), sym("logo")), make_unique<Party>("a")); break;
    case 21: check(make_unique<Candidate>(sym("id"), opt("name") ? text() : nullptr, sym("party"), sym("img"), opt("w")), make_unique<Candidate>("a", false)); break;
    case 22: check(make_unique<SelectionDescription>(sym("id"), sym("cand"), num("seq")), make_unique<SelectionDescription>("a", "b", 1)); break;
    case 23: check(cdesc(), cdesc()); break;
    case 24: { UV<SelectionDescription> a, b; a.push_back(make_unique<SelectionDescription>(sym("phid"), sym("phc"), num("phs"))); check(make_unique<ContestDescriptionWithPlaceholders>(*cdesc(), std::move(a)), make_unique<ContestDescriptionWithPlaceholders>(*cdesc(), std::move(b))); } break;
    case 25: switch (eg_choice(3, "buffer")) { case 0: check(tri("t"), tri("u")); break; case 1: check(quad(), make_unique<Quadruple>(qconst(1), qconst(2), gen(), gen())); break; default: check(two(), make_unique<TwoTriplesAndAQuadruple>(tri("x"), tri("y"), quad())); } break;
    }
}
// clones and moves
ENTRY(h_clones)
{
#define CLONE(x) { auto x_ = (x); string want = show(*x_); auto c = x_->clone(); MUST(show(*c) == want && show(*x_) == want, "a clone equals the original"); x_.reset(); MUST(show(*c) == want, "a clone outlives the original"); eg_reach(1); }
#define MOVED(T, x) { auto x_ = (x); string want = show(*x_); T c(std::move(*x_)); MUST(show(c) == want, "a moved object keeps its value"); x_.reset(); MUST(show(c) == want, "and outlives its source"); eg_reach(1); }
    switch (eg_choice(22, "type")) {
    case 0: { uint64_t l[4]; eg_t_qvar(l, "q"); EQ e = make_unique<ElementModQ>(l); CLONE(std::move(e)) } break;
    case 1: { auto p = pvar("p"); p->setIsFixedBase(opt("fixed")); CLONE(std::move(p)) } break;
    case 2: CLONE(ct("x")) break;
    case 3: CLONE(hashed()) break;
    case 4: CLONE(dproof()) break;
    case 5: CLONE(make_unique<PlaintextBallotSelection>(sym("sid"), num("vote"), opt("ph"), sym("writein"))) break;
    case 6: CLONE(tri("t")) break;
    case 7: CLONE(quad()) break;
    case 8: CLONE(two()) break;
    case 9: MOVED(Triple, tri("t")) break;
    case 10: MOVED(Quadruple, quad()) break;
    case 11: MOVED(TwoTriplesAndAQuadruple, two()) break;
    case 12: MOVED(AnnotatedString, make_unique<AnnotatedString>(sym("a"), sym("b"))) break;
    case 13: MOVED(Language, make_unique<Language>(sym("a"), sym("b"))) break;
    case 14: MOVED(InternationalizedText, text()) break;
    case 15: MOVED(ContactInformation, contact()) break;
    case 16: MOVED(GeopoliticalUnit, make_unique<GeopoliticalUnit>(sym("id"), sym("name"), ReportingUnitType::ward, contact())) break;
    case 17: MOVED(BallotStyle, make_unique<BallotStyle>(sym("id"), vector<string>{sym("u"), "v"}, vector<string>{sym("p")}, sym("i"))) break;
    case 18: MOVED(Party, make_unique<Party>(sym("id"), text(), sym("ab"), sym("col"), sym("logo"))) break;
    case 19: MOVED(Candidate, make_unique<Candidate>(sym("id"), text(), sym("party"), sym("img"), opt("w"))) break;
    case 20: MOVED(ContestDescription, cdesc()) break;
    case 21: { UV<SelectionDescription> a; a.push_back(make_unique<SelectionDescription>(sym("phid"), sym("phc"), num("phs"))); MOVED(ContestDescriptionWithPlaceholders, make_unique<ContestDescriptionWithPlaceholders>(*cdesc(), std::move(a))) } break;
    }
}
