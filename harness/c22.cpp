// C22: what is written in any format reads back the same.  C23: nonces are withheld.
#include "dump.hpp"
#include <stdexcept>
using namespace electionguard;
// Supplies the fields of an object; the one numbered `at` is symbolic, the others are distinct constants.
struct Gen {
    uint32_t at; bool full = false; uint32_t k = 0; bool big = false;
    bool hit() { return k++ == at; }
    string s(bool optional = false)
    {
        if (!hit()) return string("t") + Dump::dec(k);
        if (!full) switch (eg_choice(optional ? 3 : 2, "text")) {
        case 0: { char c[2] = {'a'}; eg_sym_bytes(c + 1, 1, "char"); eg_assume(c[1] >= 'A' && c[1] <= 'Z'); return string(c, 2); }
        case 1: return "\"\\/\n\x01 \xe2\x82\xac";
        default: return "";
        }
        switch (eg_choice(optional ? 4 : 3, "text")) {
        case 0: { char c[3] = {'a', 0, 'z'}; eg_sym_bytes(c + 1, 1, "char"); eg_assume((c[1] & 0x80) == 0); return string(c, 3); }   // any ASCII character
        case 1: { char c[2]; eg_sym_bytes(c, 2, "utf8"); eg_assume((uint8_t)c[0] >= 0xc2 && (uint8_t)c[0] <= 0xdf && ((uint8_t)c[1] & 0xc0) == 0x80); return string(c, 2); }
        case 2: return string(eg_choice(2, "long") ? 300 : 32, 'x') + "\xe2\x82\xac\xf0\x9f\x97\xb3";
        default: return "";
        }
    }
    uint64_t n()
    {
        if (!hit()) return 3 + k;
        static const uint64_t base[] = {0, 0x7f00, 0xff00, 0xffffff00, 0x100000000, 0x7fffffffffffff00, 0x8000000000000000, 0xffffffffffffff00};
uint32_t m = eg_choice(full ? 8 : 3, "magnitude"); if (!full) m = m == 0 ? 0 : m + 5;
        uint8_t b; eg_sym_bytes(&b, 1, "number"); eg_assume(b < eg_def("numbers", 8) || b >= 256 - eg_def("numbers", 8)); big = m >= 6; return base[m] + b;
    }
    bool flag() { if (!hit()) return k & 1; return eg_choice(2, "flag"); }
    bool opt() { if (!hit()) return true; return eg_choice(2, "present"); }
    uint32_t kind(uint32_t n) { if (!hit()) return 1; return eg_choice(n, "kind"); }
    uint32_t len(uint32_t n) { if (!hit()) return 2; return eg_choice(n, "count"); }
    void bytes(uint8_t *b, size_t n)   // big endian
    {
        bool h = hit(); uint32_t zeros = h ? eg_choice(3, "zeros") : 0;
        if (zeros == 2) zeros = (uint32_t)n - 1;
        for (size_t i = 0; i < n; i++) b[i] = i < zeros ? 0 : (uint8_t)(0x11 + 7 * k + 13 * i);
        if (n > 1 && b[0] > 0xf0) b[0] -= 0x20;
        if (h) { uint8_t c[2]; eg_sym_bytes(c, 2, "byte"); if (zeros < n - 1) { b[zeros] = c[0]; eg_assume(c[0] < 0xf0); } b[n - 1] = c[1]; }
    }
    EQ q() { uint8_t b[32]; bytes(b, 32); QL4 l; for (int i = 0; i < 4; i++) { l[i] = 0; for (int j = 0; j < 8; j++) l[i] = l[i] << 8 | b[(3 - i) * 8 + j]; } return mkQ(l); }
    EP p() { uint8_t b[512]; bytes(b, 512); PL64 l; for (int i = 0; i < 64; i++) { l[i] = 0; for (int j = 0; j < 8; j++) l[i] = l[i] << 8 | b[(63 - i) * 8 + j]; } return mkP(l); }
};
// write and read in one of the formats
#define VIA3(T) static unique_ptr<T> via(const T &x, uint32_t f) { return f == 0 ? T::fromJson(x.toJson()) : f == 1 ? T::fromBson(x.toBson()) : T::fromMsgPack(x.toMsgPack()); }
#define VIA2(T) static unique_ptr<T> via(const T &x, uint32_t f) { return f == 0 ? T::fromJson(x.toJson()) : T::fromBson(x.toBson()); }
VIA3(PlaintextBallot) VIA3(Manifest) VIA3(InternalManifest) VIA3(SubmittedBallot) VIA3(CompactPlaintextBallot) VIA3(CompactCiphertextBallot) VIA2(CiphertextElectionContext) VIA2(EncryptionDevice)
static unique_ptr<CiphertextBallot> via(const CiphertextBallot &x, uint32_t f) { return f == 0 ? CiphertextBallot::fromJson(x.toJson(true)) : f == 1 ? CiphertextBallot::fromBson(x.toBson(true)) : CiphertextBallot::fromMsgPack(x.toMsgPack(true)); }
static void dump(Dump &d, const Manifest *x)
{
    d.t("scope", x->getElectionScopeId()); d.n("type", (uint64_t)x->getElectionType()); d.n("start", (uint64_t)std::chrono::system_clock::to_time_t(x->getStartDate())); d.n("end", (uint64_t)std::chrono::system_clock::to_time_t(x->getEndDate()));
    auto g = x->getGeopoliticalUnits(); d.n("units", g.size()); for (auto &y : g) dump(d, &y.get());
    auto p = x->getParties(); d.n("parties", p.size()); for (auto &y : p) dump(d, &y.get());
    auto c = x->getCandidates(); d.n("candidates", c.size()); for (auto &y : c) dump(d, &y.get());
    auto o = x->getContests(); d.n("contests", o.size()); for (auto &y : o) dump(d, &y.get());
    auto b = x->getBallotStyles(); d.n("styles", b.size()); for (auto &y : b) dump(d, &y.get());
    dump(d, x->getName()); dump(d, x->getContactInformation());
}
static void dump(Dump &d, const InternalManifest *x)
{
    auto g = x->getGeopoliticalUnits(); d.n("units", g.size()); for (auto &y : g) dump(d, &y.get());
    auto c = x->getCandidates(); d.n("candidates", c.size()); for (auto &y : c) dump(d, &y.get());
    auto o = x->getContests(); d.n("contests", o.size()); for (auto &y : o) dump(d, &y.get());
    auto b = x->getBallotStyles(); d.n("styles", b.size()); for (auto &y : b) dump(d, &y.get());
    d.q("hash", x->getManifestHash());
}
static void dump(Dump &d, const SubmittedBallot *x) { dump(d, static_cast<const CiphertextBallot *>(x), true); d.n("state", (uint64_t)x->getState()); }
static void dump(Dump &d, const EncryptionDevice *x) { d.n("device", x->getDeviceUuid()); d.n("session", x->getSessionUuid()); d.n("launch", x->getLaunchCode()); d.t("location", x->getLocation()); }
static void dump(Dump &d, const CiphertextElectionContext *x)
{
    d.n("n", x->getNumberOfGuardians()); d.n("k", x->getQuorum()); d.p("key", x->getElGamalPublicKey()); d.q("commitment", x->getCommitmentHash()); d.q("manifest", x->getManifestHash()); d.q("base", x->getCryptoBaseHash()); d.q("ext", x->getCryptoExtendedBaseHash());
    d.n("over", x->getConfiguration()->getAllowOverVotes()); d.n("max", x->getConfiguration()->getMaxNumberOfBallots());
    auto e = x->getExtendedData(); d.n("extended", e.size()); for (auto k : {"k1", "k2"}) if (e.count(k)) { d.t("key", k); d.t("value", e[k]); }
}
template <class T, class B> void roundTrip(B build, uint32_t formats = 3, bool full = false, bool nonces = true)
{
    Gen count{~0u}; (void)build(count);
    uint32_t f = eg_choice(formats, "format"), part = (uint32_t)eg_def("part", 0), parts = (uint32_t)eg_def("parts", 1), lo = count.k * part / parts, hi = count.k * (part + 1) / parts;
    Gen g{lo + eg_choice(hi - lo, "field"), full};
    unique_ptr<T> x = build(g);
    auto text = [&](const T &o) { Dump d; d.nonces = nonces; dump(d, &o); return d.s; };
    string want = text(*x);
    unique_ptr<T> y;
    if (g.big && f == 1) { try { y = via(*x, f); } catch (const std::exception &) { eg_reach(2); return; } }   // BSON has no numbers of 2^63 or more: refused
    else y = via(*x, f);
    MUST(text(*y) == want, "reading what was written gives the same object");
    MUST(text(*x) == want, "writing leaves the object as it was");
    eg_reach(1);
}
static unique_ptr<PlaintextBallotContest> pcon(Gen &g)
{
    UV<PlaintextBallotSelection> v; uint32_t n = g.len(4);
    for (uint32_t i = 0; i < n; i++) { string id = g.s(); uint64_t vote = g.n(); bool ph = g.flag(); v.push_back(make_unique<PlaintextBallotSelection>(id, vote, ph, g.s(true))); }
    return make_unique<PlaintextBallotContest>(g.s(), std::move(v));
}
static unique_ptr<PlaintextBallot> plain(Gen &g)
{
    UV<PlaintextBallotContest> v; uint32_t n = g.len(3); for (uint32_t i = 0; i < n; i++) v.push_back(pcon(g));
    string id = g.s(); return make_unique<PlaintextBallot>(id, g.s(), std::move(v));
}
ENTRY(h_plain) { roundTrip<PlaintextBallot>(plain, 3, true); }
static unique_ptr<CompactPlaintextBallot> compact(Gen &g)
{
    vector<uint64_t> v; vector<string> w; uint32_t n = g.len(4), m = g.len(4);
    for (uint32_t i = 0; i < n; i++) v.push_back(g.n()); for (uint32_t i = 0; i < m; i++) w.push_back(g.s(true));
    string id = g.s(); return make_unique<CompactPlaintextBallot>(id, g.s(), v, w);
}
static BallotBoxState state(Gen &g) { static const BallotBoxState s[] = {BallotBoxState::cast, BallotBoxState::spoiled, BallotBoxState::unknown}; return s[g.kind(3)]; }
static unique_ptr<CompactCiphertextBallot> compactCipher(Gen &g) { auto p = compact(g); auto st = state(g); auto seed = g.q(), code = g.q(); uint64_t t = g.n(); return make_unique<CompactCiphertextBallot>(std::move(p), st, std::move(seed), std::move(code), t, g.q()); }
static unique_ptr<EncryptionDevice> device(Gen &g) { uint64_t a = g.n(), b = g.n(), c = g.n(); return make_unique<EncryptionDevice>(a, b, c, g.s(true)); }
static unique_ptr<CiphertextElectionContext> context(Gen &g)
{
    uint64_t n = g.n(), k = g.n(); auto key = g.p(); key->setIsFixedBase(true); auto c = g.q(), m = g.q(), b = g.q(), e = g.q(); bool over = g.flag(); auto conf = make_unique<ContextConfiguration>(over, g.n());
    std::unordered_map<string, string> ext; uint32_t l = g.len(3); if (l > 0) ext["k1"] = g.s(true); if (l > 1) ext["k2"] = g.s(true);
    return make_unique<CiphertextElectionContext>(n, k, std::move(key), std::move(c), std::move(m), std::move(b), std::move(e), std::move(conf), ext);
}
ENTRY(h_compact) { roundTrip<CompactPlaintextBallot>(compact); }
ENTRY(h_compact_cipher) { roundTrip<CompactCiphertextBallot>(compactCipher); }
ENTRY(h_device) { roundTrip<EncryptionDevice>(device, 2); }
ENTRY(h_context) { roundTrip<CiphertextElectionContext>(context, 2); }
// encrypted ballots
static unique_ptr<ElGamalCiphertext> ct(Gen &g) { auto a = g.p(); return make_unique<ElGamalCiphertext>(std::move(a), g.p()); }
static vector<uint8_t> raw(Gen &g, size_t n) { vector<uint8_t> b(n); g.bytes(b.data(), n); return b; }
static unique_ptr<CiphertextBallotSelection> csel(Gen &g, uint64_t base, EQ nonce)
{
    string id = g.s(); uint64_t seq = base; auto dh = g.q(); auto c = ct(g); bool ph = g.flag(); auto hash = g.q();
    auto a0 = g.p(), b0 = g.p(), a1 = g.p(), b1 = g.p(); auto c0 = g.q(), c1 = g.q(), cc = g.q(), v0 = g.q(), v1 = g.q();
    return make_unique<CiphertextBallotSelection>(id, seq, *dh, std::move(c), ph, std::move(nonce), std::move(hash), make_unique<DisjunctiveChaumPedersenProof>(std::move(a0), std::move(b0), std::move(a1), std::move(b1), std::move(c0), std::move(c1), std::move(cc), std::move(v0), std::move(v1)));
}
static unique_ptr<CiphertextBallotContest> ccon(Gen &g, uint64_t base, UV<CiphertextBallotSelection> v, EQ nonce)
{
    string id = g.s(); auto dh = g.q(); auto acc = ct(g); auto hash = g.q(); auto a = g.p(), b = g.p(); auto c = g.q(), r = g.q(); uint64_t k = g.n(); auto hp = g.p(); auto hd = raw(g, 8), hm = raw(g, 4);
    return make_unique<CiphertextBallotContest>(id, base, *dh, std::move(v), std::move(nonce), std::move(acc), std::move(hash), make_unique<ConstantChaumPedersenProof>(std::move(a), std::move(b), std::move(c), std::move(r), k), make_unique<HashedElGamalCiphertext>(std::move(hp), hd, hm));
}
static unique_ptr<CiphertextBallotContest> ccon(Gen &g, uint64_t base, uint32_t nsel)
{
    UV<CiphertextBallotSelection> v; for (uint32_t i = 0; i < nsel; i++) { auto n = g.q(); v.push_back(csel(g, 5 + i, std::move(n))); }
    auto n = g.q(); return ccon(g, base, std::move(v), std::move(n));
}
static unique_ptr<CiphertextBallot> cipher(Gen &g)
{
    UV<CiphertextBallotContest> v; v.push_back(ccon(g, 1, 2)); { Gen none{~0u}; none.k = 90; v.push_back(ccon(none, 2, 1)); }
    string id = g.s(), style = g.s(); auto m = g.q(), seed = g.q(), code = g.q(), n = g.q(), h = g.q(); uint64_t t = g.n();
    return make_unique<CiphertextBallot>(id, style, *m, std::move(seed), std::move(v), std::move(code), t, std::move(n), std::move(h));
}
ENTRY(h_cipher) { roundTrip<CiphertextBallot>(cipher); }
static unique_ptr<SubmittedBallot> submitted(Gen &g) { auto b = cipher(g); return SubmittedBallot::from(*b, state(g)); }
ENTRY(h_submitted) { roundTrip<SubmittedBallot>(submitted, 3, false, false); }
// manifests
static unique_ptr<InternationalizedText> text(Gen &g) { UV<Language> t; uint32_t n = g.len(3); for (uint32_t i = 0; i < n; i++) { string v = g.s(true); t.push_back(make_unique<Language>(v, g.s(true))); } return make_unique<InternationalizedText>(std::move(t)); }
static unique_ptr<ContactInformation> contact(Gen &g)
{
    UV<AnnotatedString> e, p; vector<string> a; uint32_t n = g.len(3); for (uint32_t i = 0; i < n; i++) a.push_back(g.s(true));
    n = g.len(3); for (uint32_t i = 0; i < n; i++) { string v = g.s(true); e.push_back(make_unique<AnnotatedString>(v, g.s(true))); }
    n = g.len(3); for (uint32_t i = 0; i < n; i++) { string v = g.s(true); p.push_back(make_unique<AnnotatedString>(v, g.s(true))); }
    return make_unique<ContactInformation>(a, std::move(e), std::move(p), g.s(true));
}
static unique_ptr<GeopoliticalUnit> unit(Gen &g) { string id = g.s(true), name = g.s(true); auto t = (ReportingUnitType)g.kind(29); return make_unique<GeopoliticalUnit>(id, name, t, g.opt() ? contact(g) : nullptr); }
static unique_ptr<Party> party(Gen &g) { string id = g.s(true); auto n = g.opt() ? text(g) : nullptr; string a = g.s(true), c = g.s(true); return make_unique<Party>(id, std::move(n), a, c, g.s(true)); }
static unique_ptr<Candidate> candidate(Gen &g) { string id = g.s(true); auto n = g.opt() ? text(g) : nullptr; string a = g.s(true), c = g.s(true); return make_unique<Candidate>(id, std::move(n), a, c, g.flag()); }
static UV<SelectionDescription> sels(Gen &g, uint32_t max) { UV<SelectionDescription> v; uint32_t n = g.len(max); for (uint32_t i = 0; i < n; i++) { string id = g.s(true); v.push_back(make_unique<SelectionDescription>(id, g.s(true), 7 + i)); } return v; }
static unique_ptr<BallotStyle> style(Gen &g) { string id = g.s(true); vector<string> u, p; uint32_t n = g.len(3); for (uint32_t i = 0; i < n; i++) u.push_back(g.s(true)); n = g.len(3); for (uint32_t i = 0; i < n; i++) p.push_back(g.s(true)); return make_unique<BallotStyle>(id, u, p, g.s(true)); }
static unique_ptr<ContestDescription> contest(Gen &g)
{
    string id = g.s(true), d = g.s(true); uint64_t seq = g.n(); auto t = (VoteVariationType)g.kind(13); uint64_t e = g.n(), a = g.n(); string name = g.s(true); auto ti = g.opt() ? text(g) : nullptr, su = g.opt() ? text(g) : nullptr;
    return make_unique<ContestDescription>(id, d, seq, t, e, a, name, std::move(ti), std::move(su), sels(g, 3));
}
// one section of the manifest at a time is rich, the others are small
static unique_ptr<Manifest> manifest(Gen &g, uint32_t section)
{
    Gen none{~0u}; none.k = 100; auto G = [&](uint32_t s) -> Gen & { return s == section ? g : none; };
    UV<GeopoliticalUnit> geo; UV<Party> parties; UV<Candidate> cands; UV<ContestDescription> contests; UV<BallotStyle> styles;
#define FILL(s, v, T) { uint32_t n = s == section ? G(s).len(3) : 1; for (uint32_t i = 0; i < n; i++) v.push_back(T(i ? none : G(s))); }
    FILL(1, geo, unit) FILL(2, parties, party) FILL(3, cands, candidate) FILL(4, contests, contest) FILL(5, styles, style)
    Gen &h = G(0); string scope = h.s(true); auto type = (ElectionType)h.kind(8);
    static const long days[] = {0, 1600000000, 951782400, 4102444799}; long t0 = days[h.kind(4)], t1 = days[h.kind(4)];
    auto name = h.opt() ? text(h) : nullptr; auto ci = h.opt() ? contact(h) : nullptr;
    return make_unique<Manifest>(scope, type, std::chrono::system_clock::from_time_t(t0), std::chrono::system_clock::from_time_t(t1), std::move(geo), std::move(parties), std::move(cands), std::move(contests), std::move(styles), std::move(name), std::move(ci));
}
ENTRY(h_manifest) { uint32_t s = eg_choice(6, "section"); roundTrip<Manifest>([&](Gen &g) { return manifest(g, s); }); }
static unique_ptr<InternalManifest> internal(Gen &g, uint32_t section)
{
    Gen none{~0u}; none.k = 100; auto G = [&](uint32_t s) -> Gen & { return s == section ? g : none; };
    UV<GeopoliticalUnit> geo; UV<Candidate> cands; UV<ContestDescriptionWithPlaceholders> contests; UV<BallotStyle> styles;
    FILL(1, geo, unit) FILL(2, cands, candidate) FILL(3, styles, style)
    uint32_t n = section == 0 ? g.len(3) : 1; for (uint32_t i = 0; i < n; i++) { Gen &h = i ? none : G(0); auto c = contest(h); contests.push_back(make_unique<ContestDescriptionWithPlaceholders>(*c, sels(h, 3))); }
    return make_unique<InternalManifest>(std::move(geo), std::move(cands), std::move(contests), std::move(styles), *G(0).q());
}
ENTRY(h_internal) { uint32_t s = eg_choice(4, "section"); roundTrip<InternalManifest>([&](Gen &g) { return internal(g, s); }); }
// ------------------------------------------------------------------ C23: nonces are withheld
// Two ballots that differ in their nonces only.
static unique_ptr<CiphertextBallot> withNonces(uint32_t at, bool other)
{
    uint32_t k = 0; auto nonce = [&]() -> EQ { QL4 l{1 + k, 2, 3, other ? 9u : 5u}; if (k++ == at && other) { if (eg_choice(2, "absent")) return nullptr; eg_sym_bytes(&l, 32, "nonce"); eg_assume(l[3] < 0x8000000000000000ull); } return mkQ(l); };
    Gen g{~0u}; UV<CiphertextBallotContest> v;
    for (int c = 0; c < 2; c++) {
        UV<CiphertextBallotSelection> s; for (int i = 0; i < 2 - c; i++) s.push_back(csel(g, 5 + i, nonce()));
        v.push_back(ccon(g, c, std::move(s), nonce()));
    }
    auto m = g.q(), seed = g.q(), code = g.q(), h = g.q();
    return make_unique<CiphertextBallot>("b", "s", *m, std::move(seed), std::move(v), std::move(code), 77, nonce(), std::move(h));
}
static string written(const CiphertextBallot &b, uint32_t f, uint32_t how)
{
    auto bytes = [](const vector<uint8_t> &v) { return string(v.begin(), v.end()); };
    if (how == 2) { auto s = SubmittedBallot::from(b, BallotBoxState::cast); return f == 0 ? s->toJson() : f == 1 ? bytes(s->toBson()) : bytes(s->toMsgPack()); }
    if (how == 3) { auto s = SubmittedBallot::from(b, BallotBoxState::spoiled); const CiphertextBallot &c = *s; return f == 0 ? c.toJson() : f == 1 ? bytes(c.toBson()) : bytes(c.toMsgPack()); }
    if (how == 1) return f == 0 ? b.toJson(false) : f == 1 ? bytes(b.toBson(false)) : bytes(b.toMsgPack(false));
    return f == 0 ? b.toJson() : f == 1 ? bytes(b.toBson()) : bytes(b.toMsgPack());
}
ENTRY(h_withheld)
{
    uint32_t f = eg_choice(3, "format"), how = eg_choice(4, "how"), at = eg_choice(6, "which");
    auto a = withNonces(at, false), b = withNonces(at, true);
    string x = written(*a, f, how), y = written(*b, f, how);
    MUST(x == y, "what is written without nonces does not depend on them");
    string base = x;
    MUST(base.find("nonce") == string::npos, "there is no nonce in what is written");
    eg_reach(1);
}
// a submitted ballot holds nothing that depends on the nonces of the ballot it was made from
ENTRY(h_submitted_holds_none)
{
    uint32_t at = eg_choice(6, "which"); auto a = withNonces(at, false), b = withNonces(at, true);
    auto read = [](ElementModQ *q) { return !q || q->toHex() == "00"; };
    auto s = SubmittedBallot::from(*b, BallotBoxState::cast);
    MUST(read(s->getNonce()), "no ballot nonce");
    for (auto &c : s->getContests()) { MUST(read(c.get().getNonce()), "no contest nonce"); for (auto &x : c.get().getSelections()) MUST(read(x.get().getNonce()), "no selection nonce"); }
    Dump d, e; d.nonces = e.nonces = false; dump(d, static_cast<const CiphertextBallot *>(s.get()), true); dump(e, b.get(), true);
    MUST(d.s == e.s, "all else is kept");
    eg_reach(1);
}
// what is read back from a ballot written without nonces has none
ENTRY(h_read_without)
{
    uint32_t f = eg_choice(3, "format"), at = eg_choice(6, "which"); auto b = withNonces(at, true);
    auto y = f == 0 ? CiphertextBallot::fromJson(b->toJson()) : f == 1 ? CiphertextBallot::fromBson(b->toBson()) : CiphertextBallot::fromMsgPack(b->toMsgPack());
    auto none = [](ElementModQ *q) { return !q || q->toHex() == "00"; };
    MUST(none(y->getNonce()), "no ballot nonce");
    for (auto &c : y->getContests()) { MUST(none(c.get().getNonce()), "no contest nonce"); for (auto &x : c.get().getSelections()) MUST(none(x.get().getNonce()), "no selection nonce"); }
    eg_reach(1);
}
// ------------------------------------------------------------------ dates
static unique_ptr<Manifest> dated(int64_t t0, int64_t t1)
{
    UV<GeopoliticalUnit> geo; UV<Party> parties; UV<Candidate> cands; UV<ContestDescription> contests; UV<BallotStyle> styles; using C = std::chrono::system_clock;
    return make_unique<Manifest>("scope", ElectionType::general, C::from_time_t(t0), C::from_time_t(t1), std::move(geo), std::move(parties), std::move(cands), std::move(contests), std::move(styles));
}
static int64_t moment()
{
    static const int64_t base[] = {0, 951782399, 1709164800, 946684799, 4107542399}, step[] = {1, 61, 3601, 86401, 2629801, 31557599};   // around 1970, 29 February 2000 and 2024, 2000, March 2100
    uint8_t k; eg_sym_bytes(&k, 1, "steps"); uint32_t b = eg_choice(5, "base"), s = eg_choice(6, "step"); if (s == 5) eg_assume(k < 120);   // the clock ends in 2262
    return base[b] + step[s] * k;
}
ENTRY(h_dates)
{
    uint32_t f = eg_choice(3, "format"); int64_t t = moment(); bool end = eg_choice(2, "end");
    auto x = dated(end ? 1600000000 : t, end ? t : 1600000000), y = via(*x, f); using C = std::chrono::system_clock;
    MUST(C::to_time_t(y->getStartDate()) == (end ? 1600000000 : t), "the start date reads back to the second");
    MUST(C::to_time_t(y->getEndDate()) == (end ? t : 1600000000), "the end date reads back to the second");
    eg_reach(1);
}
// the written form is the ISO 8601 form in UTC, and forms with an offset are understood
ENTRY(h_iso)
{
    int64_t s = 1583020800; uint8_t h, m, c; uint32_t which = eg_choice(3, "part"); h = 8; m = 30; c = 7;   // 2020-03-01
    uint8_t v; eg_sym_bytes(&v, 1, "value"); eg_assume(v < (which == 0 ? 24 : 60)); (which == 0 ? h : which == 1 ? m : c) = v;
    s += h * 3600 + m * 60 + c;
    auto two = [](uint8_t b) { string r; r += (char)('0' + b / 10); r += (char)('0' + b % 10); return r; };
    string clock = two(h) + ":" + two(m) + ":" + two(c), text = "2020-03-01T" + clock + "Z", json = dated(s, 0)->toJson(); using C = std::chrono::system_clock;
    size_t at = json.find("\"start_date\":\""); MUST(at != string::npos, "there is a start date"); at += 14;
    MUST(json.substr(at, text.size() + 1) == text + "\"", "the start date is written in ISO form");
    static const char *const off[] = {"Z", "+00:00", "-05:00", "+09:30"}; static const int32_t sec[] = {0, 0, 18000, -34200};
    uint32_t o = eg_choice(4, "offset"); string other = json.substr(0, at) + "2020-03-01T" + clock + off[o] + json.substr(at + text.size());
    MUST(C::to_time_t(Manifest::fromJson(other)->getStartDate()) == s + sec[o], "a date with an offset means that moment");
    eg_reach(1);
}
