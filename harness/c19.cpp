// C19: what a manifest declares valid, which contests a ballot style has, placeholders.  C20: what the manifest hash binds.
#include "mk.hpp"
#include <map>
#include <stdexcept>
using namespace electionguard;
static string sid(const char *n) { char c; eg_sym_bytes(&c, 1, n); eg_assume(c >= 'a' && c <= 'z'); return string(1, c); }
static string sidOrEmpty(const char *n, const char *e) { return eg_choice(2, e) ? string() : sid(n); }
static bool allDistinct(const vector<string> &v)
{
    for (size_t i = 0; i < v.size(); i++) { if (v[i].empty()) return false; for (size_t j = 0; j < i; j++) if (v[i] == v[j]) return false; }
    return true;
}
static bool has(const vector<string> &v, const string &s) { for (auto &x : v) if (x == s) return true; return false; }
struct Sel { string id, cand; uint64_t seq; };
struct Con { string id, district; uint64_t seq; VoteVariationType type; uint64_t elected; bool full; uint64_t allowed; vector<Sel> sel; };
struct Spec {
    vector<string> geo{"g0", "g1"}, parties{"p0", "p1"}, cands{"n0", "n1", "n2"}, candParty{"p0", "", "p1"};
    vector<StyleSpec> styles{{"y0", {"g0"}}, {"y1", {"g0", "g1"}}};
    vector<Con> cons{{"c0", "g0", 0, VoteVariationType::n_of_m, 1, false, 0, {{"s0", "n0", 0}, {"s1", "n1", 1}}}, {"c1", "g1", 1, VoteVariationType::n_of_m, 1, false, 0, {{"s2", "n2", 5}}}};
};
static unique_ptr<InternationalizedText> text(const string &s) { UV<Language> t; t.push_back(make_unique<Language>(s, "en")); return make_unique<InternationalizedText>(std::move(t)); }
static unique_ptr<ContestDescription> mkCon(const Con &c)
{
    UV<SelectionDescription> sel;
    for (auto &s : c.sel) sel.push_back(make_unique<SelectionDescription>(s.id, s.cand, s.seq));
    if (c.full) return make_unique<ContestDescription>(c.id, c.district, c.seq, c.type, c.elected, c.allowed, "name", text("t"), text("u"), std::move(sel));
    return make_unique<ContestDescription>(c.id, c.district, c.seq, c.type, c.elected, "name", std::move(sel));
}
static unique_ptr<Manifest> mk(const Spec &s)
{
    UV<GeopoliticalUnit> geo; UV<Party> parties; UV<Candidate> cands; UV<ContestDescription> contests; UV<BallotStyle> styles;
    for (auto &g : s.geo) geo.push_back(make_unique<GeopoliticalUnit>(g, "unit", ReportingUnitType::county));
    for (auto &p : s.parties) parties.push_back(make_unique<Party>(p));
    for (size_t i = 0; i < s.cands.size(); i++) cands.push_back(make_unique<Candidate>(s.cands[i], s.candParty[i], false));
    for (auto &c : s.cons) contests.push_back(mkCon(c));
    for (auto &y : s.styles) styles.push_back(make_unique<BallotStyle>(y.id, y.geo));
    return make_unique<Manifest>("election", ElectionType::general, std::chrono::system_clock::from_time_t(1600000000), std::chrono::system_clock::from_time_t(1600086400), std::move(geo), std::move(parties), std::move(cands), std::move(contests), std::move(styles));
}
static bool contestOk(const Con &c)
{
    vector<string> ids, cands; bool ok = c.elected <= c.sel.size();
    uint64_t allowed = c.full ? c.allowed : (c.type == VoteVariationType::n_of_m || c.type == VoteVariationType::one_of_m) ? c.elected : 0;
    if (allowed && c.elected > allowed) ok = false;
    for (size_t i = 0; i < c.sel.size(); i++) { ids.push_back(c.sel[i].id); cands.push_back(c.sel[i].cand); for (size_t j = 0; j < i; j++) if (c.sel[i].seq == c.sel[j].seq) ok = false; }
    return ok && allDistinct(ids) && allDistinct(cands);
}
static bool specOk(const Spec &s)
{
    if (!allDistinct(s.geo) || !allDistinct(s.parties) || !allDistinct(s.cands)) return false;
    vector<string> ids;
    for (auto &y : s.styles) { ids.push_back(y.id); if (y.geo.empty()) return false; for (auto &g : y.geo) if (!has(s.geo, g)) return false; }
    if (!allDistinct(ids)) return false;
    for (auto &p : s.candParty) if (!p.empty() && !has(s.parties, p)) return false;
    ids.clear();
    for (size_t i = 0; i < s.cons.size(); i++) {
        auto &c = s.cons[i]; ids.push_back(c.id);
        if (c.district.empty() || !has(s.geo, c.district) || !contestOk(c)) return false;
        for (size_t j = 0; j < i; j++) if (s.cons[j].seq == c.seq) return false;
    }
    return allDistinct(ids);
}
ENTRY(h_valid)
{
    Spec s;
    switch (eg_choice(8, "section")) {
    case 0: for (auto &g : s.geo) g = sidOrEmpty("geo", "empty"); { string d = sid("unit"); s.styles = {{"y0", {d}}, {"y1", {d, d}}}; s.cons[0].district = d; s.cons[1].district = d; } break;
    case 1: for (auto &y : s.styles) y.id = sidOrEmpty("style", "empty"); if (eg_choice(2, "none")) s.styles[eg_choice(2, "which")].geo.clear(); break;
    case 2: for (auto &p : s.parties) p = sidOrEmpty("party", "empty"); s.candParty = {"", sid("of"), ""}; break;
    case 3: for (auto &c : s.cands) c = sidOrEmpty("cand", "empty"); break;
    case 4: for (auto &c : s.cons) { c.id = sidOrEmpty("contest", "empty"); eg_sym(&c.seq, 8, "seq"); } break;
    case 5: { auto &c = s.cons[0]; c.sel.push_back({"s9", "n9", 9}); for (auto &x : c.sel) x.id = sidOrEmpty("sel", "empty"); for (auto &x : c.sel) eg_sym(&x.seq, 8, "seq"); } break;
    case 6: { auto &c = s.cons[eg_choice(2, "contest")]; for (auto &x : c.sel) x.cand = sidOrEmpty("selcand", "empty"); } break;
    case 7: { auto &c = s.cons[eg_choice(2, "contest")]; c.full = eg_choice(2, "full"); eg_sym(&c.elected, 8, "elected"); eg_sym(&c.allowed, 8, "allowed"); c.type = eg_choice(2, "type") ? VoteVariationType::n_of_m : VoteVariationType::approval;
              c.district = sidOrEmpty("district", "empty"); s.geo[0] = sid("g0"); s.styles = {{"y0", {s.geo[0]}}}; } break;
    }
    auto m = mk(s);
    bool ok = specOk(s);
    MUST(m->isValid() == ok, "a manifest is valid exactly if all identifiers are present and unique, all references resolve and the limits are consistent");
    eg_reach(ok ? 1 : 2);
}
// the contests of a ballot style, in sequence order, each once
ENTRY(h_styles)
{
    Spec s;
    s.geo = {"a", "b", "c"};
    s.cons.clear();
    uint32_t n = (uint32_t)eg_def("contests", 3);
    for (uint32_t i = 0; i < n; i++) {
        Con c{string("c") + (char)('0' + i), sid("district"), 0, VoteVariationType::n_of_m, 1, false, 0, {{string("s") + (char)('0' + i), "n0", 0}}};
        eg_sym(&c.seq, 8, "seq"); for (auto &o : s.cons) eg_assume(o.seq != c.seq);
        s.cons.push_back(c);
    }
    vector<string> units; uint32_t nu = eg_choice((uint32_t)eg_def("units", 3), "units") + 1;
    for (uint32_t i = 0; i < nu; i++) units.push_back(sid("unit"));
    s.styles = {{"y0", {"zz"}}, {sid("style"), units}};
    UV<GeopoliticalUnit> geo; UV<Candidate> cands; UV<ContestDescriptionWithPlaceholders> contests; UV<BallotStyle> styles;
    for (auto &c : s.cons) contests.push_back(make_unique<ContestDescriptionWithPlaceholders>(*mkCon(c), UV<SelectionDescription>()));
    for (auto &y : s.styles) styles.push_back(make_unique<BallotStyle>(y.id, y.geo));
    InternalManifest im(std::move(geo), std::move(cands), std::move(contests), std::move(styles), *qconst(5));
    auto got = im.getContestsFor(s.styles[1].id);
    size_t want = 0;
    for (auto &c : s.cons) {
        bool in = has(units, c.district);
        want += in ? 1 : 0;
        size_t times = 0; for (auto &g : got) if (g.get().getObjectId() == c.id) times++;
        MUST(times == (in ? 1 : 0), "a contest belongs to a ballot style exactly if its district is one of the units of the style, and is listed once");
    }
    MUST(got.size() == want, "no further contests");
    for (size_t i = 1; i < got.size(); i++) MUST(got[i - 1].get().getSequenceOrder() < got[i].get().getSequenceOrder(), "contests are listed in sequence order");
    MUST(im.getBallotStyle(s.styles[1].id) && im.getBallotStyle(s.styles[1].id)->getObjectId() == s.styles[1].id, "the style is found by its id");
    string other = sid("other");
    if (other != s.styles[1].id) {
        MUST(!im.getBallotStyle(other), "no style is found for an unknown id");
        bool threw = false; try { im.getContestsFor(other); } catch (const std::runtime_error &) { threw = true; }
        MUST(threw, "asking for the contests of an unknown style is refused");
    }
    eg_reach(want ? 1 : 2);
}
// what the internal manifest adds and keeps
ENTRY(h_internal)
{
    Spec s; auto &c = s.cons[0];
    c.full = eg_choice(2, "full"); c.allowed = 7; c.elected = eg_choice(4, "elected");
    c.sel.push_back({"s9", "n2", 9});
    static const uint64_t far[] = {7, 1ull << 33, ~0ull - 9}; c.sel[1].seq = far[eg_choice(3, "far")]; c.sel[2].seq = 20;
    uint8_t q; eg_sym(&q, 1, "seq"); c.sel[0].seq = q; eg_assume(q < eg_def("limit", 200) && c.sel[0].seq != 7 && c.sel[0].seq != 20);
    auto m = mk(s); InternalManifest im(*m);
    MUST(qeq(*im.getManifestHash(), *m->crypto_hash()), "the internal manifest carries the hash of the manifest");
    auto cs = im.getContests(), os = std::vector<std::reference_wrapper<ContestDescriptionWithPlaceholders>>();
    MUST(cs.size() == s.cons.size() && im.getCandidates().size() == s.cands.size() && im.getBallotStyles().size() == s.styles.size() && im.getGeopoliticalUnits().size() == s.geo.size(), "nothing is lost or added");
    for (size_t i = 0; i < s.cands.size(); i++) MUST(im.getCandidates()[i].get().getObjectId() == s.cands[i] && im.getCandidates()[i].get().getPartyId() == s.candParty[i], "candidates are kept");
    for (size_t i = 0; i < s.styles.size(); i++) MUST(im.getBallotStyles()[i].get().getObjectId() == s.styles[i].id && im.getBallotStyles()[i].get().getGeopoliticalUnitIds() == s.styles[i].geo, "styles are kept");
    auto mc = m->getContests();
    for (size_t i = 0; i < cs.size(); i++) {
        auto &w = s.cons[i]; auto &x = cs[i].get();
        MUST(x.getObjectId() == w.id && x.getElectoralDistrictId() == w.district && x.getSequenceOrder() == w.seq && x.getVoteVariation() == w.type && x.getNumberElected() == w.elected && x.getVotesAllowed() == mc[i].get().getVotesAllowed(), "contests are kept");
        MUST(qeq(*x.crypto_hash(), *mc[i].get().crypto_hash()), "the description hash of a contest is kept");
        auto sel = x.getSelections(); uint64_t top = 0;
        MUST(sel.size() == w.sel.size(), "selections are kept");
        for (size_t k = 1; k < sel.size(); k++) MUST(sel[k - 1].get().getSequenceOrder() < sel[k].get().getSequenceOrder(), "selections are listed in sequence order");
        for (auto &y : w.sel) {
            if (y.seq > top) top = y.seq;
            bool found = false;
            for (auto &z : sel) if (z.get().getObjectId() == y.id) { found = true; MUST(z.get().getSequenceOrder() == y.seq && z.get().getCandidateId() == y.cand, "a selection keeps its position and candidate"); MUST(!x.IsPlaceholder(z.get()), "a selection is no placeholder"); }
            MUST(found, "every selection is kept");
            string id = y.id; MUST(x.selectionFor(id).get().getObjectId() == y.id, "selections are found by id");
        }
        auto ph = x.getPlaceholders();
        MUST(ph.size() == w.elected, "there are as many placeholders as seats");
        for (size_t k = 0; k < ph.size(); k++) {
            MUST(ph[k].get().getSequenceOrder() > top, "placeholders come after all selections");
            if (k) MUST(ph[k].get().getSequenceOrder() > ph[k - 1].get().getSequenceOrder() && ph[k].get().getObjectId() != ph[k - 1].get().getObjectId() && ph[k].get().getCandidateId() != ph[k - 1].get().getCandidateId(), "placeholders are distinct");
            MUST(x.IsPlaceholder(ph[k].get()), "placeholders are recognised");
            string id = ph[k].get().getObjectId(); MUST(x.selectionFor(id).get().getObjectId() == id, "placeholders are found by id");
            for (auto &y : w.sel) MUST(y.id != id && y.cand != ph[k].get().getCandidateId(), "placeholders are told from selections");
        }
    }
    eg_reach(1);
}
// ---- C20: two manifests that differ in one place have different hashes
struct Flat { string f[40]; uint64_t u[6]; int type, var, unit; long t0, t1; int list; };
static unique_ptr<ContactInformation> contact(const string *f)
{
    UV<AnnotatedString> e, p; e.push_back(make_unique<AnnotatedString>(f[0], f[1])); p.push_back(make_unique<AnnotatedString>(f[2], f[3]));
    return make_unique<ContactInformation>(vector<string>{f[4], f[5]}, std::move(e), std::move(p), f[6]);
}
static unique_ptr<InternationalizedText> text2(const string &a, const string &b) { UV<Language> t; t.push_back(make_unique<Language>(a, b)); return make_unique<InternationalizedText>(std::move(t)); }
enum { LIST = 12 };
static unique_ptr<Manifest> mkFlat(const Flat &x)
{
    const string *f = x.f; int k = 1;
    UV<GeopoliticalUnit> geo; UV<Party> parties; UV<Candidate> cands; UV<ContestDescription> contests; UV<BallotStyle> styles;
    geo.push_back(make_unique<GeopoliticalUnit>(f[1], f[2], (ReportingUnitType)x.unit, contact(f + 3)));
    parties.push_back(make_unique<Party>(f[10], text2(f[11], f[12]), f[13], f[14], f[15]));
    cands.push_back(make_unique<Candidate>("n0", false));
    UV<SelectionDescription> sel; sel.push_back(make_unique<SelectionDescription>(f[16], f[17], x.u[0]));
    bool title = !(x.list & 256), subtitle = !(x.list & 512), nm = !(x.list & 1024), ci = !(x.list & 2048);
    UV<SelectionDescription> sel2; sel2.push_back(make_unique<SelectionDescription>("sb", "cb", 3));
    auto extra = [&](int bit) { return (x.list & 255) == bit; };
    if (extra(1)) geo.push_back(make_unique<GeopoliticalUnit>("more", "more", ReportingUnitType::county));
    if (extra(2)) parties.push_back(make_unique<Party>("more"));
    if (extra(3)) sel.push_back(make_unique<SelectionDescription>("more", "more", 9));
    if (extra(4)) sel.insert(sel.begin(), make_unique<SelectionDescription>("more", "more", 9));
    contests.push_back(make_unique<ContestDescription>(f[18], f[19], x.u[1], (VoteVariationType)x.var, x.u[2], x.u[3], f[20], title ? text2(f[21], f[22]) : nullptr, subtitle ? text2(f[23], f[24]) : nullptr, std::move(sel)));
    auto second = make_unique<ContestDescription>("cb", f[19], 77, VoteVariationType::n_of_m, 1, "other", std::move(sel2));
    if (extra(5)) contests.push_back(std::move(second)); else if (extra(6)) contests.insert(contests.begin(), std::move(second));
    styles.push_back(make_unique<BallotStyle>(f[25], extra(7) ? vector<string>{f[26]} : extra(8) ? vector<string>{f[27], f[26]} : vector<string>{f[26], f[27]}, extra(9) ? vector<string>{} : vector<string>{f[28]}, f[29]));
    if (extra(10)) styles.push_back(make_unique<BallotStyle>("more", vector<string>{"u"}));
    if (extra(11)) styles.insert(styles.begin(), make_unique<BallotStyle>("more", vector<string>{"u"}));
    (void)k;
    return make_unique<Manifest>(f[0], (ElectionType)x.type, std::chrono::system_clock::from_time_t(x.t0), std::chrono::system_clock::from_time_t(x.t1), std::move(geo), std::move(parties), std::move(cands), std::move(contests), std::move(styles), nm ? text2(f[30], f[31]) : nullptr, ci ? contact(f + 32) : nullptr);
}
static Flat flat()
{
    Flat x; for (int i = 0; i < 40; i++) x.f[i] = string("f") + (char)('A' + i % 26) + (char)('0' + i / 26);
    for (int i = 0; i < 6; i++) x.u[i] = 40 + i;
    x.type = 1; x.var = 1; x.unit = 1; x.t0 = 1600000000; x.t1 = 1600086400; x.list = 0; return x;
}
ENTRY(h_hash_strings)
{
    Flat a = flat(), b = flat(); uint32_t w = eg_choice(39, "field");
    uint32_t la = eg_choice(2, "length"), lb = eg_choice(2, "length");
    auto sym = [](const char *n, uint32_t extra) { char c[2]; eg_sym_bytes(c, 1 + extra, n); for (uint32_t i = 0; i <= extra; i++) eg_assume(c[i] != '|' && c[i] != 0); return string(c, 1 + extra); };
    a.f[w] = sym("a", la); b.f[w] = sym("b", lb);
    bool same = a.f[w] == b.f[w];
    auto ma = mkFlat(a), mb = mkFlat(b);
    MUST(qeq(*ma->crypto_hash(), *mb->crypto_hash()) == same, "the manifest hash changes with every text of the manifest");
    MUST(qeq(*InternalManifest(*ma).getManifestHash(), *ma->crypto_hash()), "the internal manifest carries the hash");
    eg_reach(same ? 1 : 2);
}
ENTRY(h_hash_numbers)
{
    Flat a = flat(), b = flat(); uint32_t w = eg_choice(4, "field");
    a.u[w] = symFar("a", eg_def("limit", 200)); b.u[w] = symFar("b", eg_def("limit", 200));
    bool same = a.u[w] == b.u[w];
    MUST(qeq(*mkFlat(a)->crypto_hash(), *mkFlat(b)->crypto_hash()) == same, "the manifest hash changes with every number of the manifest");
    eg_reach(same ? 1 : 2);
}
ENTRY(h_hash_kinds)
{
    Flat a = flat(), b = flat();
    switch (eg_choice(6, "field")) {
    case 0: a.type = (int)eg_choice(8, "a"); b.type = (int)eg_choice(8, "b"); break;
    case 1: a.var = (int)eg_choice(13, "a"); b.var = (int)eg_choice(13, "b"); break;
    case 2: a.unit = (int)eg_choice(29, "a"); b.unit = (int)eg_choice(29, "b"); break;
    case 3: a.list = (int)eg_choice(12, "a"); b.list = (int)eg_choice(12, "b"); break;
    case 4: a.list = (int)eg_choice(16, "a") * 256; b.list = (int)eg_choice(16, "b") * 256; break;
    case 5: { static const long d[] = {0, 1, 60, 3600, 86400, 30 * 86400L, 365 * 86400L, 36524 * 86400L}; long &x = eg_choice(2, "end") ? b.t1 : b.t0; x += d[eg_choice(8, "later")]; } break;
    }
    bool same = a.type == b.type && a.var == b.var && a.unit == b.unit && a.list == b.list && a.t0 == b.t0 && a.t1 == b.t1;
    auto ma = mkFlat(a), mb = mkFlat(b);
    MUST(qeq(*ma->crypto_hash(), *mb->crypto_hash()) == same, "the manifest hash changes with every kind, date, optional part and entry of the manifest");
    eg_reach(same ? 1 : 2);
}
