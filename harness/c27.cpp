// The C API: objects made through it hold what they were given, its getters give what the C++ getters give, its functions compute what their C++ counterparts
// compute, an index out of range is an error, and inputs stay the caller's.
#include "dump.hpp"
#include <electionguard/ballot_code.hpp>
#include <electionguard/chaum_pedersen.hpp>
#include <functional>
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/ballot_code.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/chaum_pedersen.h>
#include <electionguard/collections.h>
#include <electionguard/election.h>
#include <electionguard/elgamal.h>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/hash.h>
#include <electionguard/manifest.h>
}
using namespace eg;
#define OK(x) MUST((x) == ELECTIONGUARD_STATUS_SUCCESS, "the call succeeds")
#define BAD(x) MUST((x) != ELECTIONGUARD_STATUS_SUCCESS, "an index out of range is an error")
template <class T, class U> T &as(U *h) { return *reinterpret_cast<T *>(h); }
template <class T, class U> T *mut(U *h) { return reinterpret_cast<T *>(h); }
static eg_element_mod_q_t *hq(const EQ &q) { return (eg_element_mod_q_t *)q.get(); }
static eg_element_mod_p_t *hp(const EP &p) { return (eg_element_mod_p_t *)p.get(); }
// text with unknown characters (none of them 0), of a length from 0 to 2
struct Str {
    char c[4]; string v;
    explicit Str(const char *name) { uint32_t n = eg_def("len", 2); memset(c, 0, 4); if (n) eg_sym_bytes(c, n, name); for (uint32_t i = 0; i < n; i++) eg_assume(c[i] != 0); v = string(c, n); }
    operator char *() { return c; }
};
static uint64_t num(const char *n) { uint64_t v; eg_sym_bytes(&v, 8, n); return v; }
static bool flag(const char *n) { return eg_choice(2, n); }
// a text handed out by the C API
template <class F> string got(F f) { char *p = nullptr; OK(f(&p)); string s(p); free(p); return s; }
template <class F> string gotc(F f) { const char *p = nullptr; OK(f(&p)); string s(p); free((void *)p); return s; }
#define TEXT(fn, h_, want) MUST(got([&](char **o_) { return fn(h_, o_); }) == (want), #fn " gives the text")
#define TEXTC(fn, h_, want) MUST(gotc([&](const char **o_) { return fn(h_, o_); }) == (want), #fn " gives the text")
#define HASH(fn, h_, T) { eg_element_mod_q_t *o_ = nullptr; OK(fn(h_, &o_)); auto w_ = mut<T>(h_)->crypto_hash(); MUST(as<ElementModQ>(o_) == *w_, #fn " gives the hash"); OK(eg_element_mod_q_free(o_)); }
#define SAME(h, T, want) MUST(show(as<T>(h)) == show(want), "the " #T " made through the C API has the contents given")
#define ITEMS(size_, at_, ht_, h_, T_, want_) { auto w_ = want_; MUST(size_(h_) == w_.size(), #size_ " gives the number"); uint64_t i_ = num("index"); ht_ *o_ = nullptr; auto st_ = at_(h_, i_, &o_); MUST((st_ == ELECTIONGUARD_STATUS_SUCCESS) == (i_ < w_.size()), #at_ " fails exactly when out of range"); if (i_ < w_.size()) MUST((void *)o_ == (void *)&w_[i_].get(), #at_ " gives the item"); }
#define STRINGS(size_, at_, h_, want_) { auto w_ = want_; MUST(size_(h_) == w_.size(), #size_ " gives the number"); for (uint64_t i_ = 0; i_ < w_.size(); i_++) MUST(got([&](char **o_) { return at_(h_, i_, o_); }) == w_[i_], #at_ " gives the item"); char *o_ = nullptr; BAD(at_(h_, w_.size(), &o_)); BAD(at_(h_, ~0ull, &o_)); }
static UV<Language> langs(Str &a, Str &b, int n) { UV<Language> v; if (n > 0) v.push_back(make_unique<Language>(a.v, "en")); if (n > 1) v.push_back(make_unique<Language>("x", b.v)); return v; }
static eg_internationalized_text_t *ctext(Str &a, Str &b, int n)
{
    eg_language_t *l[2] = {}; if (n > 0) OK(eg_language_new(a, "en", &l[0])); if (n > 1) OK(eg_language_new("x", b, &l[1]));
    eg_internationalized_text_t *t = nullptr; OK(eg_internationalized_text_new(l, n, &t)); for (int i = 0; i < n; i++) OK(eg_language_free(l[i])); return t;
}
ENTRY(h_texts)
{
    Str a("a"), b("b"), c("c");
    { eg_annotated_string_t *h; OK(eg_annotated_string_new(a, b, &h)); SAME(h, AnnotatedString, AnnotatedString(a.v, b.v)); TEXTC(eg_annotated_string_get_annotation, h, a.v); TEXTC(eg_annotated_string_get_value, h, b.v); HASH(eg_annotated_string_crypto_hash, h, AnnotatedString); OK(eg_annotated_string_free(h)); }
    { eg_language_t *h; OK(eg_language_new(a, b, &h)); SAME(h, Language, Language(a.v, b.v)); TEXT(eg_language_get_value, h, a.v); TEXT(eg_language_get_language, h, b.v); HASH(eg_language_crypto_hash, h, Language); OK(eg_language_free(h)); }
    int n = eg_choice(3, "texts"); auto *t = ctext(a, b, n); InternationalizedText want(langs(a, b, n)); SAME(t, InternationalizedText, want);
    ITEMS(eg_internationalized_text_get_text_size, eg_internationalized_text_get_text_at_index, eg_language_t, t, Language, mut<InternationalizedText>(t)->getText());
    OK(eg_internationalized_text_free(t));
    MUST(eg_language_free(nullptr) != ELECTIONGUARD_STATUS_SUCCESS && eg_annotated_string_free(nullptr) != ELECTIONGUARD_STATUS_SUCCESS && eg_internationalized_text_free(nullptr) != ELECTIONGUARD_STATUS_SUCCESS, "freeing nothing is an error");
    eg_reach(1);
}
static eg_contact_information_t *ccontact(Str &a, Str &b, Str &c)
{
    char second[] = "second"; char *address[2] = {a, second}; eg_annotated_string_t *e[1], *p[2]; OK(eg_annotated_string_new("work", b, &e[0])); OK(eg_annotated_string_new(c, "1", &p[0])); OK(eg_annotated_string_new("p", "2", &p[1]));
    eg_contact_information_t *h; OK(eg_contact_information_new_with_collections(c, address, 2, e, 1, p, 2, &h)); OK(eg_annotated_string_free(e[0])); OK(eg_annotated_string_free(p[0])); OK(eg_annotated_string_free(p[1])); return h;
}
static unique_ptr<ContactInformation> xcontact(Str &a, Str &b, Str &c) { return make_unique<ContactInformation>(vector<string>{a.v, "second"}, uv(make_unique<AnnotatedString>("work", b.v)), uv(make_unique<AnnotatedString>(c.v, "1"), make_unique<AnnotatedString>("p", "2")), c.v); }
static const ReportingUnitType UNITS[] = {ReportingUnitType::unknown, ReportingUnitType::borough, ReportingUnitType::precinct};
ENTRY(h_places)
{
    Str a("a"), b("b"), c("c");
    { eg_contact_information_t *h; OK(eg_contact_information_new(a, &h)); SAME(h, ContactInformation, ContactInformation(a.v)); TEXTC(eg_contact_information_get_name, h, a.v); OK(eg_contact_information_free(h)); }
    auto *h = ccontact(a, b, c); auto w = xcontact(a, b, c); SAME(h, ContactInformation, *w); TEXTC(eg_contact_information_get_name, h, c.v);
    STRINGS(eg_contact_information_get_address_line_size, eg_contact_information_get_address_line_at_index, h, w->getAddressLine());
    ITEMS(eg_contact_information_get_email_line_size, eg_contact_information_get_email_line_at_index, eg_internationalized_text_t, h, AnnotatedString, mut<ContactInformation>(h)->getEmail());
    ITEMS(eg_contact_information_get_phone_line_size, eg_contact_information_get_phone_line_at_index, eg_internationalized_text_t, h, AnnotatedString, mut<ContactInformation>(h)->getPhone());
    HASH(eg_contact_information_crypto_hash, h, ContactInformation);
    uint32_t k = eg_choice(3, "type"); eg_geopolitical_unit_t *g;
    if (eg_choice(2, "contact")) { OK(eg_geopolitical_unit_new_with_contact_info(a, b, (eg_reporting_unit_type_t)UNITS[k], h, &g)); SAME(g, GeopoliticalUnit, GeopoliticalUnit(a.v, b.v, UNITS[k], xcontact(a, b, c))); }
    else { OK(eg_geopolitical_unit_new(a, b, (eg_reporting_unit_type_t)UNITS[k], &g)); SAME(g, GeopoliticalUnit, GeopoliticalUnit(a.v, b.v, UNITS[k])); }
    OK(eg_contact_information_free(h));
    TEXTC(eg_geopolitical_unit_get_object_id, g, a.v); TEXTC(eg_geopolitical_unit_get_name, g, b.v); HASH(eg_geopolitical_unit_crypto_hash, g, GeopoliticalUnit); OK(eg_geopolitical_unit_free(g));
    char other[] = "other"; char *units[2] = {a, other}, *parties[2] = {other, b}; eg_ballot_style_t *s;
    if (eg_choice(2, "parties")) { OK(eg_ballot_style_new_with_parties(c, units, 2, parties, 2, b, &s)); BallotStyle want(c.v, {a.v, "other"}, {"other", b.v}, b.v); SAME(s, BallotStyle, want); TEXTC(eg_ballot_style_get_image_uri, s, b.v); }
    else { OK(eg_ballot_style_new(c, units, 2, &s)); BallotStyle want(c.v, {a.v, "other"}); SAME(s, BallotStyle, want); }
    TEXTC(eg_ballot_style_get_object_id, s, c.v); STRINGS(eg_ballot_style_get_geopolitical_unit_ids_size, eg_ballot_style_get_geopolitical_unit_id_at_index, s, as<BallotStyle>(s).getGeopoliticalUnitIds());
    STRINGS(eg_ballot_style_get_party_ids_size, eg_ballot_style_get_party_id_at_index, s, as<BallotStyle>(s).getPartyIds()); HASH(eg_ballot_style_crypto_hash, s, BallotStyle); OK(eg_ballot_style_free(s));
    eg_reach(1);
}
ENTRY(h_people)
{
    Str a("a"), b("b"), c("c"); eg_party_t *p; auto T = [&] { return make_unique<InternationalizedText>(langs(a, b, 2)); };
    if (eg_choice(2, "party")) { auto *t = ctext(a, b, 2); OK(eg_party_new_with_extras(a, t, b, c, a, &p)); OK(eg_internationalized_text_free(t)); SAME(p, Party, Party(a.v, T(), b.v, c.v, a.v)); }
    else { OK(eg_party_new(a, &p)); SAME(p, Party, Party(a.v)); }
    auto &P = as<Party>(p); TEXTC(eg_party_get_object_id, p, a.v); TEXTC(eg_party_get_abbreviation, p, P.getAbbreviation()); TEXTC(eg_party_get_color, p, P.getColor()); TEXTC(eg_party_get_logo_uri, p, P.getLogoUri()); HASH(eg_party_crypto_hash, p, Party);
    { eg_internationalized_text_t *o = nullptr; OK(eg_party_get_name(p, &o)); MUST((void *)o == (void *)mut<Party>(p)->getName(), "the name of the party"); } OK(eg_party_free(p));
    bool w = flag("writein"); eg_candidate_t *k;
    switch (eg_choice(3, "candidate")) {
    case 0: OK(eg_candidate_new(a, w, &k)); SAME(k, Candidate, Candidate(a.v, w)); break;
    case 1: OK(eg_candidate_new_with_party(a, b, w, &k)); SAME(k, Candidate, Candidate(a.v, b.v, w)); break;
    default: { auto *t = ctext(a, b, 2); OK(eg_candidate_new_with_extras(a, t, b, c, w, &k)); OK(eg_internationalized_text_free(t)); SAME(k, Candidate, Candidate(a.v, T(), b.v, c.v, w)); }
    }
    auto &K = as<Candidate>(k); TEXTC(eg_candidate_get_object_id, k, a.v); TEXTC(eg_candidate_get_candidate_id, k, K.getCandidateId()); TEXTC(eg_candidate_get_party_id, k, K.getPartyId()); TEXTC(eg_candidate_get_image_uri, k, K.getImageUri());
    MUST(eg_candidate_get_is_write_in(k) == w, "write-in candidates are told apart"); HASH(eg_candidate_crypto_hash, k, Candidate);
    { eg_internationalized_text_t *o = nullptr; OK(eg_candidate_get_name(k, &o)); MUST((void *)o == (void *)mut<Candidate>(k)->getName(), "the name of the candidate"); } OK(eg_candidate_free(k));
    uint64_t n = num("seq"); eg_selection_description_t *s; OK(eg_selection_description_new(a, b, n, &s)); SAME(s, SelectionDescription, SelectionDescription(a.v, b.v, n)); TEXTC(eg_selection_description_get_object_id, s, a.v); TEXTC(eg_selection_description_get_candidate_id, s, b.v);
    MUST(eg_selection_description_get_sequence_order(s) == n, "the sequence order"); OK(eg_selection_description_free(s));
    { OK(eg_selection_description_new("s", "c", 3, &s)); HASH(eg_selection_description_crypto_hash, s, SelectionDescription); OK(eg_selection_description_free(s)); }
    eg_reach(1);
}
static const VoteVariationType KINDS[] = {VoteVariationType::one_of_m, VoteVariationType::n_of_m, VoteVariationType::rcv};
static void csels(eg_selection_description_t **v, const char *prefix, int n) { for (int i = 0; i < n; i++) { string id = string(prefix) + (char)('0' + i), c = string("cand-") + (char)('0' + i); OK(eg_selection_description_new(id.c_str(), c.c_str(), 3 + i, &v[i])); } }
static UV<SelectionDescription> xsels(const char *prefix, int n) { UV<SelectionDescription> v; for (int i = 0; i < n; i++) v.push_back(make_unique<SelectionDescription>(string(prefix) + (char)('0' + i), string("cand-") + (char)('0' + i), 3 + i)); return v; }
static void freeSels(eg_selection_description_t **v, int n) { for (int i = 0; i < n; i++) OK(eg_selection_description_free(v[i])); }
ENTRY(h_contests)
{
    Str a("a"), b("b"), c("c"); uint64_t seq = num("seq"), el = num("elected"), al = num("allowed"); auto t = KINDS[eg_choice(3, "variation")]; auto ct = (eg_vote_variation_type_t)t; char p0[] = "p0", p1[] = "p1"; char *pp[2] = {p0, p1}; vector<string> P{"p0", "p1"};
    eg_selection_description_t *s[2], *ph[2]; csels(s, "s", 2); csels(ph, "p", 2); auto *ti = ctext(a, b, 1), *su = ctext(b, c, 2); auto Ti = [&] { return make_unique<InternationalizedText>(langs(a, b, 1)); }; auto Su = [&] { return make_unique<InternationalizedText>(langs(b, c, 2)); };
    auto checks = [&](eg_contest_description_t *h) {
        auto &X = as<ContestDescription>(h); TEXTC(eg_contest_description_get_object_id, h, X.getObjectId()); TEXTC(eg_contest_description_get_electoral_district_id, h, X.getElectoralDistrictId()); TEXTC(eg_contest_description_get_name, h, X.getName());
        MUST(eg_contest_description_get_sequence_order(h) == X.getSequenceOrder() && eg_contest_description_get_number_elected(h) == X.getNumberElected() && eg_contest_description_get_votes_allowed(h) == X.getVotesAllowed() && eg_contest_description_get_vote_variation(h) == (eg_vote_variation_type_t)X.getVoteVariation(), "numbers of the contest");
        eg_internationalized_text_t *o = nullptr; OK(eg_contest_description_get_ballot_title(h, &o)); MUST((void *)o == (void *)X.getBallotTitle(), "title"); OK(eg_contest_description_get_ballot_subtitle(h, &o)); MUST((void *)o == (void *)X.getBallotSubtitle(), "subtitle");
        ITEMS(eg_contest_description_get_selections_size, eg_contest_description_get_selection_at_index, eg_selection_description_t, h, SelectionDescription, X.getSelections());
    };
    auto id = a.v; uint32_t k = eg_choice(8, "constructor");
    if (k < 4) {
        eg_contest_description_t *h = nullptr; auto X = xsels("s", 2);
        switch (k) {
        case 0: OK(eg_contest_description_new(a, b, seq, ct, el, c, s, 2, &h)); SAME(h, ContestDescription, ContestDescription(a.v, b.v, seq, t, el, c.v, std::move(X))); break;
        case 1: OK(eg_contest_description_new_with_title(a, b, seq, ct, el, al, c, ti, su, s, 2, &h)); SAME(h, ContestDescription, ContestDescription(a.v, b.v, seq, t, el, al, c.v, Ti(), Su(), std::move(X))); break;
        case 2: OK(eg_contest_description_new_with_parties(a, b, seq, ct, el, c, s, 2, pp, 2, &h)); SAME(h, ContestDescription, ContestDescription(a.v, b.v, seq, t, el, c.v, std::move(X), P)); break;
        default: OK(eg_contest_description_new_with_title_and_parties(a, b, seq, ct, el, al, c, ti, su, s, 2, pp, 2, &h)); SAME(h, ContestDescription, ContestDescription(a.v, b.v, seq, t, el, al, c.v, Ti(), Su(), std::move(X), P));
        }
        checks(h); OK(eg_contest_description_free(h));
    } else {
        eg_contest_description_with_placeholders_t *h = nullptr; using W = ContestDescriptionWithPlaceholders; auto X = xsels("s", 2), Y = xsels("p", 2);
        switch (k) {
        case 4: OK(eg_contest_description_with_placeholders_new(a, b, seq, ct, el, c, s, 2, ph, 2, &h)); SAME(h, W, W(a.v, b.v, seq, t, el, c.v, std::move(X), std::move(Y))); break;
        case 5: OK(eg_contest_description_with_placeholders_new_with_title(a, b, seq, ct, el, al, c, ti, su, s, 2, ph, 2, &h)); SAME(h, W, W(a.v, b.v, seq, t, el, al, c.v, Ti(), Su(), std::move(X), std::move(Y))); break;
        case 6: OK(eg_contest_description_with_placeholders_new_with_parties(a, b, seq, ct, el, c, s, 2, pp, 2, ph, 2, &h)); SAME(h, W, W(a.v, b.v, seq, t, el, c.v, std::move(X), P, std::move(Y))); break;
        default: OK(eg_contest_description_with_placeholders_new_with_title_and_parties(a, b, seq, ct, el, al, c, ti, su, s, 2, pp, 2, ph, 2, &h)); SAME(h, W, W(a.v, b.v, seq, t, el, al, c.v, Ti(), Su(), std::move(X), P, std::move(Y)));
        }
        checks((eg_contest_description_t *)h);
        ITEMS(eg_contest_description_with_placeholders_get_placeholders_size, eg_contest_description_with_placeholders_get_placeholder_at_index, eg_contest_description_with_placeholders_t, h, SelectionDescription, as<W>(h).getPlaceholders());
        Str i("wanted"); eg_selection_description_t *o = nullptr; auto st = eg_contest_description_with_placeholders_selection_for_id(h, i, &o); bool known = i.v == "s0" || i.v == "s1" || i.v == "p0" || i.v == "p1";
        MUST(known == (st == ELECTIONGUARD_STATUS_SUCCESS && o), "a selection is found by its id exactly when there is one"); if (known) { MUST(as<SelectionDescription>(o).getObjectId() == i.v, "and it is that one"); MUST(eg_contest_description_with_placeholders_is_placeholder(h, o) == (i.v[0] == 'p'), "placeholders are told apart"); }
        OK(eg_contest_description_with_placeholders_free(h));
    }
    freeSels(s, 2); freeSels(ph, 2); OK(eg_internationalized_text_free(ti)); OK(eg_internationalized_text_free(su));
    eg_reach(1);
}
struct CM { eg_geopolitical_unit_t *g[2]; eg_party_t *p[2]; eg_candidate_t *k[3]; eg_contest_description_t *c[1]; eg_ballot_style_t *b[2]; eg_election_manifest_t *m = nullptr; };
static void parts(CM &x)
{
    char g0[] = "geo-0", g1[] = "geo-1", n[] = "n", p0[] = "p0", p1[] = "p1", k0[] = "cand-0", k1[] = "cand-1", k2[] = "cand-2", b0[] = "bs", b1[] = "bt"; char *u0[1] = {g0}, *u1[2] = {g0, g1}; eg_selection_description_t *s[2]; csels(s, "c-s", 2);
    OK(eg_geopolitical_unit_new(g0, n, (eg_reporting_unit_type_t)UNITS[1], &x.g[0])); OK(eg_geopolitical_unit_new(g1, n, (eg_reporting_unit_type_t)UNITS[2], &x.g[1])); OK(eg_party_new(p0, &x.p[0])); OK(eg_party_new(p1, &x.p[1]));
    OK(eg_candidate_new(k0, false, &x.k[0])); OK(eg_candidate_new(k1, false, &x.k[1])); OK(eg_candidate_new(k2, true, &x.k[2])); OK(eg_contest_description_new("c", g0, 1, (eg_vote_variation_type_t)KINDS[1], 1, n, s, 2, &x.c[0]));
    OK(eg_ballot_style_new(b0, u0, 1, &x.b[0])); OK(eg_ballot_style_new(b1, u1, 2, &x.b[1])); freeSels(s, 2);
}
static void freeParts(CM &x) { for (auto *g : x.g) OK(eg_geopolitical_unit_free(g)); for (auto *p : x.p) OK(eg_party_free(p)); for (auto *k : x.k) OK(eg_candidate_free(k)); for (auto *c : x.c) OK(eg_contest_description_free(c)); for (auto *b : x.b) OK(eg_ballot_style_free(b)); }
static void dump(Dump &d, const Manifest *x)
{
    d.t("scope", x->getElectionScopeId()); d.n("type", (uint64_t)x->getElectionType()); d.n("from", (uint64_t)x->getStartDate().time_since_epoch().count()); d.n("to", (uint64_t)x->getEndDate().time_since_epoch().count());
    auto g = x->getGeopoliticalUnits(); d.n("units", g.size()); for (auto &y : g) dump(d, &y.get()); auto p = x->getParties(); d.n("parties", p.size()); for (auto &y : p) dump(d, &y.get()); auto c = x->getCandidates(); d.n("candidates", c.size()); for (auto &y : c) dump(d, &y.get());
    auto o = x->getContests(); d.n("contests", o.size()); for (auto &y : o) dump(d, &y.get()); auto b = x->getBallotStyles(); d.n("styles", b.size()); for (auto &y : b) dump(d, &y.get()); dump(d, x->getName()); dump(d, x->getContactInformation());
}
static void dump(Dump &d, const InternalManifest *x)
{
    auto g = x->getGeopoliticalUnits(); d.n("units", g.size()); for (auto &y : g) dump(d, &y.get()); auto o = x->getContests(); d.n("contests", o.size()); for (auto &y : o) dump(d, &y.get());
    auto b = x->getBallotStyles(); d.n("styles", b.size()); for (auto &y : b) dump(d, &y.get()); d.q("hash", x->getManifestHash());
}
static unique_ptr<Manifest> xmanifest(const string &scope, ElectionType t, uint64_t from, uint64_t to, unique_ptr<InternationalizedText> name = nullptr, unique_ptr<ContactInformation> contact = nullptr)
{
    using ms = std::chrono::milliseconds; std::chrono::system_clock::time_point a{ms{from}}, b{ms{to}};
    return make_unique<Manifest>(scope, t, a, b, uv(make_unique<GeopoliticalUnit>("geo-0", "n", UNITS[1]), make_unique<GeopoliticalUnit>("geo-1", "n", UNITS[2])), uv(make_unique<Party>("p0"), make_unique<Party>("p1")),
                                 uv(make_unique<Candidate>("cand-0", false), make_unique<Candidate>("cand-1", false), make_unique<Candidate>("cand-2", true)), uv(make_unique<ContestDescription>("c", "geo-0", 1, KINDS[1], 1, "n", xsels("c-s", 2))),
                                 uv(make_unique<BallotStyle>("bs", vector<string>{"geo-0"}), make_unique<BallotStyle>("bt", vector<string>{"geo-0", "geo-1"})), std::move(name), std::move(contact));
}
static void build(CM &x, Str &scope, ElectionType t, uint64_t from, uint64_t to) { parts(x); OK(eg_election_manifest_new(scope, (eg_election_type_t)t, from, to, x.g, 2, x.p, 2, x.k, 3, x.c, 1, x.b, 2, &x.m)); freeParts(x); }
static const ElectionType ETYPES[] = {ElectionType::unknown, ElectionType::general, ElectionType::primary};
ENTRY(h_manifest)
{
    Str a("a"), b("b"), c("c"); uint8_t f8, t8; eg_sym_bytes(&f8, 1, "from"); eg_sym_bytes(&t8, 1, "to"); uint32_t sh = 8 * eg_choice(5, "date"); uint64_t from = 1600000000000ull ^ ((uint64_t)f8 << sh), to = 1600086400123ull ^ ((uint64_t)t8 << sh);   // milliseconds: one byte of each date is unknown
    auto t = ETYPES[eg_choice(3, "type")]; CM x; bool full = eg_choice(2, "contact"); unique_ptr<Manifest> w;
    if (full) {
        parts(x); auto *n = ctext(a, b, 2); auto *ci = ccontact(a, b, c); OK(eg_election_manifest_new_with_contact(c, (eg_election_type_t)t, from, to, x.g, 2, x.p, 2, x.k, 3, x.c, 1, x.b, 2, n, ci, &x.m)); freeParts(x); OK(eg_internationalized_text_free(n)); OK(eg_contact_information_free(ci));
        w = xmanifest(c.v, t, from, to, make_unique<InternationalizedText>(langs(a, b, 2)), xcontact(a, b, c));
    } else { build(x, c, t, from, to); w = xmanifest(c.v, t, from, to); }
    SAME(x.m, Manifest, *w); auto &M = as<Manifest>(x.m); TEXT(eg_election_manifest_get_election_scope_id, x.m, c.v);
    MUST(eg_election_manifest_get_type(x.m) == (eg_election_type_t)t, "the type"); MUST(eg_election_manifest_get_start_date(x.m) == from, "the start date is the one given"); MUST(eg_election_manifest_get_end_date(x.m) == to, "the end date is the one given");
    ITEMS(eg_election_manifest_get_geopolitical_units_size, eg_election_manifest_get_geopolitical_unit_at_index, eg_geopolitical_unit_t, x.m, GeopoliticalUnit, M.getGeopoliticalUnits());
    ITEMS(eg_election_manifest_get_parties_size, eg_election_manifest_get_party_at_index, eg_party_t, x.m, Party, M.getParties());
    ITEMS(eg_election_manifest_get_candidates_size, eg_election_manifest_get_candidate_at_index, eg_candidate_t, x.m, Candidate, M.getCandidates());
    ITEMS(eg_election_manifest_get_contests_size, eg_election_manifest_get_contest_at_index, eg_contest_description_t, x.m, ContestDescription, M.getContests());
    ITEMS(eg_election_manifest_get_ballot_styles_size, eg_election_manifest_get_ballot_style_at_index, eg_ballot_style_t, x.m, BallotStyle, M.getBallotStyles());
    eg_internationalized_text_t *n = nullptr; OK(eg_election_manifest_get_name(x.m, &n)); MUST((void *)n == (void *)M.getName(), "the name"); eg_contact_information_t *ci = nullptr; OK(eg_election_manifest_get_contact_info(x.m, &ci)); MUST((void *)ci == (void *)M.getContactInformation(), "the contact");
    MUST(eg_election_manifest_is_valid(x.m) == M.isValid(), "validity"); OK(eg_election_manifest_free(x.m));
    eg_reach(1);
}
ENTRY(h_internal)
{
    Str a("a"); CM x; build(x, a, ElectionType::general, 1600000000000ull, 1600086400000ull); auto w = xmanifest(a.v, ElectionType::general, 1600000000000ull, 1600086400000ull); eg_element_mod_q_t *h = nullptr; OK(eg_election_manifest_crypto_hash(x.m, &h)); MUST(as<ElementModQ>(h) == *w->crypto_hash(), "the manifest hash"); OK(eg_element_mod_q_free(h));
    eg_internal_manifest_t *i = nullptr; OK(eg_internal_manifest_new(x.m, &i)); OK(eg_election_manifest_free(x.m)); InternalManifest W(*w); SAME(i, InternalManifest, W); auto &I = as<InternalManifest>(i);
    eg_element_mod_q_t *o = nullptr; OK(eg_internal_manifest_get_manifest_hash(i, &o)); MUST((void *)o == (void *)I.getManifestHash(), "the hash of the internal manifest");
    ITEMS(eg_internal_manifest_get_geopolitical_units_size, eg_internal_manifest_get_geopolitical_unit_at_index, eg_geopolitical_unit_t, i, GeopoliticalUnit, I.getGeopoliticalUnits());
    ITEMS(eg_internal_manifest_get_contests_size, eg_internal_manifest_get_contest_at_index, eg_contest_description_with_placeholders_t, i, W, I.getContests());
    ITEMS(eg_internal_manifest_get_ballot_styles_size, eg_internal_manifest_get_ballot_style_at_index, eg_ballot_style_t, i, BallotStyle, I.getBallotStyles());
    Str id("style"); eg_ballot_style_t *s = nullptr; auto st = eg_internal_manifest_get_ballot_style(i, id, &s); bool known = id.v == "bs" || id.v == "bt"; MUST((st == ELECTIONGUARD_STATUS_SUCCESS && s) == known, "a ballot style is found by its id exactly when there is one"); if (known) MUST(as<BallotStyle>(s).getObjectId() == id.v, "and it is that one");
    OK(eg_internal_manifest_free(i));
    eg_reach(1);
}
// ------------------------------------------------------------------ ballots
static eg_plaintext_ballot_contest_t *ccon(const char *id, uint64_t v0, uint64_t v1)
{
    eg_plaintext_ballot_selection_t *s[2]; string a = string(id) + "-s0", b = string(id) + "-s1"; OK(eg_plaintext_ballot_selection_new(a.c_str(), v0, false, &s[0])); OK(eg_plaintext_ballot_selection_new(b.c_str(), v1, false, &s[1]));
    eg_plaintext_ballot_contest_t *c = nullptr; OK(eg_plaintext_ballot_contest_new((char *)id, s, 2, &c)); for (auto *x : s) OK(eg_plaintext_ballot_selection_free(x)); return c;
}
static unique_ptr<PlaintextBallotContest> xcon(const string &id, uint64_t v0, uint64_t v1) { return make_unique<PlaintextBallotContest>(id, uv(make_unique<PlaintextBallotSelection>(id + "-s0", v0), make_unique<PlaintextBallotSelection>(id + "-s1", v1))); }
static eg_plaintext_ballot_t *cballot(const char *id, uint64_t v0, uint64_t v1) { eg_plaintext_ballot_contest_t *c[1] = {ccon("c", v0, v1)}; eg_plaintext_ballot_t *b = nullptr; char st[] = "bs"; OK(eg_plaintext_ballot_new((char *)id, st, c, 1, &b)); OK(eg_plaintext_ballot_contest_free(c[0])); return b; }
static unique_ptr<PlaintextBallot> xballot(const string &id, uint64_t v0, uint64_t v1) { return make_unique<PlaintextBallot>(id, "bs", uv(xcon("c", v0, v1))); }
ENTRY(h_ballot)
{
    Str a("a"), b("b"), c("c"); uint64_t v = num("vote"); bool ph = flag("placeholder"); eg_plaintext_ballot_selection_t *s;
    if (eg_choice(2, "writein")) { OK(eg_plaintext_ballot_selection_new_with_write_in(a, v, ph, b, &s)); SAME(s, PlaintextBallotSelection, PlaintextBallotSelection(a.v, v, ph, b.v)); TEXT(eg_plaintext_ballot_selection_get_write_in, s, b.v); }
    else { OK(eg_plaintext_ballot_selection_new(a, v, ph, &s)); SAME(s, PlaintextBallotSelection, PlaintextBallotSelection(a.v, v, ph)); }
    TEXT(eg_plaintext_ballot_selection_get_object_id, s, a.v); MUST(eg_plaintext_ballot_selection_get_vote(s) == v && eg_plaintext_ballot_selection_get_is_placeholder(s) == ph, "vote and placeholder");
    MUST(eg_plaintext_ballot_selection_is_valid(s, c) == as<PlaintextBallotSelection>(s).isValid(c.v), "validity of the selection"); OK(eg_plaintext_ballot_selection_free(s));
    auto *k = ccon("cc", v, 1); auto w = xcon("cc", v, 1); SAME(k, PlaintextBallotContest, *w); TEXT(eg_plaintext_ballot_contest_get_object_id, k, string("cc"));
    ITEMS(eg_plaintext_ballot_contest_get_selections_size, eg_plaintext_ballot_contest_get_selection_at_index, eg_plaintext_ballot_selection_t, k, PlaintextBallotSelection, as<PlaintextBallotContest>(k).getSelections());
    eg_plaintext_ballot_contest_t *ks[2] = {k, ccon("dd", 0, 1)}; eg_plaintext_ballot_t *l = nullptr; OK(eg_plaintext_ballot_new(a, b, ks, 2, &l)); OK(eg_plaintext_ballot_contest_free(ks[0])); OK(eg_plaintext_ballot_contest_free(ks[1]));
    PlaintextBallot L(a.v, b.v, uv(xcon("cc", v, 1), xcon("dd", 0, 1))); SAME(l, PlaintextBallot, L); TEXT(eg_plaintext_ballot_get_object_id, l, a.v); TEXT(eg_plaintext_ballot_get_style_id, l, b.v);
    ITEMS(eg_plaintext_ballot_get_contests_size, eg_plaintext_ballot_get_contest_at_index, eg_plaintext_ballot_contest_t, l, PlaintextBallotContest, as<PlaintextBallot>(l).getContests()); OK(eg_plaintext_ballot_free(l));
    eg_reach(1);
}
ENTRY(h_contest_valid)
{
    Str id("id"); uint64_t v0 = num("v0"), v1 = num("v1"), n = num("selections"), e = num("elected"), a = num("allowed"); auto *k = ccon("cc", v0, v1); bool want = as<PlaintextBallotContest>(k).isValid(id.v, n, e, a) == electionguard::SUCCESS;
    MUST(eg_plaintext_ballot_contest_is_valid(k, id, n, e, a) == want, "a contest is valid through the C API exactly when it is valid"); OK(eg_plaintext_ballot_contest_free(k));
    eg_reach(want ? 1 : 2);
}
// reading and writing: the C functions give what the C++ ones give
template <class T, class H> void formats(H *h, const T &x, eg_electionguard_status_t (*js)(H *, char **, uint64_t *), eg_electionguard_status_t (*fj)(char *, H **), eg_electionguard_status_t (*fre)(H *), std::function<string()> wantJson)
{
    char *d = nullptr; uint64_t n = 0; OK(js(h, &d, &n)); string w = wantJson(); MUST(string(d) == w && n == w.size() + 1, "the JSON form"); H *r = nullptr; OK(fj(d, &r)); free(d);
    MUST(show(as<T>(r)) == show(*T::fromJson(w)), "read back from JSON as the C++ function does"); OK(fre(r));
}
template <class T, class H> void binary(H *h, eg_electionguard_status_t (*to)(H *, uint8_t **, uint64_t *), eg_electionguard_status_t (*from)(uint8_t *, uint64_t, H **), eg_electionguard_status_t (*fre)(H *), const vector<uint8_t> &w, std::function<unique_ptr<T>(vector<uint8_t>)> back)
{
    uint8_t *d = nullptr; uint64_t n = 0; OK(to(h, &d, &n)); MUST(vector<uint8_t>(d, d + n) == w, "the binary form"); H *r = nullptr; OK(from(d, n, &r)); delete[] d; MUST(show(as<T>(r)) == show(*back(w)), "read back as the C++ function does"); OK(fre(r));
}
static Election fixture() { return mkElection(xmanifest("e", ElectionType::general, 1600000000000ull, 1600086400000ull)); }
static void dump(Dump &d, const SubmittedBallot *x) { dump(d, static_cast<const CiphertextBallot *>(x), true); d.n("state", (uint64_t)x->getState()); }
static void dump(Dump &d, const CiphertextElectionContext *x)
{
    d.n("n", x->getNumberOfGuardians()); d.n("k", x->getQuorum()); d.pv("key", x->getElGamalPublicKey()); d.q("commitment", x->getCommitmentHash()); d.q("manifest", x->getManifestHash()); d.q("base", x->getCryptoBaseHash()); d.q("ext", x->getCryptoExtendedBaseHash());
    d.n("over", x->getConfiguration()->getAllowOverVotes()); d.n("max", x->getConfiguration()->getMaxNumberOfBallots()); auto e = x->getExtendedData(); d.n("extended", e.size()); for (auto k : {"k1", "k2"}) if (e.count(k)) { d.t("key", k); d.t("value", e[k]); }
}
ENTRY(h_written)
{
    Str a("a"); uint32_t f = eg_choice(5, "object"), g = eg_choice(3, "format"); eg_assume(eg_def("len", 2) != 2 || ((uint8_t)a.c[0] < 0x80 && (uint8_t)a.c[1] < 0x80));   // JSON texts are UTF-8
    if (f == 0) {
        auto *b = cballot(a, 1, 0); auto &B = as<PlaintextBallot>(b);
        if (g == 0) formats<PlaintextBallot>(b, B, eg_plaintext_ballot_to_json, eg_plaintext_ballot_from_json, eg_plaintext_ballot_free, [&] { return B.toJson(); });
        if (g == 1) binary<PlaintextBallot>(b, eg_plaintext_ballot_to_bson, eg_plaintext_ballot_from_bson, eg_plaintext_ballot_free, B.toBson(), [](auto v) { return PlaintextBallot::fromBson(v); });
        if (g == 2) binary<PlaintextBallot>(b, eg_plaintext_ballot_to_msgpack, eg_plaintext_ballot_from_msgpack, eg_plaintext_ballot_free, B.toMsgPack(), [](auto v) { return PlaintextBallot::fromMsgPack(v); });
        OK(eg_plaintext_ballot_free(b));
    } else if (f == 1) {
        CM x; build(x, a, ElectionType::general, 1600000000000ull, 1600086400000ull); auto &B = as<Manifest>(x.m);
        if (g == 0) formats<Manifest>(x.m, B, eg_election_manifest_to_json, eg_election_manifest_from_json, eg_election_manifest_free, [&] { return B.toJson(); });
        if (g == 1) binary<Manifest>(x.m, eg_election_manifest_to_bson, eg_election_manifest_from_bson, eg_election_manifest_free, B.toBson(), [](auto v) { return Manifest::fromBson(v); });
        if (g == 2) binary<Manifest>(x.m, eg_election_manifest_to_msgpack, eg_election_manifest_from_msgpack, eg_election_manifest_free, B.toMsgPack(), [](auto v) { return Manifest::fromMsgPack(v); });
        OK(eg_election_manifest_free(x.m));
    } else if (f == 2) {
        CM x; Str &n = a; build(x, n, ElectionType::general, 1600000000000ull, 1600086400000ull); eg_internal_manifest_t *i = nullptr; OK(eg_internal_manifest_new(x.m, &i)); OK(eg_election_manifest_free(x.m)); auto &B = as<InternalManifest>(i);
        if (g == 0) formats<InternalManifest>(i, B, eg_internal_manifest_to_json, eg_internal_manifest_from_json, eg_internal_manifest_free, [&] { return B.toJson(); });
        if (g == 1) binary<InternalManifest>(i, eg_internal_manifest_to_bson, eg_internal_manifest_from_bson, eg_internal_manifest_free, B.toBson(), [](auto v) { return InternalManifest::fromBson(v); });
        if (g == 2) binary<InternalManifest>(i, eg_internal_manifest_to_msgpack, eg_internal_manifest_from_msgpack, eg_internal_manifest_free, B.toMsgPack(), [](auto v) { return InternalManifest::fromMsgPack(v); });
        OK(eg_internal_manifest_free(i));
    } else {
        Election e = fixture(); auto nonce = qvar("nonce"), seed = qvar("seed"); auto p = xballot(string("b") + a.v.substr(0, 1), 1, 0); auto B = encryptBallot(*p, *e.internal, *e.context, *seed, dup(nonce), 77, false); auto *h = (eg_ciphertext_ballot_t *)B.get();
        if (f == 3) {
            uint32_t with = eg_choice(2, "nonces");
            if (g == 0) { char *d = nullptr; uint64_t n = 0; OK(with ? eg_ciphertext_ballot_to_json_with_nonces(h, &d, &n) : eg_ciphertext_ballot_to_json(h, &d, &n)); string w = B->toJson(with); MUST(string(d) == w && n == w.size() + 1, "the JSON form"); eg_ciphertext_ballot_t *r = nullptr; OK(eg_ciphertext_ballot_from_json(d, &r)); free(d); MUST(show(as<CiphertextBallot>(r)) == show(*CiphertextBallot::fromJson(w)), "read back"); OK(eg_ciphertext_ballot_free(r)); }
            if (g == 1) binary<CiphertextBallot>(h, with ? eg_ciphertext_ballot_to_bson_with_nonces : eg_ciphertext_ballot_to_bson, eg_ciphertext_ballot_from_bson, eg_ciphertext_ballot_free, B->toBson(with), [](auto v) { return CiphertextBallot::fromBson(v); });
            if (g == 2) binary<CiphertextBallot>(h, with ? eg_ciphertext_ballot_to_msgpack_with_nonces : eg_ciphertext_ballot_to_msgpack, eg_ciphertext_ballot_from_msgpack, eg_ciphertext_ballot_free, B->toMsgPack(with), [](auto v) { return CiphertextBallot::fromMsgPack(v); });
        } else {
            static const BallotBoxState st[] = {BallotBoxState::cast, BallotBoxState::spoiled, BallotBoxState::unknown}; auto k = st[eg_choice(3, "state")]; eg_submitted_ballot_t *s = nullptr; OK(eg_submitted_ballot_from(h, (eg_ballot_box_state_t)k, &s)); auto S = SubmittedBallot::from(*B, k); SAME(s, SubmittedBallot, *S); MUST(eg_submitted_ballot_get_state(s) == (eg_ballot_box_state_t)k, "the state");
            auto &X = as<SubmittedBallot>(s);
            if (g == 0) formats<SubmittedBallot>(s, X, eg_submitted_ballot_to_json, eg_submitted_ballot_from_json, eg_submitted_ballot_free, [&] { return X.toJson(); });
            if (g == 1) binary<SubmittedBallot>(s, eg_submitted_ballot_to_bson, eg_submitted_ballot_from_bson, eg_submitted_ballot_free, X.toBson(), [](auto v) { return SubmittedBallot::fromBson(v); });
            if (g == 2) binary<SubmittedBallot>(s, eg_submitted_ballot_to_msgpack, eg_submitted_ballot_from_msgpack, eg_submitted_ballot_free, X.toMsgPack(), [](auto v) { return SubmittedBallot::fromMsgPack(v); });
            OK(eg_submitted_ballot_free(s));
        }
    }
    eg_reach(1);
}
// ------------------------------------------------------------------ encryption and its results
#define REF(fn, h_, ht, want) { ht *o_ = nullptr; OK(fn(h_, &o_)); MUST((void *)o_ == (void *)(want), #fn " gives the part"); }
static void readSelection(CiphertextBallotSelection &s, const EQ &seed, const EP &key, const EQ &base)
{
    auto *h = (eg_ciphertext_ballot_selection_t *)&s; TEXT(eg_ciphertext_ballot_selection_get_object_id, h, s.getObjectId()); MUST(eg_ciphertext_ballot_selection_get_sequence_order(h) == s.getSequenceOrder() && eg_ciphertext_ballot_selection_get_is_placeholder(h) == s.getIsPlaceholder(), "order and placeholder");
    REF(eg_ciphertext_ballot_selection_get_description_hash, h, eg_element_mod_q_t, s.getDescriptionHash()); REF(eg_ciphertext_ballot_selection_get_ciphertext, h, eg_elgamal_ciphertext_t, s.getCiphertext()); REF(eg_ciphertext_ballot_selection_get_crypto_hash, h, eg_element_mod_q_t, s.getCryptoHash()); REF(eg_ciphertext_ballot_selection_get_nonce, h, eg_element_mod_q_t, s.getNonce());
    REF(eg_ciphertext_ballot_selection_get_proof, h, eg_disjunctive_chaum_pedersen_proof_t, s.getProof());
    eg_element_mod_q_t *o = nullptr; OK(eg_ciphertext_ballot_selection_crypto_hash_with(h, hq(seed), &o)); MUST(as<ElementModQ>(o) == *s.crypto_hash_with(*seed), "the hash of the selection"); OK(eg_element_mod_q_free(o));
    MUST(eg_ciphertext_ballot_selection_is_valid_encryption(h, hq(seed), hp(key), hq(base)) == s.isValidEncryption(*seed, *key, *base), "validity of the selection");
    auto *p = s.getProof(); auto *q = (eg_disjunctive_chaum_pedersen_proof_t *)p;
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_pad, q, eg_element_mod_p_t, p->getProofZeroPad()); REF(eg_disjunctive_chaum_pedersen_proof_get_zero_data, q, eg_element_mod_p_t, p->getProofZeroData()); REF(eg_disjunctive_chaum_pedersen_proof_get_one_pad, q, eg_element_mod_p_t, p->getProofOnePad()); REF(eg_disjunctive_chaum_pedersen_proof_get_one_data, q, eg_element_mod_p_t, p->getProofOneData());
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_challenge, q, eg_element_mod_q_t, p->getProofZeroChallenge()); REF(eg_disjunctive_chaum_pedersen_proof_get_one_challenge, q, eg_element_mod_q_t, p->getProofOneChallenge()); REF(eg_disjunctive_chaum_pedersen_proof_get_challenge, q, eg_element_mod_q_t, p->getChallenge());
    REF(eg_disjunctive_chaum_pedersen_proof_get_zero_response, q, eg_element_mod_q_t, p->getProofZeroResponse()); REF(eg_disjunctive_chaum_pedersen_proof_get_one_response, q, eg_element_mod_q_t, p->getProofOneResponse());
    MUST(eg_disjunctive_chaum_pedersen_proof_is_valid(q, (eg_elgamal_ciphertext_t *)s.getCiphertext(), hp(key), hq(base)) == p->isValid(*s.getCiphertext(), *key, *base), "validity of the proof");
}
static void readContest(CiphertextBallotContest &c, const EQ &seed, const EP &key, const EQ &base)
{
    auto *h = (eg_ciphertext_ballot_contest_t *)&c; TEXT(eg_ciphertext_ballot_contest_get_object_id, h, c.getObjectId()); MUST(eg_ciphertext_ballot_contest_get_sequence_order(h) == c.getSequenceOrder(), "order");
    REF(eg_ciphertext_ballot_contest_get_description_hash, h, eg_element_mod_q_t, c.getDescriptionHash()); REF(eg_ciphertext_ballot_contest_get_nonce, h, eg_element_mod_q_t, c.getNonce()); REF(eg_ciphertext_ballot_contest_get_ciphertext_accumulation, h, eg_elgamal_ciphertext_t, c.getCiphertextAccumulation()); REF(eg_ciphertext_ballot_contest_get_crypto_hash, h, eg_element_mod_q_t, c.getCryptoHash()); REF(eg_ciphertext_ballot_contest_get_proof, h, eg_constant_chaum_pedersen_proof_t, c.getProof());
    ITEMS(eg_ciphertext_ballot_contest_get_selections_size, eg_ciphertext_ballot_contest_get_selection_at_index, eg_ciphertext_ballot_selection_t, h, CiphertextBallotSelection, c.getSelections());
    eg_element_mod_q_t *o = nullptr; OK(eg_ciphertext_ballot_contest_crypto_hash_with(h, hq(seed), &o)); MUST(as<ElementModQ>(o) == *c.crypto_hash_with(*seed), "the hash of the contest"); OK(eg_element_mod_q_free(o));
    OK(eg_ciphertext_ballot_contest_aggregate_nonce(h, &o)); MUST(as<ElementModQ>(o) == *c.aggregateNonce(), "the aggregate nonce"); OK(eg_element_mod_q_free(o)); eg_elgamal_ciphertext_t *a = nullptr; OK(eg_ciphertext_ballot_contest_elgamal_accumulate(h, &a)); MUST(show(as<ElGamalCiphertext>(a)) == show(*c.elgamalAccumulate()), "the accumulation"); OK(eg_elgamal_ciphertext_free(a));
    MUST(eg_ciphertext_ballot_contest_is_valid_encryption(h, hq(seed), hp(key), hq(base)) == c.isValidEncryption(*seed, *key, *base), "validity of the contest");
    auto *p = c.getProof(); auto *q = (eg_constant_chaum_pedersen_proof_t *)p; REF(eg_constant_chaum_pedersen_proof_get_pad, q, eg_element_mod_p_t, p->getPad()); REF(eg_constant_chaum_pedersen_proof_get_data, q, eg_element_mod_p_t, p->getData()); REF(eg_constant_chaum_pedersen_proof_get_challenge, q, eg_element_mod_q_t, p->getChallenge()); REF(eg_constant_chaum_pedersen_proof_get_response, q, eg_element_mod_q_t, p->getResponse());
    MUST(eg_constant_chaum_pedersen_proof_is_valid(q, (eg_elgamal_ciphertext_t *)c.getCiphertextAccumulation(), hp(key), hq(base)) == p->isValid(*c.getCiphertextAccumulation(), *key, *base), "validity of the proof");
}
ENTRY(h_encrypted)
{
    Election e = fixture(); auto nonce = qvar("nonce"), seed = qvar("seed"); bool one = eg_choice(2, "vote"), verify = eg_choice(2, "verify"); auto *p = cballot("b", one, 0); eg_ciphertext_ballot_t *h = nullptr;
    OK(eg_encrypt_ballot_with_nonce(p, (eg_internal_manifest_t *)e.internal.get(), (eg_ciphertext_election_context_t *)e.context.get(), hq(seed), hq(nonce), verify, &h)); auto &B = *mut<CiphertextBallot>(h);
    auto w = encryptBallot(*xballot("b", one, 0), *e.internal, *e.context, *seed, dup(nonce), B.getTimestamp(), false); MUST(showNoProofs(B) == showNoProofs(*w), "the ballot encrypted through the C API is the ballot encrypted");
    OK(eg_plaintext_ballot_free(p)); nonce = nullptr;   // the caller frees its own nonce
    TEXT(eg_ciphertext_ballot_get_object_id, h, B.getObjectId()); TEXT(eg_ciphertext_ballot_get_style_id, h, B.getStyleId()); uint64_t t = 0; OK(eg_ciphertext_ballot_get_timestamp(h, &t)); MUST(t == B.getTimestamp(), "the timestamp");
    REF(eg_ciphertext_ballot_get_manifest_hash, h, eg_element_mod_q_t, B.getManifestHash()); REF(eg_ciphertext_ballot_get_ballot_code_seed, h, eg_element_mod_q_t, B.getBallotCodeSeed()); REF(eg_ciphertext_ballot_get_ballot_code, h, eg_element_mod_q_t, B.getBallotCode()); REF(eg_ciphertext_ballot_get_nonce, h, eg_element_mod_q_t, B.getNonce()); REF(eg_ciphertext_ballot_get_crypto_hash, h, eg_element_mod_q_t, B.getCryptoHash());
    ITEMS(eg_ciphertext_ballot_get_contests_size, eg_ciphertext_ballot_get_contest_at_index, eg_ciphertext_ballot_contest_t, h, CiphertextBallotContest, B.getContests());
    auto m = make_unique<ElementModQ>(*B.getManifestHash()), base = make_unique<ElementModQ>(*e.context->getCryptoExtendedBaseHash()); eg_element_mod_q_t *o = nullptr; OK(eg_ciphertext_ballot_crypto_hash_with(h, hq(m), &o)); MUST(as<ElementModQ>(o) == *B.crypto_hash_with(*m), "the hash of the ballot"); OK(eg_element_mod_q_free(o));
    auto any = qvar("any"); MUST(eg_ciphertext_ballot_is_valid_encryption(h, hq(m), hp(e.key), hq(base)), "a valid ballot is valid"); MUST(!eg_ciphertext_ballot_is_valid_encryption(h, hq(any), hp(e.key), hq(base)) || *any == *m, "and not for another manifest");
    auto &c = B.getContests()[0].get(); auto dh = make_unique<ElementModQ>(*c.getDescriptionHash()); readContest(c, dh, e.key, base); auto &s = c.getSelections()[eg_choice(3, "selection")].get(); auto sh = make_unique<ElementModQ>(*s.getDescriptionHash()); readSelection(s, sh, e.key, base); readSelection(s, sh, e.key, any); readContest(c, any, e.key, base);
    OK(eg_ciphertext_ballot_free(h));
    eg_reach(1);
}
ENTRY(h_compact)
{
    Election e = fixture(); auto nonce = qvar("nonce"), seed = qvar("seed"); bool one = eg_choice(2, "vote"); auto *p = cballot("b", one, 0); eg_compact_ciphertext_ballot_t *h = nullptr;
    OK(eg_encrypt_compact_ballot_with_nonce(p, (eg_internal_manifest_t *)e.internal.get(), (eg_ciphertext_election_context_t *)e.context.get(), hq(seed), hq(nonce), false, &h)); auto &B = *mut<CompactCiphertextBallot>(h);
    auto w = encryptCompactBallot(*xballot("b", one, 0), *e.internal, *e.context, *seed, dup(nonce), B.getTimestamp(), false); MUST(show(B) == show(*w), "the compact ballot encrypted through the C API is the ballot encrypted"); OK(eg_plaintext_ballot_free(p)); nonce = nullptr;
    TEXT(eg_compact_ciphertext_ballot_get_object_id, h, string("b"));
    binary<CompactCiphertextBallot>(h, eg_compact_ciphertext_ballot_to_msgpack, eg_compact_ciphertext_ballot_from_msgpack, eg_compact_ciphertext_ballot_free, B.toMsgPack(), [](auto v) { return CompactCiphertextBallot::fromMsgPack(v); }); OK(eg_compact_ciphertext_ballot_free(h));
    auto c = CompactPlaintextBallot::make(*xballot("b", one, 0)); auto *k = (eg_compact_plaintext_ballot_t *)c.get(); binary<CompactPlaintextBallot>(k, eg_compact_plaintext_ballot_to_msgpack, eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_free, c->toMsgPack(), [](auto v) { return CompactPlaintextBallot::fromMsgPack(v); });
    eg_reach(1);
}
ENTRY(h_mediator)
{
    Election e = fixture(); uint8_t v8[3]; eg_sym_bytes(v8, 3, "device"); uint64_t id = v8[0], se = v8[1], la = v8[2]; Str where("where"); eg_encryption_device_t *d = nullptr; OK(eg_encryption_device_new(id, se, la, where, &d)); auto &D = as<EncryptionDevice>(d);
    MUST(D.getDeviceUuid() == id && D.getSessionUuid() == se && D.getLaunchCode() == la && D.getLocation() == where.v, "the device"); OK(eg_encryption_device_free(d)); OK(eg_encryption_device_new(7, 8, 9, "w", &d)); auto &E = as<EncryptionDevice>(d);
    eg_element_mod_q_t *h = nullptr; OK(eg_encryption_device_get_hash(d, &h)); MUST(as<ElementModQ>(h) == *E.getHash(), "the hash of the device"); OK(eg_element_mod_q_free(h)); OK(eg_ballot_code_get_hash_for_device(7, 8, 9, "w", &h)); MUST(as<ElementModQ>(h) == *E.getHash(), "the hash for the device"); OK(eg_element_mod_q_free(h));
    { char *t = nullptr; uint64_t n = 0; OK(eg_encryption_device_to_json(d, &t, &n)); MUST(string(t) == E.toJson() && n == E.toJson().size() + 1, "the JSON form of the device"); eg_encryption_device_t *r = nullptr; OK(eg_encryption_device_from_json(t, &r)); free(t); MUST(as<EncryptionDevice>(r).toJson() == E.toJson(), "read back"); OK(eg_encryption_device_free(r)); }
    auto seed = qvar("seed"), bh = qvar("hash"); uint64_t ts = 1234; OK(eg_ballot_code_get_ballot_code(hq(seed), ts, hq(bh), &h)); MUST(as<ElementModQ>(h) == *BallotCode::getBallotCode(*seed, ts, *bh), "the ballot code"); OK(eg_element_mod_q_free(h));
    eg_encryption_mediator_t *m = nullptr; OK(eg_encryption_mediator_new((eg_internal_manifest_t *)e.internal.get(), (eg_ciphertext_election_context_t *)e.context.get(), d, &m)); auto *p = cballot("b", 1, 0), *q = cballot("c", 0, 0); eg_ciphertext_ballot_t *b = nullptr; eg_compact_ciphertext_ballot_t *c = nullptr; uint32_t how = eg_choice(4, "how");
    if (how == 0) OK(eg_encryption_mediator_encrypt_ballot(m, p, &b)); if (how == 1) OK(eg_encryption_mediator_encrypt_ballot_verify_proofs(m, p, &b)); if (how == 2) OK(eg_encryption_mediator_compact_encrypt_ballot(m, p, &c)); if (how == 3) OK(eg_encryption_mediator_compact_encrypt_ballot_verify_proofs(m, p, &c));
    auto first = make_unique<ElementModQ>(how < 2 ? *as<CiphertextBallot>(b).getBallotCode() : *as<CompactCiphertextBallot>(c).getBallotCode()); auto *s0 = how < 2 ? as<CiphertextBallot>(b).getBallotCodeSeed() : as<CompactCiphertextBallot>(c).getBallotCodeSeed(); MUST(*s0 == *E.getHash(), "the first ballot chains from the device");
    if (how < 2) { auto w = encryptBallot(*xballot("b", 1, 0), *e.internal, *e.context, *s0, make_unique<ElementModQ>(*as<CiphertextBallot>(b).getNonce()), as<CiphertextBallot>(b).getTimestamp(), false); MUST(showNoProofs(as<CiphertextBallot>(b)) == showNoProofs(*w), "the ballot encrypted through the mediator"); OK(eg_ciphertext_ballot_free(b)); }
    else { auto w = encryptCompactBallot(*xballot("b", 1, 0), *e.internal, *e.context, *s0, make_unique<ElementModQ>(*as<CompactCiphertextBallot>(c).getNonce()), as<CompactCiphertextBallot>(c).getTimestamp(), false); MUST(show(as<CompactCiphertextBallot>(c)) == show(*w), "the compact ballot encrypted through the mediator"); OK(eg_compact_ciphertext_ballot_free(c)); }
    b = nullptr; OK(eg_encryption_mediator_encrypt_ballot(m, q, &b)); MUST(*as<CiphertextBallot>(b).getBallotCodeSeed() == *first, "the second ballot chains from the first"); OK(eg_ciphertext_ballot_free(b)); OK(eg_plaintext_ballot_free(p)); OK(eg_plaintext_ballot_free(q)); OK(eg_encryption_mediator_free(m)); OK(eg_encryption_device_free(d));
    eg_reach(1);
}
ENTRY(h_elgamal)
{
    auto key = qvar("key"), r = qvar("r"), base = qvar("base"), seed = qvar("seed"); eg_elgamal_keypair_t *k = nullptr; OK(eg_elgamal_keypair_from_secret_new(hq(key), &k)); eg_element_mod_p_t *pub = nullptr; eg_element_mod_q_t *sec = nullptr; OK(eg_elgamal_keypair_get_public_key(k, &pub)); OK(eg_elgamal_keypair_get_secret_key(k, &sec));
    auto K = ElGamalKeyPair::fromSecret(*key); MUST(as<ElementModP>(pub) == *K->getPublicKey() && as<ElementModQ>(sec) == *key, "the key pair"); uint64_t v = eg_choice(2, "vote"); eg_elgamal_ciphertext_t *c = nullptr; OK(eg_elgamal_encrypt(v, hq(r), pub, &c)); auto C = elgamalEncrypt(v, *r, *K->getPublicKey()); MUST(show(as<ElGamalCiphertext>(c)) == show(*C), "the ciphertext");
    eg_element_mod_p_t *x = nullptr; OK(eg_elgamal_ciphertext_get_pad(c, &x)); MUST(as<ElementModP>(x) == *C->getPad(), "the pad"); OK(eg_elgamal_ciphertext_get_data(c, &x)); MUST(as<ElementModP>(x) == *C->getData(), "the data"); eg_element_mod_q_t *h = nullptr; OK(eg_elgamal_ciphertext_crypto_hash(c, &h)); MUST(as<ElementModQ>(h) == *C->crypto_hash(), "the hash"); OK(eg_element_mod_q_free(h));
    eg_disjunctive_chaum_pedersen_proof_t *d = nullptr; OK(eg_disjunctive_chaum_pedersen_proof_make_deterministic(c, hq(r), pub, hq(base), hq(seed), v, &d)); auto D = DisjunctiveChaumPedersenProof::make(*C, *r, *K->getPublicKey(), *base, *seed, v); MUST(show(as<DisjunctiveChaumPedersenProof>(d)) == show(*D), "the disjunctive proof"); OK(eg_disjunctive_chaum_pedersen_proof_free(d));
    OK(eg_disjunctive_chaum_pedersen_proof_make(c, hq(r), pub, hq(base), v, &d)); MUST(eg_disjunctive_chaum_pedersen_proof_is_valid(d, c, pub, hq(base)), "a proof with nonces of its own is valid"); OK(eg_disjunctive_chaum_pedersen_proof_free(d));
    uint64_t n = 3; eg_constant_chaum_pedersen_proof_t *p = nullptr; OK(eg_constant_chaum_pedersen_proof_make(c, hq(r), pub, hq(seed), hq(base), n, &p)); auto P = ConstantChaumPedersenProof::make(*C, *r, *K->getPublicKey(), *seed, *base, n); MUST(show(as<ConstantChaumPedersenProof>(p)) == show(*P), "the constant proof"); OK(eg_constant_chaum_pedersen_proof_free(p));
    OK(eg_elgamal_ciphertext_free(c)); OK(eg_elgamal_keypair_free(k));
    eg_reach(1);
}
ENTRY(h_decrypt)
{
    auto key = qvar("key"), r = qvar("r"); auto K = gpow(*key); uint64_t v = eg_choice(2, "vote"); eg_elgamal_ciphertext_t *c = nullptr; OK(eg_elgamal_encrypt(v, hq(r), hp(K), &c)); uint64_t back = 9; OK(eg_elgamal_ciphertext_decrypt_with_secret(c, hq(key), &back)); MUST(back == v, "decryption gives the vote"); OK(eg_elgamal_ciphertext_free(c));
    eg_reach(1);
}
ENTRY(h_selection)
{
    Election e = fixture(); auto seed = qvar("seed"), base = qvar("base"); bool v = eg_choice(2, "vote"), ph = eg_choice(2, "placeholder"), verify = eg_choice(2, "verify"); eg_plaintext_ballot_selection_t *s = nullptr; OK(eg_plaintext_ballot_selection_new("x", v, ph, &s)); SelectionDescription d("x", "cand-0", 3); eg_ciphertext_ballot_selection_t *h = nullptr;
    OK(eg_encrypt_selection(s, (eg_selection_description_t *)&d, hp(e.key), hq(base), hq(seed), ph, verify, &h)); auto w = encryptSelection(PlaintextBallotSelection("x", v, ph), d, *e.key, *base, *seed, ph, false); MUST(showNoProofs(as<CiphertextBallotSelection>(h)) == showNoProofs(*w), "the selection encrypted through the C API is the selection encrypted");
    OK(eg_ciphertext_ballot_selection_free(h)); OK(eg_plaintext_ballot_selection_free(s));
    eg_reach(1);
}
ENTRY(h_context)
{
    auto key = gpow(*qvar("secret")); auto c = qvar("commitment"), m = qvar("manifest"); uint64_t n = num("guardians"), k = num("quorum"), max = num("max"); eg_assume(n >= 1 && n < 100 && k >= 1 && k <= n && max >= 1); bool over = eg_choice(2, "overvotes"); Str v("value"); uint32_t how = eg_choice(6, "how"), ext = eg_choice(3, "extended");
    eg_context_configuration_t *conf = nullptr; OK(eg_ciphertext_election_context_config_make(over, max, &conf)); bool o2 = !over; uint64_t m2 = 0; OK(eg_ciphertext_election_context_config_get_allowed_overvotes(conf, &o2)); OK(eg_ciphertext_election_context_config_get_max_ballots(conf, &m2)); MUST(o2 == over && m2 == max, "the configuration");
    eg_linked_list_t *l = nullptr; OK(eg_linked_list_new(&l)); std::unordered_map<string, string> L; char k1[] = "k1", k2[] = "k2", sec[] = "sec"; if (ext > 0) { OK(eg_linked_list_append(l, k1, v)); L["k1"] = v.v; } if (ext > 1) { OK(eg_linked_list_append(l, k2, sec)); L["k2"] = "sec"; }
    eg_ciphertext_election_context_t *h = nullptr; unique_ptr<CiphertextElectionContext> w; auto C = [&] { return make_unique<ContextConfiguration>(over, max); }; string kh = key->toHex(), ch = c->toHex(), mh = m->toHex();
    switch (how) {
    case 0: OK(eg_ciphertext_election_context_make(n, k, hp(key), hq(c), hq(m), &h)); w = CiphertextElectionContext::make(n, k, dup(key), dup(c), dup(m)); break;
    case 1: OK(eg_ciphertext_election_context_make_with_configuration(n, k, hp(key), hq(c), hq(m), conf, &h)); w = CiphertextElectionContext::make(n, k, dup(key), dup(c), dup(m), C()); break;
    case 2: OK(eg_ciphertext_election_context_make_with_extended_data(n, k, hp(key), hq(c), hq(m), l, &h)); w = CiphertextElectionContext::make(n, k, dup(key), dup(c), dup(m), L); break;
    case 3: OK(eg_ciphertext_election_context_make_with_configuration_and_extended_data(n, k, hp(key), hq(c), hq(m), conf, l, &h)); w = CiphertextElectionContext::make(n, k, dup(key), dup(c), dup(m), C(), L); break;
    case 4: OK(eg_ciphertext_election_context_make_from_hex(n, k, kh.c_str(), ch.c_str(), mh.c_str(), &h)); w = CiphertextElectionContext::make(n, k, kh, ch, mh); break;
    default: OK(eg_ciphertext_election_context_make_from_hex_with_extended_data(n, k, kh.c_str(), ch.c_str(), mh.c_str(), l, &h)); w = CiphertextElectionContext::make(n, k, kh, ch, mh, L);
    }
    auto &X = as<CiphertextElectionContext>(h); MUST(show(X) == show(*w), "the context made through the C API is the context made"); MUST(X.getExtendedData().size() == (how == 2 || how == 3 || how == 5 ? ext : 0), "with the extended data given");
    REF(eg_ciphertext_election_context_get_elgamal_public_key, h, eg_element_mod_p_t, X.getElGamalPublicKey()); REF(eg_ciphertext_election_context_get_commitment_hash, h, eg_element_mod_q_t, X.getCommitmentHash()); REF(eg_ciphertext_election_context_get_manifest_hash, h, eg_element_mod_q_t, X.getManifestHash()); REF(eg_ciphertext_election_context_get_crypto_base_hash, h, eg_element_mod_q_t, X.getCryptoBaseHash()); REF(eg_ciphertext_election_context_get_crypto_extended_base_hash, h, eg_element_mod_q_t, X.getCryptoExtendedBaseHash());
    eg_context_configuration_t *cf = nullptr; OK(eg_ciphertext_election_context_get_configuration(h, &cf)); OK(eg_ciphertext_election_context_config_get_allowed_overvotes(cf, &o2)); OK(eg_ciphertext_election_context_config_get_max_ballots(cf, &m2)); MUST(o2 == X.getConfiguration()->getAllowOverVotes() && m2 == X.getConfiguration()->getMaxNumberOfBallots(), "the configuration of the context");
    eg_linked_list_t *e = nullptr; OK(eg_ciphertext_election_context_get_extended_data(h, &e)); auto E = X.getExtendedData(); MUST(eg_linked_list_get_count(e) == E.size(), "the extended data of the context"); for (uint64_t i = 0; i < E.size(); i++) { char *kk = nullptr, *vv = nullptr; OK(eg_linked_list_get_element_at(e, i, &kk, &vv)); MUST(E.count(kk) && E[kk] == vv, "an entry of the extended data"); }
    OK(eg_ciphertext_election_context_free(h)); OK(eg_ciphertext_election_context_config_free(conf)); OK(eg_linked_list_free(l));
    MUST(key->toHex() == kh && c->toHex() == ch && m->toHex() == mh, "the inputs stay the caller's");
    eg_reach(1);
}
ENTRY(h_list)
{
    eg_linked_list_t *l = nullptr; OK(eg_linked_list_new(&l)); vector<std::pair<string, string>> w; Str a("a"), b("b"); char k[3] = "k0"; uint32_t steps = eg_def("steps", 4);
    MUST(eg_linked_list_get_count(l) == 0, "a new list is empty");
    for (uint32_t i = 0; i < steps; i++) {
        if (eg_choice(2, "op") == 0) { k[1] = '0' + i; OK(eg_linked_list_append(l, i % 2 ? k : (char *)a, i % 2 ? (char *)b : k)); w.push_back(i % 2 ? std::make_pair(string(k), b.v) : std::make_pair(a.v, string(k))); }
        else { auto st = eg_linked_list_delete_last(l); if (!w.empty()) { OK(st); w.pop_back(); } }
        MUST(eg_linked_list_get_count(l) == w.size(), "the number of entries");
    }
    uint64_t i = num("at"); char *kk = nullptr, *vv = nullptr, *v2 = nullptr; auto s1 = eg_linked_list_get_element_at(l, i, &kk, &vv), s2 = eg_linked_list_get_value_at(l, i, &v2);
    MUST((s1 == ELECTIONGUARD_STATUS_SUCCESS) == (i < w.size()) && (s2 == ELECTIONGUARD_STATUS_SUCCESS) == (i < w.size()), "an entry is found exactly when there is one"); if (i < w.size()) MUST(w[i].first == kk && w[i].second == vv && w[i].second == v2, "the entry is the one appended");
    OK(eg_linked_list_free(l));
    eg_reach(1);
}
ENTRY(h_group)
{
    eg_element_mod_q_t *q = nullptr; eg_element_mod_p_t *p = nullptr; uint64_t *d = nullptr, n = 0;
#define CONST(fn, T, want) { decltype(T) o = nullptr; OK(fn(&o)); MUST((void *)o == (void *)&(want), #fn); }
    CONST(eg_element_mod_p_constant_g, p, G()); CONST(eg_element_mod_p_constant_p, p, P()); CONST(eg_element_mod_p_constant_r, p, R()); CONST(eg_element_mod_p_constant_zero_mod_p, p, ZERO_MOD_P()); CONST(eg_element_mod_p_constant_one_mod_p, p, ONE_MOD_P()); CONST(eg_element_mod_p_constant_two_mod_p, p, TWO_MOD_P());
    CONST(eg_element_mod_q_constant_q, q, Q()); CONST(eg_element_mod_q_constant_zero_mod_q, q, ZERO_MOD_Q()); CONST(eg_element_mod_q_constant_one_mod_q, q, ONE_MOD_Q()); CONST(eg_element_mod_q_constant_two_mod_q, q, TWO_MOD_Q());
    uint64_t l[MAX_Q_LEN]; eg_sym_bytes(l, sizeof l, "q"); OK(eg_element_mod_q_new_unchecked(l, &q)); OK(eg_element_mod_q_get_data(q, &d, &n)); MUST(n == MAX_Q_LEN && !memcmp(d, l, sizeof l), "the element holds the data given"); OK(eg_element_mod_q_free(q)); q = nullptr;
    auto st = eg_element_mod_q_new(l, &q); u256 v = fromLimbs<256>(l), Qv = fromLimbs<256>(Q().get()); MUST((st == ELECTIONGUARD_STATUS_SUCCESS) == (v <= Qv), "a checked element is refused when larger than q"); if (v <= Qv) { OK(eg_element_mod_q_get_data(q, &d, &n)); MUST(!memcmp(d, l, sizeof l), "and holds the data given"); OK(eg_element_mod_q_free(q)); }
    uint64_t k[MAX_P_LEN]; eg_sym_bytes(k, sizeof k, "p"); OK(eg_element_mod_p_new_unchecked(k, &p)); OK(eg_element_mod_p_get_data(p, &d, &n)); MUST(n == MAX_P_LEN && !memcmp(d, k, sizeof k), "the element holds the data given"); OK(eg_element_mod_p_free(p)); p = nullptr;
    auto sp = eg_element_mod_p_new(k, &p); u4096 pv = fromLimbs<4096>(k), Pv = fromLimbs<4096>(P().get()); MUST((sp == ELECTIONGUARD_STATUS_SUCCESS) == (pv <= Pv), "a checked element is refused when larger than p"); if (pv <= Pv) OK(eg_element_mod_p_free(p));
    eg_reach(1);
}
ENTRY(h_hex)
{
    uint64_t l[MAX_Q_LEN] = {1, 2, 3, 0x7fffffffffffffffull}; uint32_t w = eg_choice(31, "byte"); eg_sym_bytes((uint8_t *)l + w, 1, "q"); eg_element_mod_q_t *q = nullptr, *r = nullptr; OK(eg_element_mod_q_new(l, &q)); string t = as<ElementModQ>(q).toHex(); TEXT(eg_element_mod_q_to_hex, q, t);
    OK(eg_element_mod_q_from_hex((char *)t.c_str(), &r)); MUST(!memcmp(as<ElementModQ>(r).get(), l, sizeof l), "from hex"); OK(eg_element_mod_q_free(r)); OK(eg_element_mod_q_from_hex_unchecked((char *)t.c_str(), &r)); MUST(!memcmp(as<ElementModQ>(r).get(), l, sizeof l), "from hex, unchecked"); OK(eg_element_mod_q_free(r)); OK(eg_element_mod_q_free(q));
    uint64_t k[MAX_P_LEN] = {5, 6}; eg_sym_bytes((uint8_t *)k + w * 16, 1, "p"); eg_element_mod_p_t *p = nullptr; OK(eg_element_mod_p_new_unchecked(k, &p)); TEXT(eg_element_mod_p_to_hex, p, as<ElementModP>(p).toHex()); OK(eg_element_mod_p_free(p));
    eg_reach(1);
}
ENTRY(h_hash)
{
    Str a("a"), b("b"); eg_element_mod_q_t *h = nullptr; OK(eg_hash_elems_string(a, &h)); MUST(as<ElementModQ>(h) == *hash_elems(a.v), "the hash of a text"); OK(eg_element_mod_q_free(h)); const char *v[2] = {a, b}; uint64_t n = eg_choice(3, "number"); vector<string> w; for (uint64_t i = 0; i < n; i++) w.push_back(v[i]);
    OK(eg_hash_elems_strings(v, n, &h)); MUST(as<ElementModQ>(h) == *hash_elems(w), "the hash of texts"); OK(eg_element_mod_q_free(h)); static const uint64_t ns[] = {0, 1, 255, 1ull << 32, ~0ull}; uint64_t i = ns[eg_choice(5, "int")]; OK(eg_hash_elems_int(i, &h)); MUST(as<ElementModQ>(h) == *hash_elems(i), "the hash of a number"); OK(eg_element_mod_q_free(h));
    auto x = pvar("x"); auto e = qvar("e"); eg_element_mod_p_t *r = nullptr; OK(eg_element_mod_q_pow_mod_p(hp(x), hq(e), &r)); MUST(as<ElementModP>(r) == *pow_mod_p(*x, *e), "the power"); OK(eg_element_mod_p_free(r));
    eg_reach(1);
}
