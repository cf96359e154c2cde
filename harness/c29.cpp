// C29: what counts as a valid selection and contest of a plaintext ballot.
#include "mk.hpp"
using namespace electionguard;
typedef unsigned __int128 u128;
// identifiers of one or two bytes: the symbolic one decides whether they agree
static string ident(const char *name, bool two) { char b[2]; eg_sym_bytes(b, 2, name); eg_assume(b[0] != 0 && b[1] != 0); return string(b, two ? 2 : 1); }
ENTRY(h_selection)
{
    uint64_t vote;
    eg_sym(&vote, 8, "vote");
    string id = ident("id", eg_choice(2, "long")), other = ident("expected", eg_choice(2, "long"));
    bool ph = eg_choice(2, "placeholder");
    PlaintextBallotSelection s(id, vote, ph, eg_choice(2, "write_in") ? "written" : "");
    bool want = id == other && vote <= 1;
    bool got = s.isValid(other);
    MUST(got == want, "a selection is valid if it is the expected one and its vote is 0 or 1");
    MUST(s.getVote() == vote && s.getIsPlaceholder() == ph, "and is left alone");
    eg_reach(got ? 1 : 2);
}
ENTRY(h_contest)
{
    uint32_t n = eg_choice((uint32_t)eg_def("selections", 3) + 1, "selections");
    vector<unique_ptr<PlaintextBallotSelection>> v;
    u128 votes = 0;
    uint64_t elected = 0, maxSelections, maxElected, allowed;
    for (uint32_t i = 0; i < n; i++) {
        uint64_t x;
        eg_sym(&x, 8, "vote");
        votes += x;
        elected += x >= 1;
        v.push_back(make_unique<PlaintextBallotSelection>("s", x));
    }
    string id = ident("id", false), other = ident("expected", eg_choice(2, "long"));
    PlaintextBallotContest c(id, std::move(v));
    eg_sym(&maxSelections, 8, "max_selections");
    eg_sym(&maxElected, 8, "max_elected");
    eg_sym(&allowed, 8, "allowed");
    uint32_t form = eg_choice(4, "form"); // the last two arguments may be left out
    eg_valid_contest_return_type_t r = form == 0 ? c.isValid(other, maxSelections, maxElected) : form == 1 ? c.isValid(other, maxSelections, maxElected, allowed) : c.isValid(other, maxSelections, maxElected, allowed, form == 2);
    u128 most = form == 0 || allowed == 0 ? maxElected : allowed;
    if (id != other) { MUST(r == INVALID_OBJECT_ID_ERROR, "a contest with another identifier is refused as such"); eg_reach(1); }
    else if (n > maxSelections) { MUST(r == TOO_MANY_SELECTIONS_ERROR, "too many selections are refused as such"); eg_reach(2); }
    else if (elected > maxElected || votes > most) { MUST(r == (form == 3 ? OVERVOTE_ERROR : OVERVOTE), "too many selected, or too many votes, is an overvote"); eg_reach(3); }
    else { MUST(r == SUCCESS, "every other contest is valid"); eg_reach(4); }
}
