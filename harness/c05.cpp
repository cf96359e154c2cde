// C05: random elements lie in their range, use fresh randomness, and failures of the generator surface
#include "eg.hpp"
#include <exception>
using namespace electionguard;
extern "C" int eg_rng_failed;
// the generator may be asked more than once (retries), so only the end result is judged
template <class F> static auto draw(F f) -> decltype(f())
{
    eg_rng_failed = 0;
    decltype(f()) r;
    bool threw = false;
    try { r = f(); } catch (const std::exception &) { threw = true; }
    if (eg_rng_failed) { MUST(threw, "a failure of the generator is reported, not papered over"); eg_reach(2); return nullptr; }
    MUST(!threw && r, "no failure without cause");
    return r;
}
ENTRY(h_rand_q)
{
    auto r = draw(rand_q);
    if (!r) return;
    MUST(fromLimbs<256>(r->get()) < fromLimbs<256>(Q_ARRAY_REVERSE), "a random exponent lies in [0,q)");
    if (eg_symbolic_mode()) {
        for (int i = 0; i < 256; i++) MUST(eg_may(((r->get()[i / 64] >> (i % 64)) & 1) == 1) && eg_may(((r->get()[i / 64] >> (i % 64)) & 1) == 0), "every bit of a random exponent can be 0 and 1");
    } else { // natively: no bit is the same in 64 draws
        uint64_t all0[4] = {}, all1[4] = {~0ULL, ~0ULL, ~0ULL, ~0ULL};
        for (int k = 0; k < 64; k++) { auto x = rand_q(); for (int i = 0; i < 4; i++) { all0[i] |= x->get()[i]; all1[i] &= x->get()[i]; } }
        for (int i = 0; i < 4; i++) MUST(all0[i] == ~0ULL && all1[i] == 0, "every bit of a random exponent can be 0 and 1");
    }
    eg_reach(1);
}
ENTRY(h_rand_p)
{
    auto r = draw(rand_p);
    if (!r) return;
    MUST(fromLimbs<4096>(r->get()) < fromLimbs<4096>(P_ARRAY_REVERSE), "a random element lies in [0,p)");
    eg_reach(1);
}
