// C02: exponentiation through the fixed-base tables agrees with plain exponentiation
#include "sym.hpp"
using namespace electionguard;
static std::unique_ptr<ElementModQ> exponent()
{
    uint8_t b[32]; // all 2^256 values, canonical or not
    uint32_t mode = eg_choice(2, "rest"), k = eg_def("free", 1);
    for (auto &x : b) eg_sym(&x, 1, "exp");
    bool chosen[32] = {};
    for (uint32_t i = 0; i < k; i++) chosen[eg_choice(32, "free byte")] = true;
    for (int i = 0; i < 32; i++) if (!chosen[i]) { if (mode) eg_assume(b[i] != 0); else b[i] = 0; }
    uint64_t l[4];
    memcpy(l, b, 32);
    return std::make_unique<ElementModQ>(l, true);
}
// any base marked as fixed, used twice so that the cached table is used as well; the generator is such a base
ENTRY(h_fixed)
{
    gen();
    uint32_t which = eg_choice(2, "base");
    EP base = which ? pvar("base") : gen();
    base->setIsFixedBase(true);
    auto three = qconst(3);
    auto t = which ? pow_mod_p(*base, *three) : g_pow_p(*three);
    MUST(peq(*t, *ppow(*base, *three)), "first use of a fixed base");
    auto e = exponent();
    auto r = which ? pow_mod_p(*base, *e) : g_pow_p(*e);
    MUST(peq(*r, *ppow(*base, *e)), "fixed-base exponentiation is exponentiation");
    eg_reach(1);
}
