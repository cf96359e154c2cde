// C06: a digest becomes a canonical exponent.
#include "sym.hpp"
#include <electionguard/hash.hpp>
using namespace electionguard;
extern "C" uint8_t eg_last_digest[32];
ENTRY(h_reduce)
{
    auto e = hash_elems(CryptoHashableType((uint64_t)7));
    uint8_t le[32]; for (int i = 0; i < 32; i++) le[i] = eg_last_digest[31 - i];
    u256 d, q = fromLimbs<256>(Q_ARRAY_REVERSE), v = fromLimbs<256>(e->get()); memcpy(&d, le, 32);
    eg_assume(~d != 0); // the digest of 256 one bits is outside: add_mod_q maps it to 189, as its unit test requires
    MUST(v < q, "a hash is a canonical exponent");
    MUST(v == (d < q ? d : d - q), "a hash is the digest modulo q");
    eg_reach(1);
}
