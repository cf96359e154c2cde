// The HACL* modular kernels on symbolic group terms, for checking the library's own exponentiation code: a number in
// Montgomery form is the number times a formal constant R, so that missing or doubled conversions show.
#include "egrt.h"
#include <electionguard/constants.h>
#include <cstring>
#include <string>
static uint64_t R[64], RI[64];
static void setup()
{
    static bool done = false;
    if (done) return;
    done = true;
    eg_t_set_g(G_ARRAY_REVERSE); eg_t_set_p(P_ARRAY_REVERSE);
    eg_t_pvar(R, "montgomery radix"); eg_t_pinv(R, RI);
}
extern "C" {
bool Hacl_Bignum4096_mod_exp_consttime(uint64_t *n, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { setup(); uint64_t t[64], e[64] = {}; unsigned k = (bits + 63) / 64; if (k > 64) k = 64; memcpy(e, b, 8 * k); eg_t_ppow(a, e, 64, t); memcpy(res, t, sizeof t); return true; }
bool Hacl_Bignum4096_mod_exp_vartime(uint64_t *n, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { return Hacl_Bignum4096_mod_exp_consttime(n, a, bits, b, res); }
void Hacl_Bignum4096_mod_exp_consttime_precomp(void *k, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { Hacl_Bignum4096_mod_exp_consttime(nullptr, a, bits, b, res); }
void Hacl_Bignum4096_mod_exp_vartime_precomp(void *k, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { Hacl_Bignum4096_mod_exp_consttime(nullptr, a, bits, b, res); }
void *Hacl_Bignum4096_mont_ctx_init(uint64_t *n) { return new char[64]; }
void Hacl_Bignum4096_mont_ctx_free(void *k) { delete[] (char *)k; }
void Hacl_Bignum4096_mul(uint64_t *a, uint64_t *b, uint64_t *res) { setup(); uint64_t t[64]; eg_t_pmul(a, b, t); memcpy(res, t, sizeof t); memset(res + 64, 0, sizeof t); }
bool Hacl_Bignum4096_mod(uint64_t *n, uint64_t *a, uint64_t *res) { memmove(res, a, 512); return true; }
void Hacl_Bignum4096_mod_precomp(void *k, uint64_t *a, uint64_t *res) { memmove(res, a, 512); }
void Hacl_GenericField64_to_field(void *k, uint64_t *a, uint64_t *r) { setup(); uint64_t t[64]; eg_t_pmul(a, R, t); memcpy(r, t, sizeof t); }
void Hacl_GenericField64_from_field(void *k, uint64_t *a, uint64_t *r) { setup(); uint64_t t[64]; eg_t_pmul(a, RI, t); memcpy(r, t, sizeof t); }
void Hacl_GenericField64_mul(void *k, uint64_t *a, uint64_t *b, uint64_t *r) { setup(); uint64_t t[64], u[64]; eg_t_pmul(a, b, t); eg_t_pmul(t, RI, u); memcpy(r, u, sizeof u); }
void Hacl_GenericField64_sqr(void *k, uint64_t *a, uint64_t *r) { Hacl_GenericField64_mul(k, a, a, r); }
}
namespace electionguard { // the key of the table cache is the hexadecimal form of the base
    class ElementModP;
}
