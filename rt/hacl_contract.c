// Contracts used in place of the HACL* multi-precision kernels whose exactness is established separately (C03):
// the product and the remainder are computed as wide bit-vector terms.
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include "egrt.h"
typedef struct { uint32_t len; uint64_t *n; uint64_t mu; uint64_t *r2; } ctx_t;
static ctx_t *mk(uint64_t *n, unsigned k) { ctx_t *c = malloc(sizeof *c); c->len = k; c->n = malloc(8 * k); memcpy(c->n, n, 8 * k); c->mu = 0; c->r2 = malloc(8 * k); return c; }
static void fr(ctx_t *c) { free(c->n); free(c->r2); free(c); }
#define DEF(B, L) \
void Hacl_Bignum##B##_mul(uint64_t *a, uint64_t *b, uint64_t *res) { uint64_t t[2 * L]; eg_bn_mul(a, L, b, L, t); memcpy(res, t, sizeof t); } \
void Hacl_Bignum##B##_sqr(uint64_t *a, uint64_t *res) { uint64_t t[2 * L]; eg_bn_mul(a, L, a, L, t); memcpy(res, t, sizeof t); } \
bool Hacl_Bignum##B##_mod(uint64_t *n, uint64_t *a, uint64_t *res) { uint64_t t[L]; eg_bn_mod(a, 2 * L, n, L, t); memcpy(res, t, sizeof t); return true; } \
ctx_t *Hacl_Bignum##B##_mont_ctx_init(uint64_t *n) { return mk(n, L); } \
void Hacl_Bignum##B##_mont_ctx_free(ctx_t *k) { fr(k); } \
void Hacl_Bignum##B##_mod_precomp(ctx_t *k, uint64_t *a, uint64_t *res) { uint64_t t[L]; eg_bn_mod(a, 2 * L, k->n, L, t); memcpy(res, t, sizeof t); }
DEF(256, 4)
DEF(4096, 64)
/* addition, subtraction and comparison on wide bit-vectors (decided against the real limb code by C03) */
#define ARI(B) \
typedef unsigned _BitInt(B) n##B; typedef unsigned _BitInt(B + 8) w##B; \
static n##B ld##B(const uint64_t *p) { n##B r; memcpy(&r, p, B / 8); return r; } \
static void st##B(uint64_t *p, n##B v) { memcpy(p, &v, B / 8); } \
uint64_t Hacl_Bignum##B##_add(uint64_t *a, uint64_t *b, uint64_t *res) { w##B s = (w##B)ld##B(a) + ld##B(b); st##B(res, (n##B)s); return (uint64_t)(s >> B); } \
uint64_t Hacl_Bignum##B##_sub(uint64_t *a, uint64_t *b, uint64_t *res) { n##B x = ld##B(a), y = ld##B(b); st##B(res, x - y); return x < y; } \
uint64_t Hacl_Bignum##B##_lt_mask(uint64_t *a, uint64_t *b) { return ld##B(a) < ld##B(b) ? ~0ULL : 0; } \
uint64_t Hacl_Bignum##B##_eq_mask(uint64_t *a, uint64_t *b) { return ld##B(a) == ld##B(b) ? ~0ULL : 0; }
ARI(256)
ARI(4096)

/* exponentiation: the low bBits bits of the exponent count; an uninterpreted function of base and exponent */
static void pw(uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res)
{
    uint64_t e[64] = {0}, t[64];
    unsigned k = (bits + 63) / 64;
    if (k > 64) k = 64;
    for (unsigned i = 0; i < k; i++) e[i] = b[i];
    if (bits < 4096 && bits % 64) e[k - 1] &= (1ULL << (bits % 64)) - 1;
    eg_bn_powmod(a, e, 64, t);
    memcpy(res, t, sizeof t);
}
bool Hacl_Bignum4096_mod_exp_vartime(uint64_t *n, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { pw(a, bits, b, res); return true; }
bool Hacl_Bignum4096_mod_exp_consttime(uint64_t *n, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { pw(a, bits, b, res); return true; }
void Hacl_Bignum4096_mod_exp_vartime_precomp(ctx_t *k, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { pw(a, bits, b, res); }
void Hacl_Bignum4096_mod_exp_consttime_precomp(ctx_t *k, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { pw(a, bits, b, res); }
