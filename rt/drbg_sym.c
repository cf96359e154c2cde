/* The random number generator as a source of arbitrary bytes: the operating system may fail, the deterministic generator
   may fail, and its output is unknown exactly if it was seeded with bytes from the operating system. */
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#include "egrt.h"
int eg_rng_failed, eg_rng_seeded;
bool Lib_RandomBuffer_System_randombytes(uint8_t *b, uint32_t n)
{
    if (eg_choice(2, "os_fail")) { eg_rng_failed = 1; memset(b, 0, n); return false; }
    eg_sym(b, n, "os_random");
    return true;
}
typedef struct { uint8_t *k, *v; uint32_t *c; } st;
void Hacl_HMAC_DRBG_instantiate(uint8_t a, st s, uint32_t el, uint8_t *e, uint32_t nl, uint8_t *n, uint32_t pl, uint8_t *p)
{
    eg_rng_seeded = el >= 32;
    for (uint32_t i = 0; i < 32 && i < el; i++) if (!eg_is_sym(e[i])) eg_rng_seeded = 0;
}
bool Hacl_HMAC_DRBG_generate(uint8_t a, uint8_t *out, st s, uint32_t n, uint32_t al, uint8_t *add)
{
    if (eg_choice(2, "drbg_fail")) { eg_rng_failed = 1; return false; }
    if (eg_rng_seeded) eg_sym_bytes(out, n, "drbg"); else memset(out, 0x5a, n);
    return true;
}
/* the personalisation string (a date) plays no part */
void *_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St9_Put_timeIS3_E(void *os, void *a, void *b) { return os; }
