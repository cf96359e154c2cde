// C03: the bignum kernels of the vendored library compute what their contracts say, limb for limb
#include "eg.hpp"
extern "C" {
uint64_t Hacl_Bignum256_add(uint64_t *, uint64_t *, uint64_t *), Hacl_Bignum256_sub(uint64_t *, uint64_t *, uint64_t *), Hacl_Bignum256_lt_mask(uint64_t *, uint64_t *), Hacl_Bignum256_eq_mask(uint64_t *, uint64_t *);
uint64_t Hacl_Bignum4096_add(uint64_t *, uint64_t *, uint64_t *), Hacl_Bignum4096_sub(uint64_t *, uint64_t *, uint64_t *), Hacl_Bignum4096_lt_mask(uint64_t *, uint64_t *), Hacl_Bignum4096_eq_mask(uint64_t *, uint64_t *);
uint64_t *Hacl_Bignum256_new_bn_from_bytes_be(uint32_t, uint8_t *), *Hacl_Bignum4096_new_bn_from_bytes_be(uint32_t, uint8_t *);
void Hacl_Bignum256_bn_to_bytes_be(uint64_t *, uint8_t *), Hacl_Bignum4096_bn_to_bytes_be(uint64_t *, uint8_t *);
void free(void *);
}
typedef unsigned __int128 u128;
// limb-by-limb specification: every proven limb becomes a fact for the next one
template <unsigned N> static void addSub(uint64_t (*add)(uint64_t *, uint64_t *, uint64_t *), uint64_t (*sub)(uint64_t *, uint64_t *, uint64_t *))
{
    uint64_t a[N], b[N], r[N], c = 0, k;
    eg_sym(a, sizeof a, "a"); eg_sym(b, sizeof b, "b");
    uint32_t alias = eg_choice(eg_def("alias", 3), "alias"); // the result may overwrite an operand
    bool doSub = eg_choice(2, "sub");
    uint64_t x[N], y[N]; memcpy(x, a, sizeof a); memcpy(y, b, sizeof b);
    uint64_t *out = alias == 0 ? r : alias == 1 ? a : b;
    k = doSub ? sub(a, b, out) : add(a, b, out);
    for (unsigned i = 0; i < N; i++) {
        u128 t = doSub ? (u128)x[i] - y[i] - c : (u128)x[i] + y[i] + c;
        MUST(out[i] == (uint64_t)t, "limb of the sum or difference");
        c = (uint64_t)(t >> 64) & 1;
    }
    MUST(k == c, "carry or borrow out");
    eg_reach(1);
}
ENTRY(h_addsub256) { addSub<4>(Hacl_Bignum256_add, Hacl_Bignum256_sub); }
ENTRY(h_addsub4096) { addSub<64>(Hacl_Bignum4096_add, Hacl_Bignum4096_sub); }
template <unsigned N> static void cmp(uint64_t (*lt)(uint64_t *, uint64_t *), uint64_t (*eq)(uint64_t *, uint64_t *))
{
    uint64_t a[N], b[N];
    eg_sym(a, sizeof a, "a"); eg_sym(b, sizeof b, "b");
    bool less = false, same = true;
    for (unsigned i = 0; i < N; i++) { less = (a[i] < b[i]) | ((a[i] == b[i]) & less); same = same & (a[i] == b[i]); }
    MUST(lt(a, b) == (less ? ~0ULL : 0), "less-than mask");
    MUST(eq(a, b) == (same ? ~0ULL : 0), "equality mask");
    eg_reach(1);
}
ENTRY(h_cmp256) { cmp<4>(Hacl_Bignum256_lt_mask, Hacl_Bignum256_eq_mask); }
ENTRY(h_cmp4096) { cmp<64>(Hacl_Bignum4096_lt_mask, Hacl_Bignum4096_eq_mask); }
template <unsigned N> static void bytes(uint64_t *(*from)(uint32_t, uint8_t *), void (*to)(uint64_t *, uint8_t *))
{
    uint8_t in[8 * N], out[8 * N]; eg_sym(in, sizeof in, "bytes");
    uint32_t len = N == 4 ? 1 + eg_choice(8 * N, "length") : (const uint32_t[]){1, 2, 7, 8, 9, 63, 64, 65, 255, 511, 512}[eg_choice(11, "length")];
    uint64_t *n = from(len, in);
    for (uint32_t i = 0; i < (len + 7) / 8 * 8; i++) MUST(((n[i / 8] >> (8 * (i % 8))) & 255) == (i < len ? in[len - 1 - i] : 0), "big-endian bytes are read in order");
    if ((len + 7) / 8 == N) { to(n, out); for (uint32_t i = 0; i < 8 * N; i++) MUST(out[8 * N - 1 - i] == (i < len ? in[len - 1 - i] : 0), "big-endian bytes are written in order"); eg_reach(2); }
    free(n);
    eg_reach(1);
}
ENTRY(h_bytes256) { bytes<4>(Hacl_Bignum256_new_bn_from_bytes_be, Hacl_Bignum256_bn_to_bytes_be); }
ENTRY(h_bytes4096) { bytes<64>(Hacl_Bignum4096_new_bn_from_bytes_be, Hacl_Bignum4096_bn_to_bytes_be); }
