// Layer C: the group operations on symbolic field terms.  Replaces the functions of group.hpp (whose exactness is the
// subject of C01..C05) and the HACL* primitives used directly by other files.  An element's limbs hold a token naming
// its term; elements built from concrete limbs (0, 1, g, counters) keep their numeric meaning.
#include "egrt.h"
#include <electionguard/constants.h>
#include <electionguard/group.hpp>
#include <cstring>
#include <stdexcept>
using std::make_unique;
using std::unique_ptr;
using std::vector;
namespace electionguard
{
    static void setup()
    {
        static bool done = false;
        if (!done) { done = true; eg_t_set_g(G_ARRAY_REVERSE); eg_t_set_p(P_ARRAY_REVERSE); }
    }
    typedef uint64_t PL[MAX_P_LEN];
    typedef uint64_t QL[MAX_Q_LEN];
    static unique_ptr<ElementModP> mkP(const PL &l) { return make_unique<ElementModP>(l, true); }
    static unique_ptr<ElementModQ> mkQ(const QL &l) { return make_unique<ElementModQ>(l, true); }

    unique_ptr<ElementModP> add_mod_p(const ElementModP &, const ElementModP &) { eg_fail("addition modulo p is not available on group terms"); return nullptr; }
    unique_ptr<ElementModP> mod_p(const ElementModP &e) { PL r; memcpy(r, e.get(), sizeof r); return mkP(r); }
    unique_ptr<ElementModP> mul_mod_p(const ElementModP &a, const ElementModP &b) { setup(); PL r; eg_t_pmul(a.get(), b.get(), r); return mkP(r); }
    unique_ptr<ElementModP> mul_mod_p(const vector<ElementModPOrQ> &v)
    {
        auto r = ElementModP::fromUint64(1);
        for (auto &x : v) {
            if (std::holds_alternative<ElementModQ *>(x)) r = mul_mod_p(*r, *std::get<ElementModQ *>(x)->toElementModP());
            else r = mul_mod_p(*r, *std::get<ElementModP *>(x));
        }
        return r;
    }
    unique_ptr<ElementModP> pow_mod_p(const ElementModP &b, const ElementModP &e) { setup(); PL r; eg_t_ppow(b.get(), e.get(), MAX_P_LEN, r); return mkP(r); }
    unique_ptr<ElementModP> pow_mod_p(const ElementModP &b, const ElementModQ &e) { setup(); PL r; eg_t_ppow(b.get(), e.get(), MAX_Q_LEN, r); return mkP(r); }
    unique_ptr<ElementModP> g_pow_p(const ElementModP &e) { return pow_mod_p(G(), e); }
    unique_ptr<ElementModP> g_pow_p(const ElementModQ &e) { return pow_mod_p(G(), e); }
    unique_ptr<ElementModQ> add_mod_q(const ElementModQ &a, const ElementModQ &b) { QL r; eg_t_qadd(a.get(), b.get(), r); return mkQ(r); }
    unique_ptr<ElementModQ> add_mod_q(const vector<std::reference_wrapper<ElementModQ>> &v)
    {
        if (v.empty()) throw std::invalid_argument("must have one or more elements");
        auto r = ElementModQ::fromUint64(0, true);
        for (auto &x : v) r = add_mod_q(*r, x.get());
        return r;
    }
    unique_ptr<ElementModQ> sub_mod_q(const ElementModQ &a, const ElementModQ &b) { QL r; eg_t_qsub(a.get(), b.get(), r); return mkQ(r); }
    unique_ptr<ElementModQ> a_plus_bc_mod_q(const ElementModQ &a, const ElementModQ &b, const ElementModQ &c) { QL t, r; eg_t_qmul(b.get(), c.get(), t); eg_t_qadd(a.get(), t, r); return mkQ(r); }
    unique_ptr<ElementModQ> sub_from_q(const ElementModQ &a) { QL z = {}, r; eg_t_qsub(z, a.get(), r); return mkQ(r); }
    unique_ptr<ElementModQ> rand_q() { QL r; eg_t_qvar(r, "rand_q"); return mkQ(r); }
    unique_ptr<ElementModP> rand_p() { PL r; eg_t_pvar(r, "rand_p"); return mkP(r); }
    bool ElementModP::operator==(const ElementModP &o) { setup(); return eg_t_peq(get(), o.get()); }
    bool ElementModP::operator!=(const ElementModP &o) { return !(*this == o); }
    bool ElementModQ::operator==(const ElementModQ &o) { return eg_t_qeq(get(), o.get()); }
    bool ElementModQ::operator!=(const ElementModQ &o) { return !(*this == o); }
    bool ElementModP::isInBounds() const { setup(); return eg_t_flag("inbounds", get(), MAX_P_LEN); }
    bool ElementModP::isValidResidue() const { setup(); return eg_t_flag("residue", get(), MAX_P_LEN); }
    bool ElementModQ::isInBounds() const { return eg_t_flag("inbounds", get(), MAX_Q_LEN); }
    std::string ElementModP::toHex() const { char b[MAX_P_SIZE * 2 + 3]; eg_hex(get(), MAX_P_LEN, b); return b; }
    std::string ElementModQ::toHex() const { char b[MAX_Q_SIZE * 2 + 3]; eg_hex(get(), MAX_Q_LEN, b); return b; }
}
extern "C" {
using electionguard::setup;
bool Hacl_Bignum4096_mod_exp_consttime(uint64_t *n, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { setup(); uint64_t t[64]; unsigned k = (bits + 63) / 64; if (k > 64) k = 64; uint64_t e[64] = {}; memcpy(e, b, 8 * k); eg_t_ppow(a, e, 64, t); memcpy(res, t, sizeof t); return true; }
bool Hacl_Bignum4096_mod_exp_vartime(uint64_t *n, uint64_t *a, uint32_t bits, uint64_t *b, uint64_t *res) { return Hacl_Bignum4096_mod_exp_consttime(n, a, bits, b, res); }
bool Hacl_Bignum4096_mod_inv_prime_vartime(uint64_t *n, uint64_t *a, uint64_t *res) { setup(); uint64_t t[64]; eg_t_pinv(a, t); memcpy(res, t, sizeof t); return true; }
// a double-width product is only ever reduced: it carries the token of the reduced product in its low half
void Hacl_Bignum4096_mul(uint64_t *a, uint64_t *b, uint64_t *res) { setup(); uint64_t t[64]; eg_t_pmul(a, b, t); memcpy(res, t, sizeof t); memset(res + 64, 0, sizeof t); }
bool Hacl_Bignum4096_mod(uint64_t *n, uint64_t *a, uint64_t *res) { memmove(res, a, 512); return true; }

// SHA-256 and HMAC-SHA-256 as injective uninterpreted functions of the full input
struct shas { uint8_t *buf; size_t n, cap; };
struct shas *Hacl_Streaming_SHA2_create_in_256() { struct shas *s = (struct shas *)malloc(sizeof *s); s->n = 0; s->cap = 4096; s->buf = (uint8_t *)malloc(s->cap); return s; }
void Hacl_Streaming_SHA2_init_256(struct shas *s) { s->n = 0; }
void Hacl_Streaming_SHA2_update_256(struct shas *s, uint8_t *d, uint32_t n)
{
    if (s->n + n > s->cap) { size_t c = (s->n + n) * 2; uint8_t *b = (uint8_t *)malloc(c); memcpy(b, s->buf, s->n); free(s->buf); s->buf = b; s->cap = c; }
    memcpy(s->buf + s->n, d, n);
    s->n += n;
}
void Hacl_Streaming_SHA2_finish_256(struct shas *s, uint8_t *o) { eg_t_hash("sha", s->buf, s->n, o); }
void Hacl_Streaming_SHA2_free_256(struct shas *s) { free(s->buf); free(s); }
void Hacl_Hash_SHA2_hash_256(uint8_t *in, uint32_t n, uint8_t *o) { eg_t_hash("sha", in, n, o); }
void Hacl_HMAC_compute_sha2_256(uint8_t *dst, uint8_t *key, uint32_t kl, uint8_t *data, uint32_t dl)
{
    uint8_t *b = (uint8_t *)malloc(8 + kl + dl);
    for (int i = 0; i < 4; i++) { b[i] = kl >> (8 * i); b[4 + i] = dl >> (8 * i); }
    memcpy(b + 8, key, kl); memcpy(b + 8 + kl, data, dl);
    eg_t_hash("hmac", b, 8 + kl + dl, dst);
    memset(b, 0, 8 + kl + dl);
    free(b);
    eg_secret(key, kl, "a key of HMAC");
    if (dl < 512) eg_secret(dst, 32, "a derived key");
}
bool Lib_RandomBuffer_System_randombytes(uint8_t *b, uint32_t n) { eg_sym(b, n, "os_random"); return true; }
}
