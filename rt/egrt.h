#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void eg_sym(void *p, size_t n, const char *name);
void eg_sym_bytes(void *p, size_t n, const char *name); /* the same, one variable per byte */
uint32_t eg_choice(uint32_t n, const char *name);
void eg_assume(int c);
void eg_assert(int c, const char *msg);
void eg_fail(const char *msg);
void eg_reach(int id);
void eg_note(const char *m);
void eg_note_u64(const char *m, uint64_t v);
uint64_t eg_def(const char *name, uint64_t dflt);
int eg_symbolic_mode(void);
void eg_stop(void);
int eg_is_sym(uint64_t v);
int eg_must(int c); /* is c implied by the path condition? (never forks) */
int eg_may(int c); /* is c possible under the path condition? (never forks) */
uint64_t eg_concretize(uint64_t v);
void eg_watch_wipe(const void *p, size_t n, const char *name);
void eg_secrets(int on);                                 /* start (and stop) collecting secrets */
void eg_secret(const void *p, size_t n, const char *name); /* no memory released from here on may hold this value */
int eg_alive(const void *p);
size_t eg_objsize(const void *p);
void eg_print(const char *m);
/* runs f(arg, 0) ... f(arg, n-1) as threads under every schedule; reports data races, deadlocks and locks left behind */
void eg_threads(unsigned n, void (*f)(void *, unsigned), void *arg);
void eg_preemptions(int n); /* bound: how often a thread that could go on is interrupted */
/* wide numbers, little-endian limbs */
void eg_bn_mul(const uint64_t *a, unsigned na, const uint64_t *b, unsigned nb, uint64_t *out);
void eg_bn_mod(const uint64_t *a, unsigned na, const uint64_t *n, unsigned nn, uint64_t *out);
void eg_bn_powmod(const uint64_t *b, const uint64_t *e, unsigned ne, uint64_t *out); /* modulo p */
/* terms */
void eg_t_set_g(const uint64_t *limbs);
void eg_t_set_p(const uint64_t *limbs);
void eg_t_pvar_nr(uint64_t *out, const char *name, int outside); /* outside: not in the order-q subgroup */
void eg_t_atoms(int on);
void eg_t_qvar(uint64_t *out, const char *name);
void eg_t_pvar(uint64_t *out, const char *name);
void eg_t_qadd(const uint64_t *a, const uint64_t *b, uint64_t *out);
void eg_t_qsub(const uint64_t *a, const uint64_t *b, uint64_t *out);
void eg_t_qmul(const uint64_t *a, const uint64_t *b, uint64_t *out);
void eg_t_pmul(const uint64_t *a, const uint64_t *b, uint64_t *out);
void eg_t_pinv(const uint64_t *a, uint64_t *out);
void eg_t_ppow(const uint64_t *base, const uint64_t *exp, unsigned n, uint64_t *out);
int eg_t_qeq(const uint64_t *a, const uint64_t *b);
int eg_t_peq(const uint64_t *a, const uint64_t *b);
int eg_t_flag(const char *tag, const uint64_t *limbs, unsigned n);
void eg_t_str(const uint64_t *limbs, unsigned n, const char *name);
int eg_t_isconst(const uint64_t *a);
void eg_hex(const uint64_t *limbs, unsigned n, char *out);
void eg_t_hash(const char *tag, const void *p, size_t n, uint8_t *out32);
#ifdef __cplusplus
}
#endif
