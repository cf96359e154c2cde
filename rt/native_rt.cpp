// Native implementation of the harness intrinsics, used to replay a counterexample against the real library.
// Inputs come from the counterexample; group terms are fixed pseudo-random values computed with GMP.
#include "egrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <electionguard/constants.h>
#include <exception>
#include <fstream>
#include <gmp.h>
#include <map>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>
static std::map<std::string, std::vector<uint8_t>> cex;
static std::map<std::string, uint64_t> defs;
static std::map<std::string, int> cnt;
static uint64_t seed = 1;
static std::string uniq(const char *n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static void die(int code, const std::string &m) { printf("REPLAY: %s\n", m.c_str()); fflush(stdout); _exit(code); }
static mpz_t P, Q, G;
static void imp(mpz_t r, const uint64_t *l, unsigned n) { mpz_import(r, n, -1, 8, 0, 0, l); }
static void expo(uint64_t *l, unsigned n, const mpz_t r) { memset(l, 0, 8 * n); if (mpz_sgn(r)) mpz_export(l, nullptr, -1, 8, 0, 0, r); }
static void rnd(mpz_t r, const std::string &name)
{
    uint64_t h = 1469598103934665603ULL ^ (seed * 0x9E3779B97F4A7C15ULL);
    for (char c : name) h = (h ^ (uint8_t)c) * 1099511628211ULL;
    uint64_t l[8];
    for (auto &x : l) { h += 0x9E3779B97F4A7C15ULL; uint64_t z = h; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; x = z ^ (z >> 31); }
    imp(r, l, 8);
    mpz_mod(r, r, Q);
}
struct Watch { const uint8_t *p; size_t n; std::string name; };
static Watch watches[64];
static int nWatch;
static void released(const void *p0, size_t sz)
{
    const uint8_t *p = (const uint8_t *)p0;
    for (int i = 0; i < nWatch; i++)
        if (watches[i].p && watches[i].p >= p && watches[i].p < p + (sz ? sz : 1)) {
            Watch w = watches[i];
            watches[i].p = nullptr;
            for (size_t k = 0; k < w.n; k++)
                if (w.p[k]) die(1, "memory of " + w.name + " released without being wiped");
        }
}
static bool secretsOn;
static struct { uint8_t b[8]; const char *name; } secrets[4096];
static int nSecret;
static void scan(const uint8_t *p, size_t n)
{
    for (size_t k = 0; k + 8 <= n; k++)
        for (int i = 0; i < nSecret; i++)
            if (!memcmp(p + k, secrets[i].b, 8)) { secretsOn = false; auto nm = secrets[i].name; nSecret = 0; die(1, std::string("memory holding ") + nm + " released without being wiped"); }
}
#ifdef EG_HOOK_FREE
#include <malloc.h>
extern "C" void __real_free(void *p);
static void relp(void *p) { if (nSecret && p) scan((const uint8_t *)p, malloc_usable_size(p)); if (nWatch && p) released(p, malloc_usable_size(p)); __real_free(p); }
extern "C" void __wrap_free(void *p) { relp(p); }
void operator delete(void *p) noexcept { relp(p); }
void operator delete(void *p, size_t) noexcept { relp(p); }
void operator delete[](void *p) noexcept { relp(p); }
void operator delete[](void *p, size_t) noexcept { relp(p); }
#endif
extern "C" {
void eg_sym(void *p, size_t n, const char *name) { auto k = uniq(name); memset(p, 0, n); auto f = cex.find(k); if (f != cex.end()) memcpy(p, f->second.data(), std::min(n, f->second.size())); }
void eg_sym_bytes(void *p, size_t n, const char *name) { eg_sym(p, n, name); }
uint32_t eg_choice(uint32_t n, const char *name) { uint32_t v = 0; eg_sym(&v, 4, name); return v < n ? v : n - 1; }
void eg_assume(int c) { if (!c) die(3, "assumption not met"); }
void eg_assert(int c, const char *m) { if (!c) die(1, std::string("assertion failed: ") + m); }
void eg_fail(const char *m) { die(1, m); }
void eg_reach(int) {}
void eg_note(const char *m) { printf("note %s\n", m); }
void eg_note_u64(const char *m, uint64_t v) { printf("note %s=%lu\n", m, v); }
uint64_t eg_def(const char *n, uint64_t d) { auto f = defs.find(n); return f == defs.end() ? d : f->second; }
int eg_symbolic_mode(void) { return 0; }
void eg_stop(void) { die(3, "stopped"); }
int eg_is_sym(uint64_t) { return 0; }
int eg_must(int c) { return c; }
int eg_may(int c) { return c; }
int eg_rng_failed = 0;
uint64_t eg_concretize(uint64_t v) { return v; }
void eg_watch_wipe(const void *p, size_t n, const char *name) { if (nWatch < 64) watches[nWatch++] = {(const uint8_t *)p, n, name}; }
void eg_secrets(int on) { secretsOn = on; if (!on) nSecret = 0; }
void eg_secret(const void *p, size_t n, const char *name)
{
    for (size_t k = 0; secretsOn && k + 8 <= n && nSecret + 2 < 4096; k += 8) {
        const uint8_t *s = (const uint8_t *)p + k;
        bool zero = true;
        for (int j = 0; j < 8; j++) if (s[j]) zero = false;
        if (zero) continue;
        for (int j = 0; j < 8; j++) { secrets[nSecret].b[j] = s[j]; secrets[nSecret + 1].b[j] = s[7 - j]; }
        secrets[nSecret].name = secrets[nSecret + 1].name = name;
        nSecret += 2;
    }
}
int eg_alive(const void *) { return 1; }
size_t eg_objsize(const void *) { return 0; }
void eg_print(const char *m) { printf("%s\n", m); }
void eg_bn_mul(const uint64_t *a, unsigned na, const uint64_t *b, unsigned nb, uint64_t *o) { mpz_t x, y; mpz_inits(x, y, nullptr); imp(x, a, na); imp(y, b, nb); mpz_mul(x, x, y); expo(o, na + nb, x); }
void eg_bn_mod(const uint64_t *a, unsigned na, const uint64_t *n, unsigned nn, uint64_t *o) { mpz_t x, y; mpz_inits(x, y, nullptr); imp(x, a, na); imp(y, n, nn); mpz_mod(x, x, y); expo(o, nn, x); }
void eg_bn_powmod(const uint64_t *b, const uint64_t *e, unsigned ne, uint64_t *o) { mpz_t x, y; mpz_inits(x, y, nullptr); imp(x, b, 64); imp(y, e, ne); mpz_powm(x, x, y, P); expo(o, 64, x); }
void eg_t_set_g(const uint64_t *) {}
void eg_t_set_p(const uint64_t *) {}
void eg_t_atoms(int) {}
static bool fixedVal(mpz_t r, const std::string &k, unsigned n) { auto f = cex.find("term:" + k); if (f == cex.end()) return false; mpz_import(r, f->second.size(), -1, 1, 0, 0, f->second.data()); return true; }
void eg_t_qvar(uint64_t *o, const char *name) { mpz_t r; mpz_init(r); auto k = uniq(name); if (!fixedVal(r, k, 4)) rnd(r, k); expo(o, 4, r); }
void eg_t_pvar(uint64_t *o, const char *name) { mpz_t r; mpz_init(r); auto k = uniq(name); if (!fixedVal(r, k, 4)) rnd(r, k); mpz_powm(r, G, r, P); expo(o, 64, r); }
void eg_t_pvar_nr(uint64_t *o, const char *name, int outside) { eg_t_pvar(o, name); if (outside) { mpz_t r; mpz_init(r); imp(r, o, 64); mpz_sub(r, P, r); expo(o, 64, r); } }
#define BIN(NAME, OP) void NAME(const uint64_t *a, const uint64_t *b, uint64_t *o) { mpz_t x, y; mpz_inits(x, y, nullptr); imp(x, a, 4); imp(y, b, 4); OP(x, x, y); mpz_mod(x, x, Q); expo(o, 4, x); }
BIN(eg_t_qadd, mpz_add)
BIN(eg_t_qsub, mpz_sub)
BIN(eg_t_qmul, mpz_mul)
void eg_t_pmul(const uint64_t *a, const uint64_t *b, uint64_t *o) { mpz_t x, y; mpz_inits(x, y, nullptr); imp(x, a, 64); imp(y, b, 64); mpz_mul(x, x, y); mpz_mod(x, x, P); expo(o, 64, x); }
void eg_t_pinv(const uint64_t *a, uint64_t *o) { mpz_t x; mpz_init(x); imp(x, a, 64); mpz_invert(x, x, P); expo(o, 64, x); }
void eg_t_ppow(const uint64_t *a, const uint64_t *e, unsigned n, uint64_t *o) { mpz_t x, y; mpz_inits(x, y, nullptr); imp(x, a, 64); imp(y, e, n); mpz_powm(x, x, y, P); expo(o, 64, x); }
int eg_t_qeq(const uint64_t *a, const uint64_t *b) { return !memcmp(a, b, 32); }
int eg_t_peq(const uint64_t *a, const uint64_t *b) { return !memcmp(a, b, 512); }
int eg_t_flag(const char *tag, const uint64_t *l, unsigned n)
{
    mpz_t x; mpz_init(x); imp(x, l, n);
    if (!strcmp(tag, "residue")) { mpz_t y; mpz_init(y); mpz_powm(y, x, Q, P); return !mpz_cmp_ui(y, 1); }
    return mpz_cmp(x, n == 64 ? P : Q) < 0;
}
void eg_t_str(const uint64_t *, unsigned, const char *) {}
int eg_t_isconst(const uint64_t *) { return 0; }
void eg_hex(const uint64_t *l, unsigned n, char *o) { std::string r; bool on = false; char b[4]; for (int i = n * 8 - 1; i >= 0; i--) { unsigned x = (l[i / 8] >> (8 * (i % 8))) & 255; if (x) on = true; if (on) { snprintf(b, 4, "%02X", x); r += b; } } if (!on) r = "00"; strcpy(o, r.c_str()); }
void Hacl_Hash_SHA2_hash_256(uint8_t *in, uint32_t n, uint8_t *o);
void eg_hashlog(const uint8_t *d) { static FILE *f = getenv("EG_HASHLOG") ? fopen(getenv("EG_HASHLOG"), "w") : nullptr; if (!f) return; for (int i = 0; i < 32; i++) fprintf(f, "%02x", d[i]); fputc('\n', f); fflush(f); }
void __real_Hacl_Hash_SHA2_hash_256(uint8_t *in, uint32_t n, uint8_t *o);
void __wrap_Hacl_Hash_SHA2_hash_256(uint8_t *in, uint32_t n, uint8_t *o) { __real_Hacl_Hash_SHA2_hash_256(in, n, o); eg_hashlog(o); }
void eg_t_hash(const char *, const void *p, size_t n, uint8_t *o) { Hacl_Hash_SHA2_hash_256((uint8_t *)p, n, o); }
}
// the random number generator answers with the counterexample's bytes, if it has any for this call
extern "C" {
static bool pick(const char *n, uint8_t *b, uint32_t len) { auto k = uniq(n); auto f = cex.find(k); if (f == cex.end()) return false; memcpy(b, f->second.data(), std::min<size_t>(len, f->second.size())); return true; }
static bool fails(const char *n) { auto f = cex.find(uniq(n)); return f != cex.end() && f->second.size() && f->second[0]; }
bool __real_Lib_RandomBuffer_System_randombytes(uint8_t *b, uint32_t n);
bool __wrap_Lib_RandomBuffer_System_randombytes(uint8_t *b, uint32_t n)
{
    if (fails("os_fail")) { eg_rng_failed = 1; memset(b, 0, n); return false; }
    return pick("os_random", b, n) || __real_Lib_RandomBuffer_System_randombytes(b, n);
}
struct drbg { uint8_t *k, *v; uint32_t *c; };
bool __real_Hacl_HMAC_DRBG_generate(uint8_t a, uint8_t *out, drbg s, uint32_t n, uint32_t al, uint8_t *add);
bool __wrap_Hacl_HMAC_DRBG_generate(uint8_t a, uint8_t *out, drbg s, uint32_t n, uint32_t al, uint8_t *add)
{
    if (fails("drbg_fail")) { eg_rng_failed = 1; return false; }
    return pick("drbg", out, n) || __real_Hacl_HMAC_DRBG_generate(a, out, s, n, al, add);
}
}
extern "C" {
void __real_Hacl_HMAC_compute_sha2_256(uint8_t *dst, uint8_t *key, uint32_t kl, uint8_t *data, uint32_t dl);
void __wrap_Hacl_HMAC_compute_sha2_256(uint8_t *dst, uint8_t *key, uint32_t kl, uint8_t *data, uint32_t dl)
{
    __real_Hacl_HMAC_compute_sha2_256(dst, key, kl, data, dl);
    eg_hashlog(dst);
    eg_secret(key, kl, "a key of HMAC");
    if (dl < 512) eg_secret(dst, 32, "a derived key");
}
uint8_t eg_last_digest[32];
void __real_Hacl_Streaming_SHA2_finish_256(void *s, uint8_t *o);
void __wrap_Hacl_Streaming_SHA2_finish_256(void *s, uint8_t *o) { __real_Hacl_Streaming_SHA2_finish_256(s, o); pick("digest", o, 32); eg_hashlog(o); memcpy(eg_last_digest, o, 32); }
}
// threads: one runs at a time, handing over before each lock as the counterexample says; EG_FREE lets them run freely
// (under ThreadSanitizer, to reproduce a race)
#include <condition_variable>
#include <mutex>
#include <pthread.h>
#include <thread>
static pthread_mutex_t tm = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t tc = PTHREAD_COND_INITIALIZER;
static thread_local int self = 0;
static int turn = 0, nThr = 0;
static bool ended[16], freeRun;
static std::map<void *, int> owner;
static void *wants[16];
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
}
static int prevThr = 0, usedPre = 0, maxPre = 1 << 30;
extern "C" void eg_preemptions(int n) { maxPre = n; }
static void handOver() // tm held: choose who runs next
{
    std::vector<int> en; bool all = true;
    for (int i = 1; i <= nThr; i++) { if (!ended[i]) { all = false; if (!wants[i] || !owner[wants[i]]) en.push_back(i); } }
    if (all) turn = 0;
    else if (en.empty()) die(1, "deadlock");
    else {
        bool goOn = false;
        for (int i : en) goOn = goOn || i == prevThr;
        turn = goOn && usedPre >= maxPre ? prevThr : en[en.size() == 1 ? 0 : eg_choice(en.size(), "schedule")];
        if (goOn && turn != prevThr) usedPre++;
        prevThr = turn;
    }
    pthread_cond_broadcast(&tc);
}
static void await(int me) { while (turn != me) pthread_cond_wait(&tc, &tm); }
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!self || freeRun) return __real_pthread_mutex_lock(m);
    __real_pthread_mutex_lock(&tm);
    wants[self] = m; handOver(); await(self); wants[self] = nullptr; owner[m] = self;
    __real_pthread_mutex_unlock(&tm);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!self || freeRun) return __real_pthread_mutex_unlock(m);
    __real_pthread_mutex_lock(&tm); owner[m] = 0; __real_pthread_mutex_unlock(&tm);
    return 0;
}
void eg_threads(unsigned n, void (*f)(void *, unsigned), void *arg)
{
    freeRun = getenv("EG_FREE") != nullptr;
    nThr = n; owner.clear(); prevThr = usedPre = 0;
    for (int i = 0; i < 16; i++) { ended[i] = false; wants[i] = nullptr; }
    std::vector<std::thread> ts;
    __real_pthread_mutex_lock(&tm); turn = -1; __real_pthread_mutex_unlock(&tm);
    for (unsigned i = 0; i < n; i++) ts.emplace_back([=] {
        if (freeRun) { f(arg, i); return; }
        self = i + 1;
        __real_pthread_mutex_lock(&tm); await(self); __real_pthread_mutex_unlock(&tm);
        f(arg, i);
        __real_pthread_mutex_lock(&tm); ended[self] = true; handOver(); __real_pthread_mutex_unlock(&tm);
    });
    if (!freeRun) { __real_pthread_mutex_lock(&tm); handOver(); __real_pthread_mutex_unlock(&tm); }
    for (auto &t : ts) t.join();
}
}
int main(int argc, char **argv)
{
    if (argc < 3) return 4;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string kind, name, hex; std::getline(is, kind, '\t'); std::getline(is, name, '\t'); std::getline(is, hex, '\t');
        if (kind == "def") defs[name] = strtoull(hex.c_str(), 0, 0);
        else if (kind == "seed") seed = strtoull(name.c_str(), 0, 0);
        else { std::vector<uint8_t> v; for (size_t i = 0; i + 1 < hex.size(); i += 2) v.push_back(strtoul(hex.substr(i, 2).c_str(), 0, 16)); cex[name] = v; }
    }
    mpz_inits(P, Q, G, nullptr);
    imp(P, P_ARRAY_REVERSE, 64); imp(Q, Q_ARRAY_REVERSE, 4); imp(G, G_ARRAY_REVERSE, 64);
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) die(4, "no such entry");
    std::set_terminate([] { std::string m = "uncaught exception"; try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception &x) { m += std::string(": ") + x.what(); } catch (...) {} die(1, m); });
    fn();
    die(0, "no violation");
}
