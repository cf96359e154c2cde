// C library functions executed symbolically together with the code under test (documented behaviour only).
#define __NO_CTYPE 1
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <locale.h>
#include <time.h>
#include <ctype.h>
#include "egrt.h"
// ------------------------------------------------------------------ libc
char __libc_single_threaded = 1;
void *__dso_handle = 0;
static __thread int eg_errno;
int *__errno_location(void) { return &eg_errno; }
static struct lconv eg_lconv = {.decimal_point = (char *)".", .thousands_sep = (char *)""};
struct lconv *localeconv(void) { return &eg_lconv; }
// the proleptic Gregorian calendar, days since 1970
struct tm *gmtime_r(const time_t *t, struct tm *r) {
    static const short cum[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    long long s = *t, days = s / 86400, rest = s % 86400; memset(r, 0, sizeof *r);
    if (rest < 0) { rest += 86400; days--; }
    r->tm_hour = (int)(rest / 3600); r->tm_min = (int)(rest / 60 % 60); r->tm_sec = (int)(rest % 60);
    r->tm_wday = (int)(((days % 7) + 11) % 7);
    long long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    long long y = (long long)yoe + era * 400; unsigned d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    if (m <= 2) y++;
    r->tm_year = (int)(y - 1900); r->tm_mon = (int)m - 1; r->tm_mday = (int)d;
    r->tm_yday = cum[m - 1] + (int)d - 1 + (m > 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0));
    return r;
}
struct tm *gmtime(const time_t *t) { static struct tm r; return gmtime_r(t, &r); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
// Sign, 0x prefix and overflow as in C.  The hexadecimal digit value is computed without case splits on the digit.
static unsigned dig(unsigned char c) { unsigned d = 99; d = (c - '0' < 10u) ? c - '0' : d; d = (c - 'a' < 26u) ? c - 'a' + 10 : d; d = (c - 'A' < 26u) ? c - 'A' + 10 : d; return d; }
static unsigned long eg_strto(const char *s, char **end, int base, bool isSigned, unsigned long max) {
    const char *p = s; while (isspace((unsigned char)*p)) p++;
    bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p && ((*p == 48) & ((p[1] | 32) == 120)) && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
    if (base == 0) base = *p == '0' ? 8 : 10;
    const char *b = p; unsigned long v = 0; bool over = false;
    while (true) { unsigned d = dig((unsigned char)*p); if (d >= (unsigned)base) break; if (p - b >= (base == 10 ? 18 : base == 16 ? 15 : 7)) { if (v > (~0ul - d) / base) over = true; } v = v * base + d; p++; }
    if (end) *end = (char *)(p == b ? s : p);
    if (isSigned) { unsigned long lim = neg ? max + 1 : max; if (over || v > lim) { eg_errno = 34; return neg ? 0ul - (max + 1) : max; } return neg ? 0ul - v : v; }
    if (over || v > max) { eg_errno = 34; return max; }
    return neg ? 0ul - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)eg_strto(s, e, b, true, 0x7fffffffffffffffl); }
long long strtoll(const char *s, char **e, int b) { return (long long)eg_strto(s, e, b, true, 0x7fffffffffffffffl); }
unsigned long strtoul(const char *s, char **e, int b) { return eg_strto(s, e, b, false, ~0ul); }
unsigned long long strtoull(const char *s, char **e, int b) { return eg_strto(s, e, b, false, ~0ul); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; memcpy(d, s, n); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
FILE *stdout, *stderr, *stdin;
int fflush(FILE *f) { return 0; }
int fprintf(FILE *a, const char *b, ...) { return 0; }
int printf(const char *f, ...) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return 0; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { return n; }
double strtod(const char *s, char **e) { eg_fail("floating point input is not modelled"); return 0; }
char *getenv(const char *s) { return 0; }
