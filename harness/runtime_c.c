// Models of libc functions; linked to the bitcode only.
#include <stddef.h>
typedef struct { int quot, rem; } div_t;
typedef struct { long quot, rem; } ldiv_t;
typedef struct { long long quot, rem; } lldiv_t;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
    while (*a && *a == *b) { ++a; ++b; }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; --n, ++a, ++b) {
        if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
        if (!*a) return 0;
    }
    return 0;
}
char *strchr(const char *s, int c) {
    for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
int memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (; n; --n, ++x, ++y) if (*x != *y) return (int)*x - (int)*y;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) {
    const unsigned char *x = (const unsigned char *)a;
    for (; n; --n, ++x) if (*x == (unsigned char)c) return (void *)x;
    return 0;
}
div_t div(int a, int b) { div_t r = {a / b, a % b}; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r = {a / b, a % b}; return r; }
lldiv_t lldiv(long long a, long long b) { lldiv_t r = {a / b, a % b}; return r; }
static int errno_;
int *__errno_location(void) { return &errno_; }
static unsigned long parse_(const char *s, char **end, int base, unsigned long lim_pos, unsigned long lim_neg, int is_signed) {
    const char *p = s;
    int neg = 0, any = 0, over = 0;
    unsigned long r = 0;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
    if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    if (base != 10 && base != 0) __builtin_trap();
    for (; *p >= '0' && *p <= '9'; ++p) {
        unsigned long d = (unsigned long)(*p - '0'), lim = neg ? lim_neg : lim_pos;
        any = 1;
        if (over || r > lim / 10 || r * 10 > lim - d) over = 1; else r = r * 10 + d;
    }
    if (end) *end = (char *)(any ? p : s);
    if (over) { errno_ = 34; return neg && is_signed ? 0 - lim_neg : lim_pos; }
    return neg ? 0 - r : r;
}
long strtol(const char *s, char **end, int base) { return (long)parse_(s, end, base, 0x7fffffffffffffffUL, 0x8000000000000000UL, 1); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) { return parse_(s, end, base, ~0UL, ~0UL, 0); }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
