/* The C library, for symbolic execution only (never linked natively). */
#include "sym.h"
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#undef errno
#undef strlen
static int the_errno;
int *__errno_location(void) { return &the_errno; }
void *stderr_obj[4], *stdout_obj[4];

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return NULL; }
char *strstr(const char *h, const char *n)
{ size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int tolower(int c) { return low(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char *a, const char *b)
{ for (;; a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y || !x) return x - y; } }
int strncasecmp(const char *a, const char *b, size_t n)
{ for (; n; n--, a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }

/* "C" locale character classes */
static unsigned short ctab[384]; static const unsigned short *cptr; static int lo_tab[384], up_tab[384]; static const int *lo_p, *up_p;
static void cinit(void)
{
    for (int i = 0; i < 384; i++) {
        int c = i - 128; unsigned short m = 0;
        if (c >= 0 && c < 128) {
            int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
            if (up) m |= 1 << 8; if (lo) m |= 1 << 9; if (up || lo) m |= 1 << 10; if (dg) m |= 1 << 11;
            if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= 1 << 12;
            if (c == ' ' || (c >= 9 && c <= 13)) m |= 1 << 13;
            if (c >= 32 && c < 127) m |= 1 << 14;
            if (c > 32 && c < 127) m |= 1 << 15;
            if (c == ' ' || c == 9) m |= 1 << 0; if (c < 32 || c == 127) m |= 1 << 1;
            if (c > 32 && c < 127 && !up && !lo && !dg) m |= 1 << 2; if (up || lo || dg) m |= 1 << 3;
        }
        ctab[i] = m; lo_tab[i] = c >= 0 ? low(c) : c; up_tab[i] = c >= 0 ? toupper(c) : c;
    }
    cptr = ctab + 128; lo_p = lo_tab + 128; up_p = up_tab + 128;
}
const unsigned short **__ctype_b_loc(void) { if (!cptr) cinit(); return &cptr; }
const int **__ctype_tolower_loc(void) { if (!cptr) cinit(); return &lo_p; }
const int **__ctype_toupper_loc(void) { if (!cptr) cinit(); return &up_p; }
static int isd(int c) { return c >= '0' && c <= '9'; }
static int isws(int c) { return c == ' ' || (c >= 9 && c <= 13); }

long strtol(const char *s, char **end, int base)
{
    const char *p = s; int neg = 0, any = 0, over = 0;
    while (isws((unsigned char)*p)) p++;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0;
    for (;; p++) {
        int d; char c = *p;
        if (isd(c)) d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break;
        any = 1;
        if (v > ((unsigned long)1 << 63) / base) over = 1;
        v = v * base + d;
        if (v > (unsigned long)0x7fffffffffffffff + neg) over = 1;
    }
    if (end) *end = (char *)(any ? p : s);
    if (over) { the_errno = ERANGE; return neg ? (long)0x8000000000000000 : 0x7fffffffffffffff; }
    return neg ? -(long)v : (long)v;
}
unsigned long strtoul(const char *s, char **end, int base)
{
    const char *p = s; while (isws((unsigned char)*p)) p++;
    if (*p == '-') return (unsigned long)strtol(s, end, base);
    unsigned long v = 0; int any = 0; if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (!base) base = *p == '0' ? 8 : 10;
    for (;; p++) { int d; char c = *p; if (isd(c)) d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break; any = 1; v = v * base + d; }
    if (end) *end = (char *)(any ? p : s);
    return v;
}
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }

/* printf family */
struct sink { char *p; size_t n, len; };
static void put(struct sink *k, char c) { if (k->len + 1 < k->n) k->p[k->len] = c; k->len++; }
static void num(struct sink *k, unsigned long v, int neg, unsigned base, int upper, int width, int zero, int left, int prec, int plus)
{
    char t[24]; int n = 0;
    if (v == 0 && prec != 0) t[n++] = '0';
    while (v) { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; }
    while (n < prec && n < 22) t[n++] = '0';
    int sign = neg || plus;
    if (zero && prec < 0 && !left) while (n + sign < width && n < 22) t[n++] = '0';
    if (!left) for (int i = n + sign; i < width; i++) put(k, ' ');
    if (neg) put(k, '-'); else if (plus) put(k, plus);
    for (int i = n; i-- > 0;) put(k, t[i]);
    if (left) for (int i = n + sign; i < width; i++) put(k, ' ');
}
int vsnprintf(char *buf, size_t size, const char *f, va_list ap)
{
    struct sink k = { buf, size, 0 };
    for (; *f; f++) {
        if (*f != '%') { put(&k, *f); continue; }
        f++;
        int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0, alt = 0;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = '+'; else if (*f == ' ') plus = ' '; else if (*f == '#') alt = 1; else break; }
        if (*f == '*') { width = va_arg(ap, int); f++; } else while (isd(*f)) width = width * 10 + *f++ - '0';
        if (width < 0) { left = 1; width = -width; }
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isd(*f)) prec = prec * 10 + *f++ - '0'; }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f != 'h') lng = 1; f++; }
        switch (*f) {
        case '%': put(&k, '%'); break;
        case 'c': { char c = va_arg(ap, int); if (!left) for (int i = 1; i < width; i++) put(&k, ' '); put(&k, c); if (left) for (int i = 1; i < width; i++) put(&k, ' '); break; }
        case 's': {
            const char *s = va_arg(ap, const char *); if (!s) s = "(null)";
            int n = 0; while ((prec < 0 || n < prec) && s[n]) n++;
            if (!left) for (int i = n; i < width; i++) put(&k, ' ');
            for (int i = 0; i < n; i++) put(&k, s[i]);
            if (left) for (int i = n; i < width; i++) put(&k, ' ');
            break; }
        case 'd': case 'i': { long v = lng ? va_arg(ap, long) : va_arg(ap, int); num(&k, v < 0 ? 0 - (unsigned long)v : (unsigned long)v, v < 0, 10, 0, width, zero, left, prec, plus); break; }
        case 'u': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); num(&k, v, 0, 10, 0, width, zero, left, prec, 0); break; }
        case 'x': case 'X': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (alt && v) { put(&k, '0'); put(&k, *f); } num(&k, v, 0, 16, *f == 'X', width, zero, left, prec, 0); break; }
        case 'p': { unsigned long v = va_arg(ap, unsigned long); put(&k, '0'); put(&k, 'x'); num(&k, v, 0, 16, 0, 0, 0, 0, -1, 0); break; }
        default: msym_incomplete("printf conversion not modelled"); }
    }
    if (size) buf[k.len < size ? k.len : size - 1] = 0;
    return k.len;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }

/* stable insertion sort / binary search (the order of equal elements under
 * qsort is unspecified in C; callers may not depend on it) */
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    char *b = base, *t = malloc(sz);
    for (size_t i = 1; i < n; i++) {
        memcpy(t, b + i * sz, sz);
        size_t j = i;
        while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); j--; }
        memcpy(b + j * sz, t, sz);
    }
    free(t);
}
__attribute__((optnone, noinline))   /* keeps the branches: lo and hi stay concrete */
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz; int c = cmp(key, p);
        if (c == 0) return (void *)p;
        if (c < 0) hi = m; else lo = m + 1;
    }
    return NULL;
}
/* proleptic Gregorian calendar, UTC */
time_t mktime(struct tm *t)
{
    long y = t->tm_year + 1900L, m = t->tm_mon; y += m / 12; m %= 12; if (m < 0) { m += 12; y--; }
    m += 1; long yy = y - (m <= 2), era = (yy >= 0 ? yy : yy - 399) / 400, yoe = yy - era * 400;
    long doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t->tm_mday - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return ((era * 146097 + doe - 719468) * 24 + t->tm_hour) * 3600 + t->tm_min * 60 + t->tm_sec;
}
time_t timegm(struct tm *t) { return mktime(t); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; n++) { const char *p = r; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
