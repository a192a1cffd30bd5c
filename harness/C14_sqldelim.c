// A text of SQL statements is split exactly at its statement ends, and nothing is lost.
//@ run h_any engine=msym lib=tools/sqldelim.c workers=4 timeout=300 covers="every text of up to 5 arbitrary bytes: memory safety, nothing lost or duplicated"
//@ run h_any engine=msym lib=tools/sqldelim.c workers=7 timeout=2000 tier=thorough name=h_any6 defs="-DN=6" covers="the same with 6 bytes"
//@ run h_tokens engine=msym lib=tools/sqldelim.c workers=4 timeout=300 covers="every sequence of 4 pieces out of keywords in either case, words, numbers, quotes, brackets, blanks, semicolons, operators"
//@ run h_tokens engine=msym lib=tools/sqldelim.c workers=7 timeout=3000 tier=thorough name=h_tokens5 defs="-DM=5" covers="the same with 5 pieces"
//@ run h_stop engine=msym lib=tools/sqldelim.c workers=2 timeout=300 covers="the callback stops after any statement; the next text is split as if nothing had happened"
//@ assume a statement ends at a semicolon outside quotes and brackets or before a keyword that begins a statement; blanks around statements do not count
#include "sym.h"
#include "sqldelim.h"
#include <glib.h>
#include <ctype.h>
#ifndef N
#define N 5
#endif
#ifndef M
#define M 4
#endif
static char *got[12]; static int ngot, stop_at = -1;
static int take(const char *s, void *o) { CHECK(o == (void *)got, "the caller's pointer is passed on"); CHECK(ngot < 12, "number of statements"); got[ngot++] = strdup(s); return ngot - 1 == stop_at ? 7 : 0; }
static int split(const char *t)
{ int r = sql_get_statement(t, take, got); return r ? r : sql_get_statement("", take, got); }
static int blank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\f' || c == '\v' || c == '\r'; }
static unsigned skip(const char *t)          /* quoted part starting at t */
{ unsigned i = 1; if (*t == '[') { while (t[i] && t[i - 1] != ']') i++; return i; } while (t[i]) if (t[i++] == *t) break; return i; }
void h_any(void)
{
    char t[N + 1], want[N + 1], have[4 * N]; unsigned n = sym_choose(N + 1), w = 0, h = 0;
    for (unsigned i = 0; i < n; i++) { t[i] = sym_u8(); ASSUME(t[i]); } t[n] = 0;
    CHECK(split(t) == 0, "splitting succeeds");
    for (int k = 0; k < ngot; k++) { CHECK(got[k][0], "no empty statement"); for (char *s = got[k]; *s; s++) { CHECK(h < 4 * N - 1, "length"); have[h++] = *s; } }
    for (unsigned i = 0; i < n;) {
        unsigned l = t[i] == '\'' || t[i] == '`' || t[i] == '[' ? skip(t + i) : 1;
        if (l == 1 && t[i] == ';') { i++; continue; }
        while (l--) want[w++] = t[i++];
    }
    unsigned i = 0, j = 0;
    for (;;) { while (i < w && blank(want[i])) i++; while (j < h && blank(have[j])) j++; if (i == w || j == h) break; CHECK(want[i] == have[j], "no text is lost, added or changed"); i++; j++; }
    CHECK(i == w && j == h, "no text is lost or added"); WITNESS("end"); WITNESS_IF(ngot == 2, "two");
}
static const char *const piece[] = { "DROP", "insert", "x", "'", "`", " ", ";", "[", "[a;]", "=1", "\n", "DROPS" };
static char ref[12][40]; static int nref;
static int is_kw(const char *s, unsigned n)
{ static const char *const kw[] = { "ALTER", "CREATE", "DELETE", "DROP", "INSERT", "SELECT", "UPDATE" }; for (int i = 0; i < 7; i++) if (strlen(kw[i]) == n && !strncasecmp(kw[i], s, n)) return 1; return 0; }
static void close_ref(char *b, unsigned *n) { while (*n && blank(b[*n - 1])) (*n)--; b[*n] = 0; if (*n) strcpy(ref[nref++], b); *n = 0; }
static void split_ref(const char *t)
{
    char b[40]; unsigned n = 0; nref = 0;
    while (*t) {
        unsigned l = 1;
        if (*t == ';') { close_ref(b, &n); t++; continue; }
        if (*t == '\'' || *t == '`' || *t == '[') l = skip(t);
        else if (isalpha((unsigned char)*t)) { while (isalnum((unsigned char)t[l])) l++; if (is_kw(t, l)) { unsigned k = 0; while (k < n && blank(b[k])) k++; if (k < n) close_ref(b, &n); } }
        else if (isdigit((unsigned char)*t)) while (isdigit((unsigned char)t[l])) l++;
        if (!(n == 0 && blank(*t))) { memcpy(b + n, t, l); n += l; }
        t += l;
    }
    close_ref(b, &n);
}
static void compare(void)
{
    CHECK(ngot == nref, "as many statements as there are");
    for (int k = 0; k < ngot; k++) {
        char *s = got[k]; while (blank(*s)) s++; unsigned l = strlen(s); while (l && blank(s[l - 1])) l--;
        CHECK(l > 0, "a blank statement is none"); CHECK(strlen(ref[k]) == l && !memcmp(ref[k], s, l), "each statement is complete");
    }
}
static void text(char *t, int m) { t[0] = 0; for (int i = 0; i < m; i++) strcat(t, piece[sym_choose(sizeof piece / sizeof *piece)]); }
void h_tokens(void)
{
    char t[64]; text(t, M); CHECK(split(t) == 0, "splitting succeeds"); split_ref(t); compare(); WITNESS("end"); WITNESS_IF(ngot == 3, "three");
}
void h_stop(void)
{
    char t[64]; text(t, 3); stop_at = sym_choose(2); int r = split(t); split_ref(t);
    CHECK(r == (nref > stop_at ? 7 : 0), "the callback's verdict is returned"); if (r) { CHECK(ngot == stop_at + 1, "and nothing more is executed"); WITNESS("stopped"); }
    ngot = 0; stop_at = -1; text(t, 2); CHECK(split(t) == 0, "splitting succeeds"); split_ref(t); compare(); WITNESS("end");
}
