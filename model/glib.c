/* CBMC models of the glib/gobject functions the real sources call.
 * Never linked into the native replay, which uses the real glib.  */
#include "sym.h"
#include <glib.h>
#include <glib-object.h>
#include <stdarg.h>
#include <ctype.h>
#undef g_strdup
#undef g_free

#ifdef MSYM
void msym_fatal(const char *msg, ...) __attribute__((noreturn));
static gpointer chk(gpointer p) { if (!p) msym_fatal("g_malloc of a huge size aborts the program"); return p; }
#else
#define chk(p) (p)
#endif
gpointer g_malloc(gsize n)      { return n ? chk(malloc(n)) : NULL; }
gpointer g_malloc0(gsize n)     { return n ? chk(calloc(1, n)) : NULL; }
gpointer g_try_malloc(gsize n)  { return n ? malloc(n) : NULL; }
gpointer g_try_malloc0(gsize n) { return n ? calloc(1, n) : NULL; }
gpointer g_realloc(gpointer p, gsize n) { return realloc(p, n); }
gpointer g_malloc_n(gsize n, gsize s)  { return n * s ? malloc(n * s) : NULL; }
gpointer g_malloc0_n(gsize n, gsize s) { return n * s ? calloc(n, s) : NULL; }
void (g_free)(gpointer p)       { free(p); }
void g_free_sized(gpointer p, size_t n) { free(p); }

gchar *(g_strdup)(const gchar *s)
{
    if (!s) return NULL;
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    return p;
}
gchar *g_strndup(const gchar *s, gsize n)
{
    if (!s) return NULL;
    char *p = malloc(n + 1);
    gsize i = 0;
    for (; i < n && s[i]; i++) p[i] = s[i];
    for (; i <= n; i++) p[i] = 0;
    return p;
}
gchar *g_stpcpy(gchar *d, const gchar *s)
{ while ((*d = *s)) d++, s++; return d; }

gsize g_strlcpy(gchar *dest, const gchar *src, gsize n)
{
    gsize i = 0;
    if (n) { for (; i + 1 < n && src[i]; i++) dest[i] = src[i]; dest[i] = 0; }
    while (src[i]) i++;
    return i;
}

int (g_strcmp0)(const char *a, const char *b)
{
    if (!a) return -(a != b);
    if (!b) return a != b;
    return strcmp(a, b);
}
gboolean (g_str_equal)(gconstpointer a, gconstpointer b)
{ return strcmp(a, b) == 0; }
gint g_ascii_strcasecmp(const gchar *a, const gchar *b)
{
    for (;; a++, b++) {
        int x = (unsigned char)*a, y = (unsigned char)*b;
        if (x >= 'A' && x <= 'Z') x += 32;
        if (y >= 'A' && y <= 'Z') y += 32;
        if (x != y || !x) return x - y;
    }
}

/* logging: the values logged are not part of any claim */
void g_log(const gchar *d, GLogLevelFlags l, const gchar *f, ...) { }
void g_log_structured_standard(const gchar *d, GLogLevelFlags l, const gchar *file, const gchar *line, const gchar *func, const gchar *f, ...) { }
void g_warn_message(const char *d, const char *f, int l, const char *fn, const char *w) { }
void g_return_if_fail_warning(const char *d, const char *f, const char *e) { }
void g_assertion_message_expr(const char *d, const char *f, int l, const char *fn, const char *e)
{ CHECK(0, "g_assert in the code under test"); ASSUME(0); }
void g_assertion_message(const char *d, const char *f, int l, const char *fn, const char *e)
{ CHECK(0, "g_assert in the code under test"); ASSUME(0); }

static const char *quarks[96]; static int nquarks;
GQuark g_quark_from_static_string(const gchar *s)
{
    if (!s) return 0;
    for (int i = 0; i < nquarks; i++) if (!strcmp(quarks[i], s)) return i + 1;
    if (nquarks == 96) msym_fatal("too many quarks");
    char *c = malloc(strlen(s) + 1); strcpy(c, s); quarks[nquarks] = c; return ++nquarks;
}

/* single-threaded */
gboolean (g_once_init_enter)(volatile void *p) { return *(volatile gsize *)p == 0; }
void (g_once_init_leave)(volatile void *p, gsize v) { *(volatile gsize *)p = v; }
gboolean (g_once_init_enter_pointer)(void *p) { return *(gpointer *)p == NULL; }
void (g_once_init_leave_pointer)(void *p, gpointer v) { *(gpointer *)p = v; }
const gchar *g_intern_static_string(const gchar *s) { return s; }

/* GError: domain and code are kept, the message text is not */
GError *g_error_new(GQuark d, gint c, const gchar *f, ...)
{ GError *e = malloc(sizeof *e); e->domain = d; e->code = c; e->message = NULL; return e; }
GError *g_error_new_literal(GQuark d, gint c, const gchar *m)
{ GError *e = malloc(sizeof *e); e->domain = d; e->code = c; e->message = NULL; return e; }
void g_set_error(GError **e, GQuark d, gint c, const gchar *f, ...)
{ if (e) *e = g_error_new_literal(d, c, NULL); }
void g_set_error_literal(GError **e, GQuark d, gint c, const gchar *m)
{ if (e) *e = g_error_new_literal(d, c, NULL); }
void g_error_free(GError *e) { free(e); }
void g_clear_error(GError **e) { if (e && *e) { free(*e); *e = NULL; } }
void g_propagate_error(GError **d, GError *s) { if (!d) { free(s); return; } *d = s; }

/* GString */
GString *g_string_new(const gchar *init)
{
    GString *s = malloc(sizeof *s);
    s->len = init ? strlen(init) : 0;
    s->allocated_len = s->len + 1;
    s->str = malloc(s->allocated_len);
    for (gsize i = 0; i < s->len; i++) s->str[i] = init[i];
    s->str[s->len] = 0;
    return s;
}
GString *g_string_insert_len(GString *s, gssize pos, const gchar *v, gssize len)
{
    gsize n = len < 0 ? strlen(v) : (gsize)len;
    gsize at = pos < 0 ? s->len : (gsize)pos;
    char *p = malloc(s->len + n + 1);
    for (gsize i = 0; i < at; i++) p[i] = s->str[i];
    for (gsize i = 0; i < n; i++) p[at + i] = v[i];
    for (gsize i = at; i < s->len; i++) p[n + i] = s->str[i];
    p[s->len + n] = 0;
    free(s->str);
    s->str = p; s->len += n; s->allocated_len = s->len + 1;
    return s;
}
GString *(g_string_append_len)(GString *s, const gchar *v, gssize len) { return g_string_insert_len(s, -1, v, len); }
GString *(g_string_append)(GString *s, const gchar *v) { return g_string_insert_len(s, -1, v, -1); }
GString *(g_string_append_c)(GString *s, gchar c) { return g_string_insert_len(s, -1, &c, 1); }
GString *g_string_insert_c(GString *s, gssize pos, gchar c) { return g_string_insert_len(s, pos, &c, 1); }
GString *g_string_erase(GString *s, gssize pos, gssize len)
{
    gsize l = len < 0 ? s->len - pos : (gsize)len;
    for (gsize i = pos; i + l < s->len; i++) s->str[i] = s->str[i + l];
    s->len -= l;
    if (s->str) s->str[s->len] = 0;
    return s;
}
GString *(g_string_truncate)(GString *s, gsize len)
{ if (len < s->len) s->len = len; s->str[s->len] = 0; return s; }
gchar *(g_string_free)(GString *s, gboolean fs)
{ char *p = s->str; free(s); if (fs) { free(p); return NULL; } return p; }
gchar *(g_string_free_and_steal)(GString *s) { char *p = s->str; free(s); return p; }

#ifdef MSYM
/* whole-library additions */
char *g_strdup_vprintf(const char *f, va_list ap)
{
    va_list a2; va_copy(a2, ap);
    int n = vsnprintf(NULL, 0, f, ap);
    char *p = malloc(n + 1);
    vsnprintf(p, n + 1, f, a2);
    va_end(a2);
    return p;
}
char *g_strdup_printf(const char *f, ...) { va_list ap; va_start(ap, f); char *p = g_strdup_vprintf(f, ap); va_end(ap); return p; }
void g_string_append_vprintf(GString *s, const char *f, va_list ap) { char *p = g_strdup_vprintf(f, ap); g_string_insert_len(s, -1, p, -1); free(p); }
void g_string_append_printf(GString *s, const char *f, ...) { va_list ap; va_start(ap, f); g_string_append_vprintf(s, f, ap); va_end(ap); }
void g_string_printf(GString *s, const char *f, ...) { va_list ap; va_start(ap, f); s->len = 0; s->str[0] = 0; g_string_append_vprintf(s, f, ap); va_end(ap); }
GString *g_string_sized_new(gsize n) { return g_string_new(""); }
GString *g_string_ascii_up(GString *s) { for (gsize i = 0; i < s->len; i++) if (s->str[i] >= 'a' && s->str[i] <= 'z') s->str[i] -= 32; return s; }
gchar *g_build_filename(const gchar *a, ...)
{
    va_list ap; va_start(ap, a); GString *s = g_string_new(a); const char *x;
    while ((x = va_arg(ap, const char *))) { if (s->len && s->str[s->len - 1] != '/' && *x != '/') (g_string_append_c)(s, '/'); g_string_insert_len(s, -1, x, -1); }
    va_end(ap);
    return (g_string_free)(s, FALSE);
}
/* Not all of these are called by the library today. */
gchar *g_strconcat(const gchar *a, ...)
{ va_list ap; va_start(ap, a); GString *s = g_string_new(a); const char *x; while ((x = va_arg(ap, const char *))) g_string_insert_len(s, -1, x, -1); va_end(ap); return (g_string_free)(s, FALSE); }
gchar *g_strjoin(const gchar *sep, ...)
{ va_list ap; va_start(ap, sep); GString *s = g_string_new(""); const char *x; int n = 0; while ((x = va_arg(ap, const char *))) { if (n++ && sep) g_string_insert_len(s, -1, sep, -1); g_string_insert_len(s, -1, x, -1); } va_end(ap); return (g_string_free)(s, FALSE); }
gboolean (g_str_has_prefix)(const gchar *s, const gchar *p) { return strncmp(s, p, strlen(p)) == 0; }
gboolean (g_str_has_suffix)(const gchar *s, const gchar *p) { size_t a = strlen(s), b = strlen(p); return a >= b && strcmp(s + a - b, p) == 0; }
gpointer g_realloc_n(gpointer p, gsize n, gsize s) { return g_realloc(p, n * s); }
gpointer g_try_realloc(gpointer p, gsize n) { return realloc(p, n); }
gpointer g_try_realloc_n(gpointer p, gsize n, gsize s) { return realloc(p, n * s); }
gpointer g_try_malloc_n(gsize n, gsize s) { return g_try_malloc(n * s); }
gpointer g_try_malloc0_n(gsize n, gsize s) { return g_try_malloc0(n * s); }
gpointer g_memdup(gconstpointer m, guint n) { if (!m || !n) return NULL; gpointer p = malloc(n); memcpy(p, m, n); return p; }
gpointer (g_memdup2)(gconstpointer m, gsize n) { if (!m || !n) return NULL; gpointer p = malloc(n); memcpy(p, m, n); return p; }
gchar *g_strnfill(gsize n, gchar c) { char *p = malloc(n + 1); for (gsize i = 0; i < n; i++) p[i] = c; p[n] = 0; return p; }
gsize g_strlcat(gchar *d, const gchar *s, gsize n) { gsize k = 0; while (k < n && d[k]) k++; return k + g_strlcpy(d + k, s, n - k); }
gint g_snprintf(gchar *d, gulong n, const gchar *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
gint g_vsnprintf(gchar *d, gulong n, const gchar *f, va_list ap) { return vsnprintf(d, n, f, ap); }
gchar g_ascii_tolower(gchar c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
gchar g_ascii_toupper(gchar c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
gint g_ascii_digit_value(gchar c) { return c >= '0' && c <= '9' ? c - '0' : -1; }
gint g_ascii_strncasecmp(const gchar *a, const gchar *b, gsize n) { for (; n; n--, a++, b++) { int x = (unsigned char)g_ascii_tolower(*a), y = (unsigned char)g_ascii_tolower(*b); if (x != y || !x) return x - y; } return 0; }
gint64 g_ascii_strtoll(const gchar *s, gchar **e, guint b) { return strtoll(s, e, b); }
guint64 g_ascii_strtoull(const gchar *s, gchar **e, guint b) { return strtoull(s, e, b); }
gchar *g_ascii_strdown(const gchar *s, gssize n) { char *p = g_strndup(s, n < 0 ? strlen(s) : (gsize)n); for (char *q = p; *q; q++) *q = g_ascii_tolower(*q); return p; }
gchar *g_ascii_strup(const gchar *s, gssize n) { char *p = g_strndup(s, n < 0 ? strlen(s) : (gsize)n); for (char *q = p; *q; q++) *q = g_ascii_toupper(*q); return p; }
gchar *g_strchug(gchar *s) { size_t k = 0, i = 0; while (s[k] == ' ' || (s[k] >= 9 && s[k] <= 13)) k++; do s[i] = s[i + k]; while (s[i++]); return s; }
gchar *g_strchomp(gchar *s) { size_t n = strlen(s); while (n && (s[n - 1] == ' ' || (s[n - 1] >= 9 && s[n - 1] <= 13))) s[--n] = 0; return s; }
void g_strfreev(gchar **v) { if (v) { for (gchar **p = v; *p; p++) free(*p); free(v); } }
guint g_strv_length(gchar **v) { guint n = 0; while (v[n]) n++; return n; }
gchar **g_strsplit(const gchar *s, const gchar *sep, gint max)
{
    gchar **v = malloc(sizeof *v); guint n = 0; size_t l = strlen(sep);
    if (*s) for (const char *e;; s = e + l) {
        e = max > 0 && (gint)n + 1 >= max ? NULL : strstr(s, sep);
        v = realloc(v, (n + 2) * sizeof *v); v[n++] = g_strndup(s, e ? (gsize)(e - s) : strlen(s));
        if (!e) break;
    }
    v[n] = NULL; return v;
}
GString *g_string_assign(GString *s, const gchar *v) { s->len = 0; s->str[0] = 0; return g_string_insert_len(s, -1, v, -1); }
GString *g_string_insert(GString *s, gssize pos, const gchar *v) { return g_string_insert_len(s, pos, v, -1); }
GString *g_string_prepend(GString *s, const gchar *v) { return g_string_insert_len(s, 0, v, -1); }
GString *g_string_prepend_c(GString *s, gchar c) { return g_string_insert_len(s, 0, &c, 1); }
GString *g_string_new_len(const gchar *v, gssize n) { return g_string_insert_len(g_string_new(""), -1, v, n); }
gboolean g_string_equal(const GString *a, const GString *b) { return a->len == b->len && !memcmp(a->str, b->str, a->len); }
void g_print(const gchar *f, ...) { }
void g_printerr(const gchar *f, ...) { }
void g_set_prgname(const gchar *p) { }
void g_prefix_error(GError **e, const gchar *f, ...) { }
GError *g_error_copy(const GError *e) { GError *c = malloc(sizeof *c); *c = *e; return c; }
typedef struct { GPtrArray a; guint cap; GDestroyNotify f; } MPtrs;
GPtrArray *g_ptr_array_new(void) { MPtrs *m = calloc(1, sizeof *m); return &m->a; }
GPtrArray *g_ptr_array_new_with_free_func(GDestroyNotify f) { MPtrs *m = calloc(1, sizeof *m); m->f = f; return &m->a; }
GPtrArray *g_ptr_array_sized_new(guint n) { return g_ptr_array_new(); }
void g_ptr_array_add(GPtrArray *a, gpointer p) { MPtrs *m = (MPtrs *)a; if (a->len == m->cap) { m->cap = m->cap * 2 + 4; a->pdata = realloc(a->pdata, m->cap * sizeof p); } a->pdata[a->len++] = p; }
gpointer *g_ptr_array_free(GPtrArray *a, gboolean fs) { MPtrs *m = (MPtrs *)a; gpointer *d = a->pdata; if (fs) { if (m->f) for (guint i = 0; i < a->len; i++) m->f(d[i]); free(d); d = NULL; } free(m); return d; }
void g_ptr_array_unref(GPtrArray *a) { g_ptr_array_free(a, TRUE); }
gpointer g_ptr_array_remove_index(GPtrArray *a, guint i) { gpointer p = a->pdata[i]; for (; i + 1 < a->len; i++) a->pdata[i] = a->pdata[i + 1]; a->len--; if (((MPtrs *)a)->f) ((MPtrs *)a)->f(p); return p; }
GByteArray *g_byte_array_new(void) { return (GByteArray *)calloc(1, sizeof(GByteArray)); }
GByteArray *g_byte_array_append(GByteArray *a, const guint8 *d, guint n) { a->data = realloc(a->data, a->len + n + 1); memcpy(a->data + a->len, d, n); a->len += n; return a; }
guint8 *g_byte_array_free(GByteArray *a, gboolean fs) { guint8 *d = a->data; free(a); if (fs) { free(d); d = NULL; } return d; }
GList *g_list_append(GList *l, gpointer p) { GList *n = calloc(1, sizeof *n), *k = l; n->data = p; if (!l) return n; while (k->next) k = k->next; k->next = n; n->prev = k; return l; }
GList *g_list_prepend(GList *l, gpointer p) { GList *n = calloc(1, sizeof *n); n->data = p; n->next = l; if (l) l->prev = n; return n; }
GList *g_list_reverse(GList *l) { GList *r = NULL; while (l) { GList *n = l->next; l->next = r; l->prev = n; r = l; l = n; } return r; }
void g_list_free(GList *l) { while (l) { GList *n = l->next; free(l); l = n; } }
void g_list_free_full(GList *l, GDestroyNotify f) { while (l) { GList *n = l->next; f(l->data); free(l); l = n; } }
GList *g_list_first(GList *l) { while (l && l->prev) l = l->prev; return l; }
GList *g_list_find(GList *l, gconstpointer p) { while (l && l->data != p) l = l->next; return l; }
guint g_list_length(GList *l) { guint n = 0; for (; l; l = l->next) n++; return n; }
GSList *g_slist_prepend(GSList *l, gpointer p) { GSList *n = calloc(1, sizeof *n); n->data = p; n->next = l; return n; }
GSList *g_slist_append(GSList *l, gpointer p) { GSList *n = calloc(1, sizeof *n), *k = l; n->data = p; if (!l) return n; while (k->next) k = k->next; k->next = n; return l; }
GSList *g_slist_reverse(GSList *l) { GSList *r = NULL; while (l) { GSList *n = l->next; l->next = r; r = l; l = n; } return r; }
void g_slist_free(GSList *l) { while (l) { GSList *n = l->next; free(l); l = n; } }
void g_slist_free_full(GSList *l, GDestroyNotify f) { while (l) { GSList *n = l->next; f(l->data); free(l); l = n; } }
static const gchar u8skip[256] = {
#define S1(x) x,x,x,x,x,x,x,x,x,x,x,x,x,x,x,x
    S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(1),S1(2),S1(2),S1(3),4,4,4,4,4,4,4,4,5,5,5,5,6,6,1,1 };
const gchar *const g_utf8_skip = u8skip;
gunichar g_utf8_get_char(const gchar *p)
{ const unsigned char *s = (const unsigned char *)p; int n = u8skip[*s]; gunichar c = n == 1 ? *s : *s & (0xff >> (n + 1)); for (int i = 1; i < n; i++) c = c << 6 | (s[i] & 63); return c; }
gint g_unichar_to_utf8(gunichar c, gchar *o)
{
    if (c < 0x80) { if (o) o[0] = c; return 1; }
    if (c < 0x800) { if (o) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); } return 2; }
    if (c < 0x10000) { if (o) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); } return 3; }
    if (o) { o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); } return 4;
}
glong g_utf8_strlen(const gchar *p, gssize max) { glong n = 0; const gchar *e = max < 0 ? NULL : p + max; while ((!e || p < e) && *p) { p += u8skip[(unsigned char)*p]; if (e && p > e) break; n++; } return n; }
struct marray { gchar *data; guint len; guint esz, cap; };
GArray *g_array_new(gboolean z, gboolean c, guint esz) { struct marray *a = calloc(1, sizeof *a); a->esz = esz; return (GArray *)a; }
GArray *g_array_append_vals(GArray *ga, gconstpointer v, guint n)
{
    struct marray *a = (struct marray *)ga;
    if (a->len + n > a->cap) { a->cap = (a->len + n) * 2; a->data = realloc(a->data, a->cap * a->esz); }
    memcpy(a->data + a->len * a->esz, v, n * a->esz); a->len += n;
    return ga;
}
gchar *(g_array_free)(GArray *ga, gboolean fs) { struct marray *a = (struct marray *)ga; char *d = a->data; free(a); if (fs) { free(d); return NULL; } return d; }
gpointer (g_array_steal)(GArray *ga, gsize *len) { struct marray *a = (struct marray *)ga; char *d = a->data; if (len) *len = a->len; a->data = NULL; a->len = a->cap = 0; return d; }
void (g_array_unref)(GArray *ga) { (g_array_free)(ga, TRUE); }
gboolean g_error_matches(const GError *e, GQuark d, gint c) { return e && e->domain == d && e->code == c; }
GQuark g_quark_from_string(const gchar *s) { return g_quark_from_static_string(s); }
/* A hash table as a list: the order of its entries is not specified, this one is insertion order. */
struct hent { gpointer k, v; struct hent *next; };
struct _GHashTable { GEqualFunc eq; GDestroyNotify kd, vd; struct hent *first; guint n; int refs; };
guint g_str_hash(gconstpointer s) { if (!s) msym_fatal("g_str_hash(NULL)"); return 0; }
guint g_direct_hash(gconstpointer s) { return 0; }
gboolean g_direct_equal(gconstpointer a, gconstpointer b) { return a == b; }
GHashTable *g_hash_table_new_full(GHashFunc h, GEqualFunc eq, GDestroyNotify kd, GDestroyNotify vd)
{ GHashTable *t = calloc(1, sizeof *t); t->eq = eq ? eq : g_direct_equal; t->kd = kd; t->vd = vd; t->refs = 1; return t; }
GHashTable *g_hash_table_new(GHashFunc h, GEqualFunc eq) { return g_hash_table_new_full(h, eq, NULL, NULL); }
int model_hash_order;    /* 1: entries are walked latest first */
static struct hent *hfind(GHashTable *t, gconstpointer k) { struct hent *e = t->first; while (e && !t->eq(e->k, k)) e = e->next; return e; }
static gboolean hput(GHashTable *t, gpointer k, gpointer v, int newkey)
{
    struct hent *e = hfind(t, k), **p;
    if (e) { if (t->vd) t->vd(e->v); e->v = v; if (newkey) { if (t->kd) t->kd(e->k); e->k = k; } else if (t->kd) t->kd(k); return FALSE; }
    e = calloc(1, sizeof *e); e->k = k; e->v = v; p = &t->first; if (!model_hash_order) while (*p) p = &(*p)->next; e->next = *p; *p = e; t->n++; return TRUE;
}
gboolean g_hash_table_insert(GHashTable *t, gpointer k, gpointer v) { if (t->eq == (GEqualFunc)(g_str_equal) && !k) msym_fatal("g_str_hash(NULL)"); return hput(t, k, v, 0); }
gboolean g_hash_table_replace(GHashTable *t, gpointer k, gpointer v) { return hput(t, k, v, 1); }
gboolean g_hash_table_add(GHashTable *t, gpointer k) { return hput(t, k, k, 1); }
gpointer g_hash_table_lookup(GHashTable *t, gconstpointer k) { if (!k && t->eq == (GEqualFunc)(g_str_equal)) msym_fatal("g_str_hash(NULL)"); struct hent *e = hfind(t, k); return e ? e->v : NULL; }
gboolean g_hash_table_contains(GHashTable *t, gconstpointer k) { if (!k && t->eq == (GEqualFunc)(g_str_equal)) msym_fatal("g_str_hash(NULL)"); return hfind(t, k) != NULL; }
guint g_hash_table_size(GHashTable *t) { return t->n; }
gboolean g_hash_table_remove(GHashTable *t, gconstpointer k)
{ for (struct hent **p = &t->first, *e; (e = *p); p = &e->next) if (t->eq(e->k, k)) { *p = e->next; if (t->kd) t->kd(e->k); if (t->vd) t->vd(e->v); free(e); t->n--; return TRUE; } return FALSE; }
GHashTable *g_hash_table_ref(GHashTable *t) { t->refs++; return t; }
void g_hash_table_unref(GHashTable *t)
{ if (--t->refs) return; for (struct hent *e = t->first, *n; e; e = n) { n = e->next; if (t->kd) t->kd(e->k); if (t->vd) t->vd(e->v); free(e); } free(t); }
void g_hash_table_iter_init(GHashTableIter *i, GHashTable *t) { i->dummy1 = t; i->dummy2 = t->first; }
gboolean g_hash_table_iter_next(GHashTableIter *i, gpointer *k, gpointer *v) { struct hent *e = i->dummy2; if (!e) return FALSE; if (k) *k = e->k; if (v) *v = e->v; i->dummy2 = e->next; return TRUE; }
GList *g_hash_table_get_values(GHashTable *t) { GList *l = NULL; for (struct hent *e = t->first; e; e = e->next) l = g_list_prepend(l, e->v); return g_list_reverse(l); }
GList *g_hash_table_get_keys(GHashTable *t) { GList *l = NULL; for (struct hent *e = t->first; e; e = e->next) l = g_list_prepend(l, e->k); return g_list_reverse(l); }
gboolean g_hash_table_lookup_extended(GHashTable *t, gconstpointer k, gpointer *ok, gpointer *v) { struct hent *e = hfind(t, k); if (!e) return FALSE; if (ok) *ok = e->k; if (v) *v = e->v; return TRUE; }
GList *g_list_sort(GList *l, GCompareFunc cmp)
{
    GList *out = NULL;
    while (l) {
        GList *n = l->next, *a = NULL, *b = out; while (b && cmp(b->data, l->data) <= 0) { a = b; b = b->next; }
        l->prev = a; l->next = b; if (a) a->next = l; else out = l; if (b) b->prev = l; l = n;
    }
    return out;
}
gchar *g_utf8_strdown(const gchar *s, gssize n) { return g_ascii_strdown(s, n); }
void g_hash_table_destroy(GHashTable *t) { g_hash_table_unref(t); }
gpointer g_slice_alloc(gsize n) { return malloc(n); }
gpointer g_slice_alloc0(gsize n) { return calloc(1, n); }
void g_slice_free1(gsize n, gpointer p) { free(p); }
void (g_atomic_int_inc)(volatile gint *p) { ++*p; }
gboolean (g_atomic_int_dec_and_test)(volatile gint *p) { return --*p == 0; }
gchar *g_utf8_strup(const gchar *s, gssize n) { return g_ascii_strup(s, n); }     /* of ASCII text */
const gchar *g_quark_to_string(GQuark q) { return q ? quarks[q - 1] : NULL; }
const guint16 g_ascii_table_data[256] = {
#define R4(x) x,x,x,x
#define R16(x) R4(x),R4(x),R4(x),R4(x)
    4,4,4,4,4,4,4,4,4,0x104,0x104,4,0x104,0x104,4,4, R16(4),
    0x140,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0, 0x459,0x459,0x459,0x459,0x459,0x459,0x459,0x459,0x459,0x459,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,
    0xd0,0x653,0x653,0x653,0x653,0x653,0x653,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253, 0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0xd0,0xd0,0xd0,0xd0,0xd0,
    0xd0,0x473,0x473,0x473,0x473,0x473,0x473,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73, 0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0xd0,0xd0,0xd0,0xd0,4 };
const guint16 *const g_ascii_table = g_ascii_table_data;
#endif

gboolean g_path_is_absolute(const gchar *n) { return n[0] == '/'; }
gchar *g_path_get_basename(const gchar *n) { const char *e = strrchr(n, '/'); return g_strdup(e ? e + 1 : n); }
GQuark g_io_error_quark(void) { return g_quark_from_string("g-io-error-quark"); }
guint32 g_random_int(void) { return 4; }
/* a hash of its own, for texts the harnesses give: only that equal texts hash equal and the others differ is relied on */
gchar *g_compute_checksum_for_string(GChecksumType t, const gchar *s, gssize n)
{
    static const char hex[] = "0123456789abcdef"; char *o = malloc(41); guint32 h = 2166136261u; size_t l = n < 0 ? strlen(s) : (size_t)n;
    for (int w = 0; w < 5; w++) { for (size_t i = 0; i < l; i++) h = (h ^ (unsigned char)s[i]) * 16777619u; for (int k = 0; k < 8; k++) o[w * 8 + k] = hex[h >> (4 * k) & 15]; h += w + 1; }
    o[40] = 0; return o;
}
struct _GChecksum { guint32 h; };
GChecksum *g_checksum_new(GChecksumType t) { GChecksum *c = malloc(sizeof *c); c->h = 2166136261u; return c; }
void g_checksum_update(GChecksum *c, const guchar *d, gssize n) { for (gssize i = 0; i < n; i++) c->h = (c->h ^ d[i]) * 16777619u; }
void g_checksum_get_digest(GChecksum *c, guint8 *b, gsize *n) { guint32 h = c->h; for (gsize i = 0; i < *n; i++) { b[i] = h >> 24; h = h * 16777619u + 1; } }
void g_checksum_free(GChecksum *c) { free(c); }
