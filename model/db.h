/* Helpers over libmsi's public API, shared by the whole-library harnesses. */
#ifndef DB_H
#define DB_H
#include "env.h"
#include <libmsi.h>

static LibmsiDatabase *db_create(const char *path)
{ GError *e = NULL; LibmsiDatabase *d = libmsi_database_new(path, LIBMSI_DB_FLAGS_CREATE, NULL, &e); CHECK(d != NULL && !e, "a new database can be created"); return d; }
static LibmsiDatabase *db_open(const char *path, unsigned flags)
{ GError *e = NULL; LibmsiDatabase *d = libmsi_database_new(path, flags, NULL, &e); if (e) { CHECK(!d, "an error comes without a database"); g_error_free(e); } else CHECK(d != NULL, "failure to open is reported"); return d; }
static LibmsiQuery *q_try(LibmsiDatabase *db, const char *sql)
{ GError *e = NULL; LibmsiQuery *q = libmsi_query_new(db, sql, &e); CHECK((q != NULL) == (e == NULL), "libmsi_query_new reports failure exactly through its GError"); if (e) g_error_free(e); return q; }
static LibmsiQuery *q_new(LibmsiDatabase *db, const char *sql)
{ LibmsiQuery *q = q_try(db, sql); CHECK(q != NULL, "a valid statement is accepted"); return q; }
static gboolean q_exec(LibmsiQuery *q, LibmsiRecord *r)
{ GError *e = NULL; gboolean b = libmsi_query_execute(q, r, &e); CHECK(b == (e == NULL), "libmsi_query_execute reports failure exactly through its GError"); if (e) g_error_free(e); return b; }
/* parse + execute; 0 if either fails */
static gboolean ex(LibmsiDatabase *db, const char *sql, LibmsiRecord *r)
{ LibmsiQuery *q = q_try(db, sql); if (!q) return FALSE; gboolean b = q_exec(q, r); g_object_unref(q); return b; }
static void must(LibmsiDatabase *db, const char *sql) { CHECK(ex(db, sql, NULL), "a valid statement executes"); }
static gboolean commit(LibmsiDatabase *db)
{ GError *e = NULL; gboolean b = libmsi_database_commit(db, &e); CHECK(b == (e == NULL), "libmsi_database_commit reports failure exactly through its GError"); if (e) g_error_free(e); return b; }

/* A cell of a harness's own expectation: a null, an integer or a string. */
typedef struct { int kind; int i; char s[8]; } Cell;       /* kind 0 null, 1 int, 2 string */
static Cell c_null(void) { Cell c = { 0 }; return c; }
static Cell c_int(int i) { Cell c = { 1, i }; return c; }
static Cell c_str(const char *s) { Cell c = { 2, 0 }; int k = 0; for (; s[k] && k < 7; k++) c.s[k] = s[k]; c.s[k] = 0; if (!k) c.kind = 0; return c; }
static void rec_set(LibmsiRecord *r, unsigned f, Cell c)
{ if (c.kind == 1) CHECK(libmsi_record_set_int(r, f, c.i), "set_int"); else if (c.kind == 2) CHECK(libmsi_record_set_string(r, f, c.s), "set_string"); }
static LibmsiRecord *rec_of(unsigned n, const Cell *c)
{ LibmsiRecord *r = libmsi_record_new(n); for (unsigned i = 0; i < n; i++) rec_set(r, i + 1, c[i]); return r; }
static int rec_is(LibmsiRecord *r, unsigned f, Cell c)
{
    if (c.kind == 0) return libmsi_record_is_null(r, f);
    if (libmsi_record_is_null(r, f)) return 0;
    if (c.kind == 1) return libmsi_record_get_int(r, f) == c.i;
    gchar *s = libmsi_record_get_string(r, f); int same = s && strcmp(s, c.s) == 0; g_free(s); return same;
}
static int cell_eq(Cell a, Cell b) { return a.kind == b.kind && (a.kind == 0 || (a.kind == 1 ? a.i == b.i : strcmp(a.s, b.s) == 0)); }
/* run SQL with n parameters */
static gboolean exr(LibmsiDatabase *db, const char *sql, unsigned n, const Cell *c)
{ LibmsiRecord *r = n ? rec_of(n, c) : NULL; gboolean b = ex(db, sql, r); if (r) g_object_unref(r); return b; }
/* the rows SQL returns equal want[nrow][ncol] in order */
static int rows_are(LibmsiDatabase *db, const char *sql, LibmsiRecord *par, unsigned nrow, unsigned ncol, const Cell *want)
{
    LibmsiQuery *q = q_new(db, sql); LibmsiRecord *r; GError *e = NULL; unsigned n = 0; int ok = 1;
    CHECK(q_exec(q, par), "a valid query executes");
    while ((r = libmsi_query_fetch(q, &e))) {
        if (n >= nrow || libmsi_record_get_field_count(r) != ncol) { ok = 0; g_object_unref(r); break; }
        for (unsigned i = 0; i < ncol; i++) if (!rec_is(r, i + 1, want[n * ncol + i])) ok = 0;
        n++; g_object_unref(r);
    }
    CHECK(!e, "the end of the rows is not an error");
    g_object_unref(q);
    return ok && n == nrow;
}
/* same, rows in any order */
static int rows_are_set(LibmsiDatabase *db, const char *sql, LibmsiRecord *par, unsigned nrow, unsigned ncol, const Cell *want)
{
    LibmsiQuery *q = q_new(db, sql); LibmsiRecord *r; GError *e = NULL; unsigned n = 0; int ok = 1; char used[16] = { 0 };
    CHECK(q_exec(q, par), "a valid query executes");
    while (ok && (r = libmsi_query_fetch(q, &e))) {
        int found = 0;
        if (n >= nrow || libmsi_record_get_field_count(r) != ncol) ok = 0;
        for (unsigned k = 0; ok && !found && k < nrow; k++) {
            int same = !used[k];
            for (unsigned i = 0; same && i < ncol; i++) if (!rec_is(r, i + 1, want[k * ncol + i])) same = 0;
            if (same) { used[k] = 1; found = 1; }
        }
        ok = ok && found;
        n++; g_object_unref(r);
    }
    CHECK(!e, "the end of the rows is not an error");
    g_object_unref(q);
    return ok && n == nrow;
}
static int n_rows(LibmsiDatabase *db, const char *sql, LibmsiRecord *par)
{
    LibmsiQuery *q = q_new(db, sql); LibmsiRecord *r; GError *e = NULL; int n = 0;
    CHECK(q_exec(q, par), "a valid query executes");
    while ((r = libmsi_query_fetch(q, &e))) { n++; g_object_unref(r); if (n > 40) break; }
    CHECK(!e, "the end of the rows is not an error");
    g_object_unref(q); return n;
}
/* symbolic string of exactly n characters out of [lo,hi] */
static void sym_text(char *s, unsigned n, unsigned lo, unsigned hi) { for (unsigned i = 0; i < n; i++) { s[i] = sym_u8(); ASSUME((unsigned char)s[i] >= lo && (unsigned char)s[i] <= hi); } s[n] = 0; }
static Cell sym_int16(void) { int v = (int16_t)sym_u16(); ASSUME(v > -32768); return c_int(v); }
static Cell sym_int32(void) { int v = (int32_t)sym_u32(); ASSUME(v != (int)LIBMSI_NULL_INT); return c_int(v); }

/* Independent MSI stream-name encoding (the format's table-name form). */
static char *enc_name(const char *name, int table)
{
    static const char set[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._";
    unsigned n = strlen(name); char *o = malloc(3 * n + 4), *p = o;
    if (table) { *p++ = 0xe4; *p++ = 0xa1; *p++ = 0x80; }
    for (unsigned i = 0; i < n; i++) {
        const char *a = strchr(set, name[i]), *b = i + 1 < n ? strchr(set, name[i + 1]) : NULL;
        unsigned cp;
        if (!a) { *p++ = name[i]; continue; }
        if (b) { cp = 0x3800 + (a - set) + ((b - set) << 6); i++; } else cp = 0x4800 + (a - set);
        *p++ = 0xe0 | cp >> 12; *p++ = 0x80 | ((cp >> 6) & 63); *p++ = 0x80 | (cp & 63);
    }
    *p = 0;
    return o;
}
static Node *table_stream(const char *file, const char *table)
{ Node *f = env_file(file); if (!f) return NULL; char *e = enc_name(table, 1); Node *k = env_kid(f, e); free(e); return k; }

/* ---- Independent writer and reader of the database format ---------------- */
static const uint8_t msi_clsid[16] = { 0x84, 0x10, 0x0c, 0, 0, 0, 0, 0, 0xc0, 0, 0, 0, 0, 0, 0, 0x46 };
typedef struct { Node *root; uint8_t pool[256], sdata[256]; unsigned np, nd, nid, ref; uint8_t tabs[64]; unsigned nt; unsigned cid[4][16], ncol; } Fmt;
static void f16(uint8_t *p, unsigned v) { p[0] = v; p[1] = v >> 8; }
static unsigned u16(const uint8_t *p) { return p[0] | p[1] << 8; }
static Node *fmt_stream(Node *root, const char *name, int table, const void *d, unsigned len)
{ char *e = enc_name(name, table); Node *n = env_node(e, 0); free(e); env_data(n, d, len); env_add(root, n); return n; }
static void fmt_begin(Fmt *f, unsigned codepage, int ref)
{
    memset(f, 0, sizeof *f); f->root = env_node(NULL, 1); memcpy(f->root->clsid, msi_clsid, 16); f->ref = ref;
    f16(f->pool, codepage); f16(f->pool + 2, ref == 3 ? 0x8000 : 0); f->np = 4; f->nid = 1;
}
static unsigned fmt_str(Fmt *f, const char *s, unsigned refs)
{
    unsigned n = strlen(s); f16(f->pool + f->np, n); f16(f->pool + f->np + 2, refs); f->np += 4;
    memcpy(f->sdata + f->nd, s, n); f->nd += n; return f->nid++;
}
static uint8_t *fref(const Fmt *f, uint8_t *p, unsigned id) { f16(p, id); if (f->ref == 3) p[2] = id >> 16; return p + f->ref; }
/* names: table then columns; types: as stored.  Adds the rows of _Tables and _Columns. */
static void fmt_catalog(Fmt *f, unsigned ntab, const char *const *names, const unsigned *ncols, const char *const *cols, const unsigned *types)
{
    uint8_t tb[64], cb[256], *p = tb; unsigned ids[4], cid[24], n = 0, k, i;
    for (i = 0; i < ntab; i++) ids[i] = fmt_str(f, names[i], 1 + ncols[i]);
    for (i = 0; i < ntab; i++) for (k = 0; k < ncols[i]; k++, n++) cid[n] = fmt_str(f, cols[n], 1);
    for (i = 0; i < ntab; i++) p = fref(f, p, ids[i]);
    fmt_stream(f->root, "_Tables", 1, tb, p - tb);
    p = cb;
    for (i = 0; i < ntab; i++) for (k = 0; k < ncols[i]; k++) p = fref(f, p, ids[i]);
    for (i = 0; i < ntab; i++) for (k = 0; k < ncols[i]; k++) { f16(p, (k + 1) ^ 0x8000); p += 2; }
    for (i = 0; i < n; i++) p = fref(f, p, cid[i]);
    for (i = 0; i < n; i++) { f16(p, types[i] ^ 0x8000); p += 2; }
    fmt_stream(f->root, "_Columns", 1, cb, p - cb);
}
static void fmt_end(Fmt *f, const char *path)
{
    fmt_stream(f->root, "_StringPool", 1, f->pool, f->np);
    fmt_stream(f->root, "_StringData", 1, f->sdata, f->nd);
    env_put(path, f->root);
}
/* the string with a given id in a saved container; length in *n (-1: no such string) */
static const uint8_t *pool_str(Node *root, unsigned id, int *n, unsigned *refs)
{
    char *e = enc_name("_StringPool", 1); Node *p = env_kid(root, e); free(e);
    e = enc_name("_StringData", 1); Node *d = env_kid(root, e); free(e);
    unsigned k = 1, off = 0;
    *n = -1; *refs = 0;
    if (!p || !d) return NULL;
    for (unsigned i = 4; i + 4 <= p->len; i += 4, k++) {
        unsigned l = u16(p->data + i), r = u16(p->data + i + 2);
        if (l == 0 && r) { i += 4; if (i + 4 > p->len) return NULL; l = u16(p->data + i) | r << 16; r = u16(p->data + i + 2); }
        if (off + l > d->len) return NULL;
        if (k == id && (l || r)) { *n = l; *refs = r; return d->data + off; }
        off += l;
    }
    return NULL;
}
static unsigned pool_refsize(Node *root) { char *e = enc_name("_StringPool", 1); Node *p = env_kid(root, e); free(e); return p && p->len >= 4 && (p->data[3] & 0x80) ? 3 : 2; }
/* cell (row, column) of a saved table whose columns have the given types ('s' string, '2' short, '4' long); row count via *rows */
static Cell disk_cell(Node *root, const char *table, const char *types, unsigned row, unsigned col, unsigned *rows)
{
    unsigned ref = pool_refsize(root), rs = 0, off = 0, i; Cell c = { 0 };
    for (i = 0; types[i]; i++) rs += types[i] == 's' ? ref : types[i] - '0';
    char *e = enc_name(table, 1); Node *t = env_kid(root, e); free(e);
    if (!t) { *rows = 0; return c; }
    CHECK(t->len % rs == 0, "a saved table is a whole number of rows"); *rows = t->len / rs;
    if (row >= *rows) return c;
    for (i = 0; i < col; i++) off += (types[i] == 's' ? ref : types[i] - '0') * *rows;
    const uint8_t *p = t->data + off;
    if (types[col] == '2') { unsigned v = u16(p + 2 * row); return v ? c_int((int)v - 0x8000) : c; }
    if (types[col] == '4') { uint32_t v = u16(p + 4 * row) | (uint32_t)u16(p + 4 * row + 2) << 16; return v ? c_int((int)(v ^ 0x80000000u)) : c; }
    unsigned id = u16(p + ref * row) | (ref == 3 ? p[ref * row + 2] << 16 : 0);
    if (!id) return c;
    int n; unsigned refs; const uint8_t *s = pool_str(root, id, &n, &refs);
    CHECK(s && refs, "a saved string reference denotes a string of the pool");
    c.kind = 2; CHECK(n < 8, "string length"); memcpy(c.s, s, n); c.s[n] = 0;
    return c;
}
#endif
