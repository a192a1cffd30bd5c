// Importing any table file is safe and all-or-nothing.
//@ run h_bytes engine=msym lib=all workers=8 timeout=800 defs=-DNB=5 tier=thorough name=h_bytes5 covers="every file of 0..5 arbitrary bytes: refused, nothing read outside it, nothing changes"
//@ run h_bytes engine=msym lib=all workers=6 timeout=300 tier=quick covers="every file of 0..4 arbitrary bytes: refused, nothing read outside it, nothing changes"
//@ run h_hole engine=msym lib=all workers=8 timeout=500 defs=-DNH=1 tier=quick covers="a file of a table of 3 columns and 2 rows, for a new or an existing table, and a summary information file, with any one field replaced by 0..1 arbitrary bytes, the rest following or cut off: imported or refused; refused leaves every table, row and column as it was; the database stays usable and can be stored"
//@ run h_hole engine=msym lib=all workers=8 timeout=850 defs=-DNH=2 tier=thorough name=h_hole2 covers="the same with 0..2 arbitrary bytes"
//@ run h_types engine=msym lib=all workers=6 timeout=300 covers="a column of any type letter and a width of 0..3 or 36 digits with one of any character, with a name of 1, 31 or 200 characters: the table is made exactly if type and width are those of the format, otherwise nothing changes"
//@ run h_rows engine=msym lib=all workers=6 timeout=400 covers="two rows of any values imported into an existing table with two rows, columns in either order, keys equal or not, numbers of any digits in and out of the range of the column, missing values: on success exactly the rows of the file, otherwise exactly the rows from before"
//@ run h_new engine=msym lib=all workers=6 timeout=300 covers="new tables of 2 or 3 columns with the key in any column, rows of any values, line ends LF or CR LF, with and without a last one: columns, key and values as in the file; imported again: the same"
#include "db.h"
#ifndef NB
#define NB 4
#endif
#ifndef NH
#define NH 1
#endif
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static gboolean import(LibmsiDatabase *db, const char *d, unsigned n)
{
    env_put("/f", env_mem_file(d, n)); GError *e = NULL; gboolean b = libmsi_database_import(db, "/f", &e); CHECK(b == (e == NULL), "libmsi_database_import reports failure exactly through its GError"); g_clear_error(&e); return b;
}
typedef struct { Cell k[2], s[2]; } V;
static LibmsiDatabase *base(V *v)
{
    LibmsiDatabase *db = db_create("/a.msi"); must(db, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8), `n` LONG PRIMARY KEY `k`)");
    for (int i = 0; i < 2; i++) { v->k[i] = c_int(i * 2 + 1); v->s[i] = c_str(i ? "p" : "q"); Cell c[3] = { v->k[i], v->s[i], c_null() }; CHECK(exr(db, "INSERT INTO `t` (`k`,`s`,`n`) VALUES (?,?,?)", 3, c), "insert"); }
    return db;
}
static void t_rows(LibmsiDatabase *db, V *v)
{ Cell w[6] = { v->k[0], v->s[0], c_null(), v->k[1], v->s[1], c_null() }; CHECK(rows_are(db, "SELECT `k`,`s`,`n` FROM `t`", NULL, 2, 3, w), "the table keeps its rows"); }
static void unchanged(LibmsiDatabase *db, V *v)
{
    Cell c[9] = { c_str("t"), c_int(1), c_str("k"), c_str("t"), c_int(2), c_str("s"), c_str("t"), c_int(3), c_str("n") }, t[1] = { c_str("t") };
    CHECK(rows_are(db, "SELECT * FROM `_Tables`", NULL, 1, 1, t), "exactly the tables"); CHECK(rows_are_set(db, "SELECT `Table`,`Number`,`Name` FROM `_Columns`", NULL, 3, 3, c), "exactly the columns"); t_rows(db, v);
}
static void usable(LibmsiDatabase *db)
{ must(db, "CREATE TABLE `zzzz` (`a` INT NOT NULL PRIMARY KEY `a`)"); must(db, "INSERT INTO `zzzz` (`a`) VALUES (5)"); CHECK(n_rows(db, "SELECT * FROM `zzzz`", NULL) == 1, "the database stays usable and can be stored"); }
void h_bytes(void)
{
    V v; unsigned n = sym_choose(NB + 1); char s[NB]; for (unsigned i = 0; i < n; i++) s[i] = sym_u8();
    LibmsiDatabase *db = base(&v); CHECK(!import(db, s, n), "no file of so few bytes is a table"); unchanged(db, &v); WITNESS_IF(n == NB, "refused"); g_object_unref(db);
}
static const char *const fl[] = {
    "k\ts\tn\r\ni2\tS8\tI4\r\nt\tk\r\n5\tab\t7\r\n6\t\t8\r\n", "a\tb\tc\ni2\tl4\tI2\nu\ta\tb\n5\tab\t-7\n6\tx\t\n",
    "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n2\tab\r\n14\t7\r\n12\t2020/01/02 03:04:05\r\n", "\r\n\r\n1252\t_ForceCodepage\r\n" };
static const int cnt[] = { 14, 15, 11, 4 };
static int sep(char c) { return c == '\t' || c == '\r' || c == '\n'; }
void h_hole(void)
{
    V v; unsigned k = sym_choose(4), t = sym_choose(cnt[k]), n = sym_choose(NH + 1), cut = n < 2 && sym_bool(), i; char s[160], *p = s; const char *q = fl[k];
    for (i = 0; i < t; q++) { if (sep(*q) && (k == 3 || q[1] != '\n')) i++; *p++ = *q; }
    int ascii = 1; for (i = 0; i < n; i++) { unsigned char c = sym_u8(); if (c > 127) ascii = 0; *p++ = c; } while (*q && !sep(*q)) q++;
    if (!cut) p = add(p, q);
    LibmsiDatabase *db = base(&v);
    if (!import(db, s, p - s)) { unchanged(db, &v); WITNESS_IF(n == NH, "refused"); }
    else { WITNESS_IF(n == NH && k < 2, "imported"); if (k > 1) t_rows(db, &v); }
    usable(db); int st = commit(db); CHECK(st || !ascii, "and can be stored"); g_object_unref(db); if (!st) return;
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "and opened"); CHECK(n_rows(db, "SELECT * FROM `zzzz`", NULL) == 1, "with what was added"); g_object_unref(db);
}
void h_types(void)
{
    V v; char s[400], *p = s, *y, nm[204]; unsigned m = sym_choose(3), i, w = 0, dig = 1, len; static const unsigned nl[3] = { 1, 31, 200 };
    for (i = 0; i < nl[m]; i++) nm[i] = 'a' + i % 26; nm[i] = 0;
    p = add(add(p, "k\t"), nm); p = add(p, "\ni2\t"); char c = sym_u8(); ASSUME(c != '\t' && c != '\r' && c != '\n' && c); *p++ = c; y = p; len = sym_choose(5);
    if (len < 4) for (unsigned any = len ? sym_choose(len) : 0, i = 0; i < len; i++) { char d = i ? '5' : '2'; if (i == any) { d = sym_u8(); ASSUME(d > ' ' && d < 127); } *p++ = d; if (d < '0' || d > '9') dig = 0; else w = w * 10 + (d - '0'); }
    else { len = 36; for (i = 0; i < len; i++) *p++ = '0' + (i == len - 1); char d = sym_u8(); ASSUME(d > ' ' && d < 127); y[sym_choose(2) * 30] = d; if (d < '0' || d > '9') dig = 0; else w = d == '0' ? 1 : 100000; }
    p = add(p, "\nu\tk\n7\t\n");
    int str = c == 's' || c == 'S' || c == 'l' || c == 'L', in = c == 'i' || c == 'I', obj = c == 'v' || c == 'V', ok = dig && ((str && len && w <= 255) || (in && (w <= 2 || w == 4)) || obj);
    int nn = c >= 'a' && !obj;
    LibmsiDatabase *db = base(&v); gboolean b = import(db, s, p - s);
    if (!ok || nn) { CHECK(!b || !nn, "a row without a needed value is refused"); CHECK(!b, "a type outside the format is refused"); unchanged(db, &v); WITNESS_IF(nn && ok, "missing value"); WITNESS_IF(!dig, "refused"); }
    else {
        CHECK(b, "a type of the format is accepted"); Cell x[2] = { c_int(7), c_null() }; CHECK(rows_are(db, "SELECT * FROM `u`", NULL, 1, 2, x), "with its row"); t_rows(db, &v); WITNESS("made");
        LibmsiQuery *q = q_new(db, "SELECT * FROM `u`"); GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_NAMES, &e); CHECK(r && !e, "column names"); gchar *g = libmsi_record_get_string(r, 2); CHECK(!strcmp(g, nm), "the column has its name"); g_free(g); g_object_unref(r);
        r = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, &e); CHECK(r && !e, "column types"); g = libmsi_record_get_string(r, 2); CHECK(g[0] == c, "and its type"); g_free(g); g_object_unref(r); g_object_unref(q);
    }
    usable(db); g_object_unref(db);
}
/* a number of the file: text and value; kind 1 number, 0 empty, 2 not a number of the column */
static char *num(char *p, Cell *c, int *bad, int wide)
{
    int m = sym_choose(wide ? 4 : 5); char d[3]; *bad = 0;
    if (m == 0) { *c = c_null(); *p = 0; return p; }
    if (m == 1) { sym_text(d, 1, '0', '9'); *c = c_int(d[0] - '0'); return add(p, d); }
    if (m == 2) { sym_text(d, 1, '0', '9'); *c = c_int(-(d[0] - '0')); *p++ = '-'; return add(p, d); }
    if (m == 3) { char x = sym_u8(); ASSUME(x > ' ' && x < 127 && (x < '0' || x > '9')); *bad = 1; *p++ = '1'; *p++ = x; *p = 0; return p; }
    sym_text(d, 2, '0', '9'); int v = 32700 + (d[0] - '0') * 10 + (d[1] - '0'); *c = c_int(v); *bad = v > 32767; return add(add(p, "327"), d);
}
void h_rows(void)
{
    V v; char s[200], *p; Cell k[2], n[2], w[6]; int swap = sym_bool(), bad[2], bn = 0, rows = 1 + sym_bool(), i;
    p = add(s, swap ? "n\tk\ts\nI4\ti2\tS8\nt\tk\n" : "k\ts\tn\ni2\tS8\tI4\nt\tk\n");
    for (i = 0; i < rows; i++) {
        char a[16], b[16], x[2]; int o = 0; b[0] = 0; n[i] = c_null(); sym_text(x, 1, 'a', 'z');
        if (i) { int m = sym_choose(4); if (m == 3) { k[1] = c_int(7); add(a, "7"); bad[1] = 0; } else { k[1] = k[0]; bad[1] = m == 0 ? 1 : 0; if (m == 0) { add(a, "x"); } else if (m == 1) { k[1] = c_int(5); add(a, "+5"); } else { k[1] = c_null(); a[0] = 0; } } }
        else { num(a, &k[0], &bad[0], 0); num(b, &n[0], &o, 1); }
        bn |= o | bad[i] | (k[i].kind == 0);
        if (swap) { p = add(add(p, b), "\t"); p = add(add(p, a), "\t"); p = add(add(p, x), "\n"); } else { p = add(add(p, a), "\t"); p = add(add(p, x), "\t"); p = add(add(p, b), "\n"); }
        w[3 * i] = k[i]; w[3 * i + 1] = c_str(x); w[3 * i + 2] = n[i];
    }
    int ok = !bn && !(rows == 2 && cell_eq(k[0], k[1]));
    LibmsiDatabase *db = base(&v); gboolean b = import(db, s, p - s); CHECK(b == ok, "accepted exactly if every row fits and no key repeats");
    if (!ok) { unchanged(db, &v); WITNESS_IF(!bn, "repeated key"); WITNESS_IF(bad[0], "no number"); }
    else { CHECK(rows_are_set(db, "SELECT `k`,`s`,`n` FROM `t`", NULL, rows, 3, w), "exactly the rows of the file"); WITNESS_IF(rows == 2, "imported"); }
    CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens");
    if (!ok) unchanged(db, &v); else CHECK(rows_are_set(db, "SELECT `k`,`s`,`n` FROM `t`", NULL, rows, 3, w), "also on disk"); g_object_unref(db);
}
void h_new(void)
{
    V v; static const char *const nm[3] = { "a", "b", "c" }, *const ty[3] = { "i2", "S4", "I4" }; unsigned nc = 2 + sym_bool(), key = sym_choose(nc), crlf = sym_bool(), last = sym_bool(), rows = sym_choose(3), i, j; char s[200], *p = s; const char *nl = crlf ? "\r\n" : "\n"; Cell w[6];
    for (i = 0; i < nc; i++) { p = add(p, nm[i]); p = add(p, i + 1 < nc ? "\t" : nl); }
    for (i = 0; i < nc; i++) { p = add(p, ty[i]); p = add(p, i + 1 < nc ? "\t" : nl); }
    p = add(add(p, "u\t"), nm[key]); if (rows || last) p = add(p, nl);
    for (j = 0; j < rows; j++) for (i = 0; i < nc; i++) {
        char x[4]; Cell *c = &w[j * nc + i];
        if (i == key && j) { add(x, i == 1 ? "zz" : "99"); *c = i == 1 ? c_str(x) : c_int(99); }
        else if (i == 1) { unsigned l = i == key ? 2 : sym_choose(3); sym_text(x, l, 'a', 'y'); *c = c_str(x); }
        else if (i == 0 || i == key) { sym_text(x, 1, '0', '9'); *c = c_int(x[0] - '0'); }
        else { x[0] = 0; *c = c_null(); }
        p = add(p, x); p = add(p, i + 1 < nc ? "\t" : j + 1 < rows || last ? nl : "");
    }
    LibmsiDatabase *db = base(&v);
    for (int k = 0; k < 2; k++) {
        CHECK(import(db, s, p - s), "a well-formed file is accepted"); CHECK(rows_are_set(db, nc == 2 ? "SELECT `a`,`b` FROM `u`" : "SELECT `a`,`b`,`c` FROM `u`", NULL, rows, nc, w), "with exactly its rows");
        GError *e = NULL; LibmsiRecord *r = libmsi_database_get_primary_keys(db, "u", &e); CHECK(r && !e && libmsi_record_get_field_count(r) == 1 && rec_is(r, 1, c_str(nm[key])), "and its key"); g_object_unref(r); t_rows(db, &v);
        if (k) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", 0); CHECK(db != NULL, "opens"); }
    }
    CHECK(rows_are_set(db, nc == 2 ? "SELECT `a`,`b` FROM `u`" : "SELECT `a`,`b`,`c` FROM `u`", NULL, rows, nc, w), "also on disk"); WITNESS_IF(rows == 2, "imported"); g_object_unref(db);
}
