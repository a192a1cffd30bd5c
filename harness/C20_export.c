// A table written to its text form and read back is the same table.
//@ run h_strings engine=msym lib=all workers=6 timeout=300 covers="2 rows of a key and two strings: keys and values of 0..2 characters with any one of them any character of 1..255 outside the 6 reserved ones, NULLs, plain or localizable: the same rows after export and import, before and after a commit, and what was exported again is the same text"
//@ run h_ints engine=msym lib=all workers=6 timeout=400 covers="2 rows of a SHORT key and a SHORT and LONG column, any 16-bit key, LONG values of 6 magnitudes with any last digit, NULLs: the same rows after export and import"
//@ run h_types engine=msym lib=all workers=6 timeout=300 covers="tables of a key and two columns of every type (7 CHAR widths of 0..255), NOT NULL or not, plain or LOCALIZABLE, or with 1..3 keys in any columns: the same column names, types, and keys after export and import"
//@ run h_object engine=msym lib=all workers=4 timeout=300 covers="2 rows with an OBJECT column, NULL or 0..3 arbitrary bytes each: the same bytes after export and import"
//@ run h_suminfo engine=msym lib=all workers=6 timeout=300 covers="summary information with two strings with any one character, an integer, or a time: the same after export and import"
//@ run h_fail engine=msym lib=all workers=6 timeout=300 covers="a table of up to 2 rows, with and without a stream, the summary information or the codepage, any one of the writes or the creation of a stream file failing: the export reports an error; without failure it does not; an unknown table is an error"
//@ run h_wide engine=msym lib=all workers=4 timeout=300 covers="tables of 31 and 32 columns, 1 or 3 rows, strings of 1..2500 characters: the same rows and text after export and import"
#include "db.h"
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static gboolean export(LibmsiDatabase *db, const char *t)
{ GError *e = NULL; env_out_len = 0; gboolean b = libmsi_database_export(db, t, env_out_fd, &e); CHECK(b || e, "a failed export has its GError"); CHECK(!b || !e, "a complete export has none"); g_clear_error(&e); return b; }
static gboolean import(LibmsiDatabase *db) { GError *e = NULL; gboolean b; env_put("/f", env_mem_file(env_out, env_out_len)); b = libmsi_database_import(db, "/f", &e); CHECK(b == !e, "import error"); g_clear_error(&e); return b; }
static LibmsiDatabase *reopen(LibmsiDatabase *db, const char *f) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open(f, LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens"); return db; }
static int reserved(unsigned char c) { return c == 0x10 || c == 0x11 || c == 0x15 || c == 0x18 || c == 0x19 || c == 0x1b; }
static char anychar(void) { unsigned char c = sym_u8(); ASSUME(c && !reserved(c) && c < 128); return c; }
static Cell any_str(int hole, int tag, int null)
{
    char s[4]; Cell c;
    if (!hole) { if (null && sym_bool()) return c_null(); s[0] = 'a' + tag; s[1] = 0; return c_str(s); }
    unsigned n = 1 + sym_choose(2), at = sym_choose(n); for (unsigned i = 0; i < n; i++) s[i] = i == at ? anychar() : 'p' + tag; s[n] = 0; c = c_str(s); return c;
}
static void same_text(LibmsiDatabase *b, const char *t)
{
    char *o = malloc(env_out_len + 1); size_t n = env_out_len; memcpy(o, env_out, n);
    CHECK(export(b, t), "the copy can be exported"); CHECK(env_out_len == n && !memcmp(o, env_out, n), "to the same text"); free(o);
}
void h_strings(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); Cell w[6]; unsigned rows = 1 + sym_bool(), hole = sym_choose(3 * rows);
    must(a, sym_bool() ? "CREATE TABLE `t` (`k` CHAR(8) NOT NULL, `s` CHAR(0) LOCALIZABLE, `u` CHAR(255) PRIMARY KEY `k`)" : "CREATE TABLE `t` (`k` CHAR(8) NOT NULL LOCALIZABLE, `s` LONGCHAR, `u` CHAR(1) PRIMARY KEY `k`)");
    for (unsigned i = 0; i < rows; i++) { for (unsigned j = 0; j < 3; j++) w[3 * i + j] = any_str(hole == 3 * i + j, i * 3 + j, j); ASSUME(!i || !cell_eq(w[0], w[3])); CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, w + 3 * i), "insert"); }
    CHECK(export(a, "t"), "a table can be exported"); CHECK(import(b), "and imported");
    CHECK(rows_are_set(b, "SELECT `k`,`s`,`u` FROM `t`", NULL, rows, 3, w), "with exactly its rows"); CHECK(rows_are_set(a, "SELECT `k`,`s`,`u` FROM `t`", NULL, rows, 3, w), "the original keeps them");
    same_text(b, "t"); b = reopen(b, "/b.msi"); CHECK(rows_are_set(b, "SELECT `k`,`s`,`u` FROM `t`", NULL, rows, 3, w), "also on disk"); WITNESS_IF(rows == 2, "copied"); g_object_unref(a); g_object_unref(b);
}
static Cell any_long(void)
{
    static const int base[6] = { 0, 10, 32760, 65530, 1000000, 2147483640 }; int k = sym_choose(7); if (k == 6) return c_null();
    int d = sym_u8(); ASSUME(d < (k == 5 ? 8 : 10)); d += base[k]; if (sym_bool()) d = -d; return c_int(d);
}
void h_ints(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); Cell w[6]; unsigned rows = 2, i;
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` INT, `u` LONG PRIMARY KEY `k`)");
    if (sym_bool()) { w[0] = sym_int16(); w[2] = c_int(2147483647); } else { w[0] = c_int(0); w[2] = any_long(); } w[1] = c_int(-32767); w[3] = c_int(32767); w[4] = c_null(); w[5] = c_int(-2147483647); if (rows == 2) ASSUME(w[0].i != w[3].i);
    for (i = 0; i < rows; i++) CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, w + 3 * i), "insert");
    CHECK(export(a, "t"), "a table can be exported"); CHECK(import(b), "and imported");
    CHECK(rows_are_set(b, "SELECT `k`,`s`,`u` FROM `t`", NULL, rows, 3, w), "with exactly its rows");
    b = reopen(b, "/b.msi"); CHECK(rows_are_set(b, "SELECT `k`,`s`,`u` FROM `t`", NULL, rows, 3, w), "also on disk"); WITNESS_IF(rows == 2, "copied"); g_object_unref(a); g_object_unref(b);
}
static LibmsiRecord *info(LibmsiDatabase *db, LibmsiColInfo i) { LibmsiQuery *q = q_new(db, "SELECT * FROM `t`"); GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, i, &e); CHECK(r && !e, "column info"); g_object_unref(q); return r; }
static LibmsiRecord *keys(LibmsiDatabase *db) { GError *e = NULL; LibmsiRecord *r = libmsi_database_get_primary_keys(db, "t", &e); CHECK(r && !e, "keys"); return r; }
static void same_rec(LibmsiRecord *a, LibmsiRecord *b, const char *what)
{
    unsigned n = libmsi_record_get_field_count(a); CHECK(n == libmsi_record_get_field_count(b), "as many columns");
    for (unsigned i = 1; i <= n; i++) { gchar *x = libmsi_record_get_string(a, i), *y = libmsi_record_get_string(b, i); CHECK(x && y && !strcmp(x, y), "the same names, types and keys"); g_free(x); g_free(y); }
    g_object_unref(a); g_object_unref(b);
}
void h_types(void)
{
    static const char *const ty[] = { "CHAR", "CHAR(", "LONGCHAR", "SHORT", "INT", "LONG", "OBJECT" }, *const nm[3] = { "k", "Ab c", "c_1" };
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); char s[200], *p = add(s, "CREATE TABLE `t` ("); int t[3], nn[3], mode = sym_bool(), nk = mode ? 1 + sym_choose(3) : 1, i;
    int one = mode ? 3 : sym_choose(3);
    for (i = 0; i < 3; i++) {
        t[i] = i == one ? sym_choose(i ? 7 : 6) : mode ? i * 2 : 3; nn[i] = mode || (i != one && i != 1) || sym_bool();
        *p++ = '`'; p = add(p, nm[i]); p = add(p, "` "); p = add(p, ty[t[i]]);
        if (t[i] == 1) { static const unsigned wd[] = { 0, 1, 10, 72, 99, 100, 255 }; unsigned w = wd[sym_choose(7)]; *p++ = '0' + w / 100; *p++ = '0' + w / 10 % 10; *p++ = '0' + w % 10; *p++ = ')'; *p = 0; }
        if (nn[i]) p = add(p, " NOT NULL"); if (t[i] < 3 && (i != one || sym_bool())) p = add(p, " LOCALIZABLE"); p = add(p, i < 2 ? ", " : " ");
    }
    int first = sym_choose(nk); p = add(p, "PRIMARY KEY "); for (i = 0; i < nk; i++) { *p++ = '`'; p = add(p, nm[(first + i) % nk]); p = add(p, i + 1 < nk ? "`, " : "`)"); }
    for (i = 0; i < nk; i++) ASSUME(t[i] != 6);
    must(a, s); LibmsiRecord *ca = info(a, LIBMSI_COL_INFO_NAMES), *ta = info(a, LIBMSI_COL_INFO_TYPES);
    CHECK(export(a, "t"), "a table can be exported"); CHECK(import(b), "and imported"); CHECK(n_rows(b, "SELECT * FROM `t`", NULL) == 0, "without rows");
    same_rec(ca, info(b, LIBMSI_COL_INFO_NAMES), ""); same_rec(ta, info(b, LIBMSI_COL_INFO_TYPES), ""); same_rec(keys(a), keys(b), "");
    b = reopen(b, "/b.msi"); same_rec(info(a, LIBMSI_COL_INFO_NAMES), info(b, LIBMSI_COL_INFO_NAMES), ""); same_rec(info(a, LIBMSI_COL_INFO_TYPES), info(b, LIBMSI_COL_INFO_TYPES), ""); same_rec(keys(a), keys(b), "");
    WITNESS("copied"); g_object_unref(a); g_object_unref(b);
}
void h_object(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); uint8_t d[2][3]; int len[2]; static const char *const key[2] = { "one", "two" };
    must(a, "CREATE TABLE `t` (`k` CHAR(8) NOT NULL, `d` OBJECT PRIMARY KEY `k`)");
    for (int i = 0; i < 2; i++) { LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, key[i]); len[i] = (int)sym_choose(5) - 1; if (len[i] >= 0) { sym_fill(d[i], len[i]); env_put("/d", env_mem_file(d[i], len[i])); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); } CHECK(ex(a, "INSERT INTO `t` (`k`,`d`) VALUES (?,?)", r), "insert"); g_object_unref(r); }
    if (sym_bool()) { CHECK(commit(a), "commit"); }
    CHECK(export(a, "t"), "a table can be exported"); CHECK(import(b), "and imported");
    for (int pass = 0; pass < 2; pass++) {
        for (int i = 0; i < 2; i++) {
            LibmsiQuery *q = q_new(b, i ? "SELECT `d` FROM `t` WHERE `k` = 'two'" : "SELECT `d` FROM `t` WHERE `k` = 'one'"); CHECK(q_exec(q, NULL), "query"); LibmsiRecord *r = libmsi_query_fetch(q, NULL); CHECK(r != NULL, "the row is there");
            CHECK(libmsi_record_is_null(r, 1) == (len[i] < 0), "NULL or not"); if (len[i] >= 0) { GInputStream *in = libmsi_record_get_stream(r, 1); uint8_t x[8]; gsize n = 9; CHECK(in && g_input_stream_read_all(in, x, 8, &n, NULL, NULL) && (int)n == len[i] && !memcmp(x, d[i], n), "the same bytes"); g_object_unref(in); }
            g_object_unref(r); g_object_unref(q);
        }
        if (!pass) b = reopen(b, "/b.msi");
    }
    WITNESS_IF(len[0] == 3 && len[1] < 0, "copied"); g_object_unref(a); g_object_unref(b);
}
void h_suminfo(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); GError *e = NULL; int kind = sym_choose(4), v = 0; char s[4] = "x"; uint64_t t = 0;
    LibmsiSummaryInfo *si = libmsi_summary_info_new(a, 8, &e); CHECK(si && !e, "summary");
    if (kind == 0) { unsigned n = 1 + sym_bool(); for (unsigned i = 0; i < n; i++) s[i] = i == n - 1 ? anychar() : 'q'; s[n] = 0; CHECK(libmsi_summary_info_set_string(si, 2, s, &e), "set"); }
    if (kind == 1) { static const int q[] = { 0, 5, 200, 65535, 2147483647 }; v = q[sym_choose(5)]; CHECK(libmsi_summary_info_set_int(si, 14, v, &e), "set"); }
    if (kind == 2) { static const uint64_t q[] = { 0, 1262304000, 1583020799 }; t = (q[sym_choose(3)] + 11644473600ULL) * 10000000ULL; CHECK(libmsi_summary_info_set_filetime(si, 12, t, &e), "set"); }
    CHECK(libmsi_summary_info_set_string(si, 9, "{12}", &e), "set"); CHECK(libmsi_summary_info_persist(si, &e) && !e, "persist"); g_object_unref(si); CHECK(commit(a), "commit");
    CHECK(export(a, "_SummaryInformation"), "the summary can be exported"); CHECK(import(b), "and imported"); b = reopen(b, "/b.msi");
    si = libmsi_summary_info_new(b, 0, &e); CHECK(si && !e, "summary"); CHECK(!strcmp(libmsi_summary_info_get_string(si, 9, NULL), "{12}"), "the same revision");
    if (kind == 0) { const char *g = libmsi_summary_info_get_string(si, 2, NULL); CHECK(g && !strcmp(g, s), "the same string"); } else CHECK(libmsi_summary_info_get_property_type(si, 2, NULL) == 0, "nothing else");
    if (kind == 1) CHECK(libmsi_summary_info_get_property_type(si, 14, NULL) == LIBMSI_PROPERTY_TYPE_INT && libmsi_summary_info_get_int(si, 14, NULL) == v, "the same number"); else CHECK(libmsi_summary_info_get_property_type(si, 14, NULL) == 0, "nothing else");
    if (kind == 2) CHECK(libmsi_summary_info_get_filetime(si, 12, NULL) == t, "the same time"); else CHECK(libmsi_summary_info_get_property_type(si, 12, NULL) == 0, "nothing else");
    WITNESS_IF(kind == 2, "copied"); g_object_unref(si); g_object_unref(a); g_object_unref(b);
}
static int nth, hit;
static int fails(int op, const char *w) { if (op != OP_FD_WRITE && op != OP_OPEN_WRITE) return 0; if (nth-- == 0) { hit = 1; return 1; } return 0; }
void h_fail(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); uint8_t d[2]; int what = sym_choose(5), rows = sym_choose(3); GError *e = NULL;
    must(a, what == 1 ? "CREATE TABLE `t` (`k` CHAR(8) NOT NULL, `d` OBJECT PRIMARY KEY `k`)" : "CREATE TABLE `t` (`k` CHAR(8) NOT NULL, `d` CHAR(9) PRIMARY KEY `k`)");
    for (int i = 0; i < rows; i++) { LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, i ? "a" : "b"); if (what == 1) { sym_fill(d, 2); env_put("/d", env_mem_file(d, 2)); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); } else libmsi_record_set_string(r, 2, "x"); CHECK(ex(a, "INSERT INTO `t` (`k`,`d`) VALUES (?,?)", r), "insert"); g_object_unref(r); }
    LibmsiSummaryInfo *si = libmsi_summary_info_new(a, 8, &e); CHECK(libmsi_summary_info_set_string(si, 9, "{12}", &e) && libmsi_summary_info_set_int(si, 14, 7, &e) && libmsi_summary_info_persist(si, &e), "persist"); g_object_unref(si); CHECK(commit(a), "commit");
    nth = sym_choose(26) - 1; hit = 0; env_fail = fails; gboolean b = export(a, what < 2 ? "t" : what == 2 ? "_SummaryInformation" : what == 3 ? "_ForceCodepage" : "none"); env_fail = NULL;
    if (what == 4) { CHECK(!b, "an unknown table is an error"); CHECK(env_out_len == 0, "and nothing is written"); }
    else CHECK(b == !hit, "an export reports success exactly if everything was written");
    WITNESS_IF(hit && what == 1 && rows == 2, "failed"); WITNESS_IF(b, "written"); g_object_unref(a);
}

static char *colname(char *p, int i) { *p++ = '`'; *p++ = 'c'; *p++ = '0' + i / 10; *p++ = '0' + i % 10; *p++ = '`'; *p = 0; return p; }
void h_wide(void)
{
    static const unsigned ls[4] = { 1, 255, 1024, 2500 }; int n = 31 + sym_bool(), rows = sym_bool() ? 3 : 1; unsigned len = ls[sym_choose(4)]; char sql[1200], *p, *l = malloc(len + 1); Cell v = sym_bool() ? n & 1 ? c_int(-7) : c_str("-7") : c_null();
    memset(l, 'q', len); l[len] = 0; l[len - 1] = sym_u8(); ASSUME(l[len - 1] >= ' ' && l[len - 1] < 127);
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi");
    p = add(sql, "CREATE TABLE `t` ("); for (int i = 0; i < n; i++) { if (i) p = add(p, ", "); p = add(colname(p, i), i == 5 ? " LONGCHAR" : i % 2 ? " CHAR(9)" : " LONG"); if (!i) p = add(p, " NOT NULL"); } add(p, " PRIMARY KEY `c00`)"); must(a, sql);
    p = add(sql, "INSERT INTO `t` ("); for (int i = 0; i < n; i++) { if (i) p = add(p, ","); p = colname(p, i); } p = add(p, ") VALUES ("); for (int i = 0; i < n; i++) p = add(p, i ? ",?" : "?"); add(p, ")");
    for (int r = 0; r < rows; r++) { LibmsiRecord *rec = libmsi_record_new(n); for (int i = 0; i < n; i++) if (i == 5) libmsi_record_set_string(rec, 6, l); else rec_set(rec, i + 1, i == 0 ? c_int(r) : i == n - 1 ? v : i % 2 ? c_str(i == 7 ? "" : "x") : c_int(i)); CHECK(ex(a, sql, rec), "insert"); g_object_unref(rec); }
    CHECK(export(a, "t"), "a table can be exported"); CHECK(import(b), "and imported");
    LibmsiQuery *q = q_new(b, "SELECT * FROM `t`"); CHECK(q_exec(q, NULL), "select");
    for (int r = 0; r < rows; r++) {
        LibmsiRecord *rec = libmsi_query_fetch(q, NULL); CHECK(rec && libmsi_record_get_field_count(rec) == n, "every row and column");
        for (int i = 0; i < n; i++) if (i == 5) { gchar *s = libmsi_record_get_string(rec, 6); CHECK(s && !strcmp(s, l), "long text"); g_free(s); } else CHECK(rec_is(rec, i + 1, i == 0 ? c_int(r) : i == n - 1 ? v : i % 2 ? c_str(i == 7 ? "" : "x") : c_int(i)), "the same cells");
        g_object_unref(rec);
    }
    CHECK(!libmsi_query_fetch(q, NULL), "no more rows"); g_object_unref(q); same_text(b, "t"); WITNESS("end"); g_object_unref(a); g_object_unref(b); free(l);
}
