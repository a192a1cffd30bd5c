// Text is stored in the database code page or refused.
//@ run h_text engine=msym lib=all workers=6 timeout=400 covers="a database in code page 0, 1252 or 65001 (imported before or after the strings, into a new or a reopened database), a string of 1..2 characters of 1..4 UTF-8 bytes with any value: representable text is stored in that code page and read back the same, other text makes commit fail leaving the file as it was; after that a change to 65001 and a commit keep it"
//@ run h_names engine=msym lib=all workers=4 timeout=300 covers="the same for table and column names of one character of 1..3 UTF-8 bytes"
//@ run h_cp engine=msym lib=all workers=6 timeout=300 covers="every code page number of 1..5 digits over 17 patterns with any last digit, into a database with and without strings: accepted exactly if it is a known one; kept by commit and reopening; exported as imported"
#include "db.h"
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static gboolean set_cp(LibmsiDatabase *db, const char *num)
{ char s[64], *p = add(s, "\r\n\r\n"); p = add(p, num); p = add(p, "\t_ForceCodepage\r\n"); env_put("/f", env_mem_file(s, p - s)); GError *e = NULL; gboolean b = libmsi_database_import(db, "/f", &e); CHECK(b == !e, "import reports failure through its GError"); g_clear_error(&e); return b; }
static int cp_is(LibmsiDatabase *db, const char *num)
{ char s[64], *p = add(s, "\r\n\r\n"); GError *e = NULL; p = add(p, num); p = add(p, "\t_ForceCodepage\r\n"); env_out_len = 0; CHECK(libmsi_database_export(db, "_ForceCodepage", env_out_fd, &e) && !e, "the code page can be exported"); return env_out_len >= (size_t)(p - s) && !memcmp(env_out, s, p - s) && (env_out_len == (size_t)(p - s) || (env_out_len == (size_t)(p - s) + 1 && !s[p - s])); }
/* one character: its UTF-8 form at p; *l its ISO 8859-1 byte or -1 */
static char *any_char(char *p, int *l, int max)
{
    unsigned c = sym_choose(max); unsigned a = sym_u8(), b, d;
    if (c == 0) { ASSUME(a > ' ' && a < 127 && a != '`' && a != '.' && (a < 'A' || a > 'Z')); *l = a; *p++ = a; return p; }
    b = sym_u8(); ASSUME((b & 0xc0) == 0x80);
    if (c == 1) { ASSUME(a == 0xc2 || a == 0xc3); *l = (a & 3) << 6 | (b & 63); *p++ = a; *p++ = b; return p; }
    *l = -1;
    if (c == 2) { ASSUME(a >= 0xc4 && a < 0xe0); *p++ = a; *p++ = b; return p; }
    d = sym_u8(); ASSUME((d & 0xc0) == 0x80);
    if (c == 3) { ASSUME(a > 0xe0 && a < 0xed); *p++ = a; *p++ = b; *p++ = d; return p; }
    ASSUME(a > 0xf0 && a < 0xf4); *p++ = a; *p++ = b; *p++ = d; *p++ = 0x85; return p;
}
static const char *const cps[3] = { "0", "1252", "65001" };
static int has_bytes(Node *root, const char *s, unsigned n)
{ for (unsigned id = 1; id < 12; id++) { int l; unsigned refs; const uint8_t *d = pool_str(root, id, &l, &refs); if (d && refs && l == (int)n && !memcmp(d, s, n)) return 1; } return 0; }
static int holds_text(LibmsiDatabase *db, const char *s)
{
    LibmsiQuery *q = q_new(db, "SELECT `s` FROM `t` WHERE `k` = 1"); CHECK(q_exec(q, NULL), "query"); LibmsiRecord *r = libmsi_query_fetch(q, NULL); CHECK(r != NULL, "the row"); gchar *g = libmsi_record_get_string(r, 1); int ok = !strcmp(g, s); g_free(g); g_object_unref(r); g_object_unref(q); return ok;
}
void h_text(void)
{
    char s[12], raw[3], *p = s; int l[2] = { 0, 0 }, n = 1 + sym_bool(), cp = sym_choose(3), late = sym_bool(), re = sym_bool(), i, fits = 1;
    p = any_char(p, &l[0], 5); if (n == 2) { if (sym_bool()) p = any_char(p, &l[1], 3); else { l[1] = 'z'; *p++ = 'z'; } } *p = 0;
    for (i = 0; i < n; i++) { if (l[i] < 0) fits = 0; raw[i] = l[i]; }
    LibmsiDatabase *db = db_create("/a.msi"); must(db, "CREATE TABLE `t` (`k` INT NOT NULL, `s` CHAR(9) PRIMARY KEY `k`)"); must(db, "INSERT INTO `t` (`k`,`s`) VALUES (1,'old')"); CHECK(commit(db), "commit");
    if (re) { g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db != NULL, "opens"); }
    if (cp && !late) CHECK(set_cp(db, cps[cp]), "a known code page is accepted");
    LibmsiRecord *r = libmsi_record_new(1); libmsi_record_set_string(r, 1, s); CHECK(ex(db, "UPDATE `t` SET `s` = ? WHERE `k` = 1", r), "any text can be written"); g_object_unref(r);
    if (cp && late) CHECK(set_cp(db, cps[cp]), "a known code page is accepted");
    CHECK(holds_text(db, s), "the text is read back the same");
    int ok = commit(db); if (cp == 2) fits = 1; CHECK(ok == fits, "a commit succeeds exactly if the code page can represent the text");
    if (!ok) {
        LibmsiDatabase *d = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(d && holds_text(d, "old"), "the file is as it was"); g_object_unref(d); WITNESS("refused");
        CHECK(holds_text(db, s), "the text is still there"); CHECK(set_cp(db, "65001"), "code page"); cp = 2; CHECK(commit(db), "and can be committed in a code page that has it");
    }
    CHECK(holds_text(db, s), "the text is still the same"); g_object_unref(db);
    CHECK(cp == 2 ? has_bytes(env_file("/a.msi"), s, p - s) : has_bytes(env_file("/a.msi"), raw, n), "the file holds the text in the code page");
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db && holds_text(db, s), "the text after reopening"); CHECK(cp_is(db, cps[cp]), "the code page after reopening"); WITNESS_IF(cp == 1 && n == 2, "stored"); g_object_unref(db);
}
void h_names(void)
{
    char s[8], q[120], *p; int l, cp = sym_choose(3), col = sym_bool(); *any_char(s, &l, 4) = 0; ASSUME(l < 0 || l > 127);
    LibmsiDatabase *db = db_create("/a.msi"); if (cp) CHECK(set_cp(db, cps[cp]), "a known code page is accepted");
    p = add(q, "CREATE TABLE `"); p = add(p, col ? "t" : s); p = add(p, "` (`k` INT NOT NULL, `"); p = add(p, col ? s : "c"); p = add(p, "` INT PRIMARY KEY `k`)"); must(db, q);
    p = add(q, "INSERT INTO `"); p = add(p, col ? "t" : s); p = add(p, "` (`k`, `"); p = add(p, col ? s : "c"); p = add(p, "`) VALUES (1, 2)"); must(db, q);
    int ok = commit(db); CHECK(ok == (cp == 2 || l > 0), "a commit succeeds exactly if the code page can represent the name"); g_object_unref(db);
    if (!ok) { WITNESS("refused"); return; }
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens"); Cell w[1] = { c_int(2) };
    p = add(q, "SELECT `"); p = add(p, col ? s : "c"); p = add(p, "` FROM `"); p = add(p, col ? "t" : s); p = add(p, "`"); CHECK(rows_are(db, q, NULL, 1, 1, w), "found by its name"); WITNESS("stored"); g_object_unref(db);
}
static int known(int v)
{
    static const int k[] = { 0, 37, 424, 437, 500, 737, 775, 850, 852, 855, 856, 857, 860, 861, 862, 863, 864, 865, 866, 869, 874, 875, 878, 932, 936, 949, 950, 1006, 1026, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1361, 10000, 10006, 10007, 10029, 10079, 10081, 20127, 20866, 20932, 21866, 28591, 28592, 28593, 28594, 28595, 28596, 28597, 28598, 28599, 28600, 28603, 28604, 28605, 28606, 65000, 65001 };
    for (unsigned i = 0; i < sizeof k / sizeof *k; i++) if (k[i] == v) return 1; return 0;
}
void h_cp(void)
{
    static const char *const pre[17] = { "", "3", "43", "85", "86", "93", "125", "136", "1000", "1007", "2086", "2012", "2859", "2860", "6500", "6553", "8500" }; char s[8], *p = add(s, pre[sym_choose(17)]); unsigned d = sym_choose(10), i; int v = 0, full = sym_bool(), re = sym_bool();
    *p++ = '0' + d; *p = 0; ASSUME(strcmp(pre[0], s)); for (i = 0; s[i]; i++) v = v * 10 + (s[i] - '0');
    LibmsiDatabase *db = db_create("/a.msi"); if (full) must(db, "CREATE TABLE `t` (`k` INT NOT NULL PRIMARY KEY `k`)");
    if (re) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db && cp_is(db, "0"), "the neutral code page"); }
    CHECK(set_cp(db, s) == known(v), "a code page is accepted exactly if it is a known one"); CHECK(cp_is(db, known(v) ? s : "0"), "and then exported, otherwise unchanged");
    CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db && cp_is(db, known(v) ? s : "0"), "kept by a commit");
    must(db, "CREATE TABLE `u` (`k` INT NOT NULL PRIMARY KEY `k`)"); CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db && cp_is(db, known(v) ? s : "0"), "and by a later one");
    WITNESS_IF(known(v), "kept"); WITNESS_IF(!known(v), "refused"); g_object_unref(db);
}
