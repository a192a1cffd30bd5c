// What msiinfo export -s prints recreates the table.
//@ run h_rows engine=msym lib=all,tools/sqldelim.c workers=6 timeout=300 covers="2 rows of a key and two strings: keys and values of 1..2 characters with any one of them any character of 1..127 but the quote, NULLs: the printed text, split and executed as msibuild -q does, makes exactly these rows"
//@ run h_quote engine=msym lib=all,tools/sqldelim.c workers=6 timeout=300 covers="the same with a quote in a value"
//@ run h_ints engine=msym lib=all,tools/sqldelim.c workers=6 timeout=400 covers="a row of a SHORT key and a SHORT and LONG column, any 16-bit value, LONG values of 6 magnitudes with any last digit, NULLs, the first column NULL"
//@ run h_types engine=msym lib=all,tools/sqldelim.c workers=6 timeout=300 covers="tables of a key and two columns of every type (7 CHAR widths of 0..255), NOT NULL or not, plain or LOCALIZABLE, or with 1..3 keys in any columns, without rows: the same column names, types and keys; status 0"
#include "tools.h"
#include "tools/msiinfo.c"
#undef main
#undef fprintf
#undef printf
#undef exit
#include "sqldelim.h"
static void t_exited(int st) { CHECK(0, "msiinfo export -s ran into its usage"); }
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static int run_sql(const char *s, void *db) { return !ex(db, s, NULL); }
static LibmsiDatabase *copy(LibmsiDatabase *a)
{
    CHECK(commit(a), "commit"); char *av[] = { "msiinfo", "export", "-s", "/a.msi", "t", NULL }; env_out_len = 0;
    CHECK(tool_main(5, av) == 0, "msiinfo reports success"); char *s = malloc(env_out_len + 1); memcpy(s, env_out, env_out_len); s[env_out_len] = 0;
    LibmsiDatabase *b = db_create("/b.msi"); int r = sql_get_statement(s, run_sql, b); if (!r) r = sql_get_statement("", run_sql, b); CHECK(!r, "every statement it printed executes"); free(s); return b;
}
static char anychar(void) { unsigned char c = sym_u8(); ASSUME(c && c != '\'' && c < 128); return c; }
static Cell any_str(int hole, int tag, int null)
{
    char s[4]; Cell c;
    if (!hole) { if (null && sym_bool()) return c_null(); s[0] = 'a' + tag; s[1] = 0; return c_str(s); }
    unsigned n = 1 + sym_choose(2), at = sym_choose(n); for (unsigned i = 0; i < n; i++) s[i] = i == at ? anychar() : 'p' + tag; s[n] = 0; c = c_str(s); return c;
}
void h_rows(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b; Cell w[6]; unsigned rows = 1 + sym_bool(), hole = sym_choose(3 * rows), kcol = sym_choose(2);
    must(a, kcol ? "CREATE TABLE `t` (`k` CHAR(8), `s` CHAR(0) LOCALIZABLE, `u` CHAR(255) NOT NULL PRIMARY KEY `k`, `u`)" : "CREATE TABLE `t` (`k` CHAR(8) NOT NULL LOCALIZABLE, `s` LONGCHAR, `u` CHAR(1) PRIMARY KEY `k`)");
    for (unsigned i = 0; i < rows; i++) {
        for (unsigned j = 0; j < 3; j++) { unsigned c = 3 * i + j; w[c] = any_str(hole == c, c, kcol ? j < 2 : j); } ASSUME(!i || !cell_eq(w[0], w[3]));
        if (kcol) { Cell x[2] = { w[3 * i + 1], w[3 * i + 2] }, y[3] = { w[3 * i], x[0], x[1] }; CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, y), "insert"); }
        else CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, w + 3 * i), "insert");
    }
    LibmsiDatabase *o = a; b = copy(a); CHECK(rows_are_set(b, "SELECT `k`,`s`,`u` FROM `t`", NULL, rows, 3, w), "with exactly its rows"); WITNESS_IF(rows == 2, "copied"); g_object_unref(o); g_object_unref(b);
}
void h_quote(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b; char s[3] = { 'x', '\'', 0 }; s[sym_choose(2)] = sym_bool() ? 'x' : '\''; Cell w[2] = { c_int(1), c_str(s) };
    must(a, "CREATE TABLE `t` (`k` INT NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); CHECK(exr(a, "INSERT INTO `t` (`k`,`s`) VALUES (?,?)", 2, w), "insert");
    b = copy(a); CHECK(rows_are_set(b, "SELECT `k`,`s` FROM `t`", NULL, 1, 2, w), "with exactly its rows"); WITNESS("copied"); g_object_unref(a); g_object_unref(b);
}
static Cell any_long(void)
{
    static const int base[6] = { 0, 10, 32760, 65530, 1000000, 2147483640 }; int k = sym_choose(7); if (k == 6) return c_null();
    int d = sym_u8(); ASSUME(d < (k == 5 ? 8 : 10)); d += base[k]; if (sym_bool()) d = -d; return c_int(d);
}
void h_ints(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b; Cell w[3];
    int m = sym_choose(3); w[0] = m == 0 ? sym_int16() : c_int(-7); w[1] = m == 1 ? c_null() : c_int(-32767); w[2] = m == 2 ? any_long() : c_int(2147483647);
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` INT, `u` LONG PRIMARY KEY `k`)"); CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, w), "insert");
    b = copy(a); CHECK(rows_are_set(b, "SELECT `k`,`s`,`u` FROM `t`", NULL, 1, 3, w), "with exactly its rows"); WITNESS("copied"); g_object_unref(a); g_object_unref(b);
}
static LibmsiRecord *info(LibmsiDatabase *db, LibmsiColInfo i) { LibmsiQuery *q = q_new(db, "SELECT * FROM `t`"); GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, i, &e); CHECK(r && !e, "column info"); g_object_unref(q); return r; }
static LibmsiRecord *keys(LibmsiDatabase *db) { GError *e = NULL; LibmsiRecord *r = libmsi_database_get_primary_keys(db, "t", &e); CHECK(r && !e, "keys"); return r; }
static void same_rec(LibmsiRecord *a, LibmsiRecord *b)
{
    unsigned n = libmsi_record_get_field_count(a); CHECK(n == libmsi_record_get_field_count(b), "as many columns");
    for (unsigned i = 1; i <= n; i++) { gchar *x = libmsi_record_get_string(a, i), *y = libmsi_record_get_string(b, i); CHECK(x && y && !strcmp(x, y), "the same names, types and keys"); g_free(x); g_free(y); }
    g_object_unref(a); g_object_unref(b);
}
void h_types(void)
{
    static const char *const ty[] = { "CHAR", "CHAR(", "LONGCHAR", "SHORT", "INT", "LONG", "OBJECT" }, *const nm[3] = { "k", "Ab c", "c_1" };
    LibmsiDatabase *a = db_create("/a.msi"), *b; char s[200], *p = add(s, "CREATE TABLE `t` ("); int t[3], nn[3], mode = sym_bool(), nk = mode ? 1 + sym_choose(3) : 1, i;
    int one = mode ? 3 : sym_choose(3);
    for (i = 0; i < 3; i++) {
        t[i] = i == one ? sym_choose(i ? 7 : 6) : mode ? i * 2 : 3; nn[i] = mode || (i != one && i != 1) || sym_bool();
        *p++ = '`'; p = add(p, nm[i]); p = add(p, "` "); p = add(p, ty[t[i]]);
        if (t[i] == 1) { static const unsigned wd[] = { 0, 1, 10, 72, 99, 100, 255 }; unsigned w = wd[sym_choose(7)]; *p++ = '0' + w / 100; *p++ = '0' + w / 10 % 10; *p++ = '0' + w % 10; *p++ = ')'; *p = 0; }
        if (nn[i]) p = add(p, " NOT NULL"); if (t[i] < 3 && (i != one || sym_bool())) p = add(p, " LOCALIZABLE"); p = add(p, i < 2 ? ", " : " ");
    }
    int first = sym_choose(nk); p = add(p, "PRIMARY KEY "); for (i = 0; i < nk; i++) { *p++ = '`'; p = add(p, nm[(first + i) % nk]); p = add(p, i + 1 < nk ? "`, " : "`)"); }
    must(a, s); b = copy(a); CHECK(n_rows(b, "SELECT * FROM `t`", NULL) == 0, "without rows");
    same_rec(info(a, LIBMSI_COL_INFO_NAMES), info(b, LIBMSI_COL_INFO_NAMES)); same_rec(info(a, LIBMSI_COL_INFO_TYPES), info(b, LIBMSI_COL_INFO_TYPES)); same_rec(keys(a), keys(b));
    WITNESS("copied"); g_object_unref(a); g_object_unref(b);
}
