// SELECT returns the named columns in the named order; DISTINCT keeps one of each.
//@ run h_project engine=msym lib=all workers=2 timeout=300 covers="7 column lists (any order, repeats, *, table-qualified), 2 rows, every value"
//@ run h_distinct engine=msym lib=all workers=4 timeout=400 covers="DISTINCT over 3 rows, one or two columns, integers and 1-character strings, NULLs"
//@ run h_names engine=msym lib=all workers=1 timeout=200 covers="column names and types reported for each column list, before and after execution"
#include "db.h"
static LibmsiDatabase *mk(void) { LibmsiDatabase *db = db_create("/a.msi"); must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(8), `C` LONG PRIMARY KEY `A`)"); return db; }
static const struct { const char *sql; int n, col[6]; } Q[] = {
    { "SELECT `A` FROM `T`", 1, { 0 } }, { "SELECT `C`,`A` FROM `T`", 2, { 2, 0 } }, { "SELECT `B`,`C`,`A` FROM `T`", 3, { 1, 2, 0 } }, { "SELECT * FROM `T`", 3, { 0, 1, 2 } },
    { "SELECT `T`.`C`,`B` FROM `T`", 2, { 2, 1 } }, { "SELECT `B`,`B` FROM `T`", 2, { 1, 1 } }, { "SELECT `C`, `B` FROM `T` WHERE `A` > -32768", 2, { 2, 1 } } };
void h_project(void)
{
    LibmsiDatabase *db = mk(); Cell r[2][3], want[2][6]; unsigned k = sym_choose(7);
    for (int i = 0; i < 2; i++) { char s[4]; sym_text(s, 1, 'a', 'z'); r[i][0] = sym_int16(); if (i) ASSUME(r[1][0].i > r[0][0].i); r[i][1] = sym_bool() ? c_str(s) : c_null(); r[i][2] = sym_int32();
        CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`) VALUES (?,?,?)", 3, r[i]), "insert"); }
    Cell w[12]; for (int i = 0; i < 2; i++) for (int c = 0; c < Q[k].n; c++) w[i * Q[k].n + c] = r[i][Q[k].col[c]];
    CHECK(rows_are_set(db, Q[k].sql, NULL, 2, Q[k].n, w), "the named columns in the named order"); WITNESS("end");
    g_object_unref(db);
}
void h_distinct(void)
{
    LibmsiDatabase *db = mk(); Cell r[3][3], w[6]; unsigned n = 0, k = sym_choose(3), m = k == 2 ? 2 : 1;
    for (int i = 0; i < 3; i++) { char s[4]; sym_text(s, 1, 'a', 'z'); r[i][0] = c_int(i); r[i][1] = i == 1 && sym_bool() ? c_null() : c_str(s); r[i][2] = i == 2 && sym_bool() ? c_null() : sym_int32();
        CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`) VALUES (?,?,?)", 3, r[i]), "insert"); }
    for (int i = 0; i < 3; i++) {
        Cell x[2]; int dup = 0; x[0] = k == 1 ? r[i][2] : r[i][1]; x[1] = r[i][2];
        for (unsigned j = 0; j < n && !dup; j++) { dup = 1; for (unsigned c = 0; c < m; c++) if (!cell_eq(w[j * m + c], x[c])) dup = 0; }
        if (!dup) { for (unsigned c = 0; c < m; c++) w[n * m + c] = x[c]; n++; }
    }
    CHECK(rows_are_set(db, k == 0 ? "SELECT DISTINCT `B` FROM `T`" : k == 1 ? "SELECT DISTINCT `C` FROM `T`" : "SELECT DISTINCT `B`,`C` FROM `T`", NULL, n, m, w), "one row per distinct value");
    WITNESS_IF(n == 1, "all equal"); WITNESS_IF(n == 3, "all different");
    g_object_unref(db);
}
void h_names(void)
{
    static const char *const nm[] = { "A", "B", "C" }, *const ty[] = { "i2", "S8", "I4" };
    LibmsiDatabase *db = mk(); unsigned k = sym_choose(7); LibmsiQuery *q = q_new(db, Q[k].sql); GError *e = NULL;
    if (sym_bool()) CHECK(q_exec(q, NULL), "execute");
    LibmsiRecord *a = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_NAMES, &e), *b = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, &e);
    CHECK(a && b && !e, "column information"); CHECK(libmsi_record_get_field_count(a) == Q[k].n && libmsi_record_get_field_count(b) == Q[k].n, "one entry per column");
    for (int c = 0; c < Q[k].n; c++) { gchar *x = libmsi_record_get_string(a, c + 1), *y = libmsi_record_get_string(b, c + 1); CHECK(!strcmp(x, nm[Q[k].col[c]]), "name"); CHECK(!strcmp(y, ty[Q[k].col[c]]), "type"); g_free(x); g_free(y); }
    WITNESS("end"); g_object_unref(a); g_object_unref(b); g_object_unref(q); g_object_unref(db);
}
