// A refused CREATE, ALTER or DROP leaves the catalog unchanged; DROP removes everything.
//@ run h_refused engine=msym lib=all workers=6 timeout=300 covers="24 refused statements (existing or system table, repeated, empty or missing column or key, unknown table or column, mixed temporary columns, malformed text), in a database with a table, a temporary table and any values, fresh or reopened: _Tables, _Columns, all rows and the descriptions are as before; the corrected statement then works and is stored"
//@ run h_names engine=msym lib=all workers=6 timeout=300 covers="CREATE, ALTER ADD, DROP, each with any table name of one letter or one of the existing names and any column name of one letter: accepted exactly if the rule allows it, otherwise nothing changes"
//@ run h_drop engine=msym lib=all workers=6 timeout=300 covers="DROP TABLE of one of two tables (1..3 columns, 0..2 rows of any values, a stream cell), fresh or reopened: table, columns, rows and streams are gone, also on disk; the name is reused with other columns; the other table keeps its rows"
//@ run h_temp engine=msym lib=all workers=4 timeout=200 covers="ALTER ADD and DROP of temporary tables, HOLD and FREE, any values: the other tables stay; commit and reopen"
#include "db.h"
typedef struct { Cell a[2], b[2]; } V;
static LibmsiDatabase *base(V *v, int reop)
{
    LibmsiDatabase *db = db_create("/a.msi"); int i;
    must(db, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); must(db, "CREATE TABLE `u` (`x` LONG NOT NULL, `k` SHORT PRIMARY KEY `x`)");
    for (i = 0; i < 2; i++) { v->a[i] = sym_int16(); v->b[i] = c_str(i ? "p" : "q"); if (i) ASSUME(v->a[1].i > v->a[0].i); Cell c[2] = { v->a[i], v->b[i] }; CHECK(exr(db, "INSERT INTO `t` (`k`,`s`) VALUES (?,?)", 2, c), "insert"); }
    Cell c[2] = { c_int(7), v->a[0] }; CHECK(exr(db, "INSERT INTO `u` (`x`,`k`) VALUES (?,?)", 2, c), "insert");
    if (reop) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db != NULL, "opens"); }
    return db;
}
static void t_unchanged(LibmsiDatabase *db, V *v)
{ Cell w[4] = { v->a[0], v->b[0], v->a[1], v->b[1] }; CHECK(rows_are(db, "SELECT * FROM `t`", NULL, 2, 2, w), "the table keeps its columns and rows"); }
static void u_unchanged(LibmsiDatabase *db, V *v)
{ Cell x[2] = { c_int(7), v->a[0] }; CHECK(rows_are(db, "SELECT * FROM `u`", NULL, 1, 2, x), "the other table keeps its columns and rows"); }
static void catalog_is(LibmsiDatabase *db, int nt, const Cell *t, int nc, const Cell *c)
{ CHECK(rows_are_set(db, "SELECT `Name` FROM `_Tables`", NULL, nt, 1, t), "exactly the tables"); CHECK(rows_are_set(db, "SELECT `Table`,`Number`,`Name` FROM `_Columns`", NULL, nc, 3, c), "exactly the columns"); }
static void unchanged(LibmsiDatabase *db, V *v, int temp)
{
    Cell t[3] = { c_str("t"), c_str("u"), c_str("tmp") }, c[12] = { c_str("t"), c_int(1), c_str("k"), c_str("t"), c_int(2), c_str("s"), c_str("u"), c_int(1), c_str("x"), c_str("u"), c_int(2), c_str("k") };
    catalog_is(db, 2 + temp, t, 4, c); t_unchanged(db, v); u_unchanged(db, v);
    if (temp) { Cell x[1] = { c_int(3) }; CHECK(rows_are(db, "SELECT * FROM `tmp`", NULL, 1, 1, x), "the temporary table keeps its row"); }
}
static const char *const bad[] = {
    "CREATE TABLE `t` (`a` INT NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `_Tables` (`a` INT NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `_Streams` (`a` INT NOT NULL PRIMARY KEY `a`)",
    "CREATE TABLE `n` (`a` INT NOT NULL, `a` INT PRIMARY KEY `a`)", "CREATE TABLE `n` (`a` INT NOT NULL PRIMARY KEY `b`)", "CREATE TABLE `n` (`a` INT NOT NULL)", "CREATE TABLE `n` (`a` INT NOT NULL, `` INT PRIMARY KEY `a`)",
    "CREATE TABLE `` (`a` INT NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `n` (`` INT NOT NULL PRIMARY KEY ``)", "CREATE TABLE `n` (`a` INT NOT NULL, `b` INT TEMPORARY, `c` INT TEMPORARY PRIMARY KEY `c`)", "CREATE TABLE `n` (`a` FLOAT NOT NULL PRIMARY KEY `a`)",
    "CREATE TABLE `n` (`a` CHAR(256) NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `n` ()", "CREATE TABLE `n` (`a` INT NOT NULL PRIMARY KEY `a`) JUNK",
    "ALTER TABLE `t` ADD `s` INT", "ALTER TABLE `t` ADD `` INT", "ALTER TABLE `n` ADD `a` INT", "ALTER TABLE `t` ADD `a`", "ALTER TABLE `` ADD `a` INT", "ALTER TABLE `_Streams` ADD `a` INT",
    "DROP TABLE `n`", "DROP TABLE `_Tables`", "DROP TABLE `_Columns`", "DROP TABLE `_Streams`" };
void h_refused(void)
{
    V v; int i = sym_choose(24), reop = sym_bool(), temp = sym_bool(); LibmsiDatabase *db = base(&v, reop);
    if (temp) { must(db, "CREATE TABLE `tmp` (`a` INT NOT NULL TEMPORARY PRIMARY KEY `a`) HOLD"); must(db, "INSERT INTO `tmp` (`a`) VALUES (3)"); }
    CHECK(!ex(db, bad[i], NULL), "the statement is refused"); unchanged(db, &v, temp);
    CHECK(!ex(db, bad[i], NULL), "also a second time"); unchanged(db, &v, temp);
    must(db, "CREATE TABLE `n` (`a` INT NOT NULL PRIMARY KEY `a`)"); must(db, "ALTER TABLE `n` ADD `b` INT"); must(db, "INSERT INTO `n` (`a`,`b`) VALUES (4,5)");
    for (int j = 0; j < 2; j++) {
        Cell x[2] = { c_int(4), c_int(5) }; CHECK(rows_are(db, "SELECT * FROM `n`", NULL, 1, 2, x), "the corrected statement works"); t_unchanged(db, &v); u_unchanged(db, &v);
        if (!j) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db != NULL, "opens"); }
    }
    must(db, "DROP TABLE `n`"); unchanged(db, &v, 0); CHECK(commit(db), "commit"); g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens"); unchanged(db, &v, 0); g_object_unref(db); WITNESS("corrected");
}
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
void h_names(void)
{
    V v; int op = sym_choose(3), reop = sym_bool(), ok; LibmsiDatabase *db = base(&v, reop); char n[2], c[2], s[120], *p; sym_text(n, 1, 'r', 'w'); sym_text(c, 1, 'j', 'y');
    int is_t = n[0] == 't', is_u = n[0] == 'u';
    if (op == 0) { p = add(s, "CREATE TABLE `"); p = add(p, n); p = add(p, "` (`m` INT NOT NULL, `"); p = add(p, c); add(p, "` INT PRIMARY KEY `m`)"); ok = !is_t && !is_u && c[0] != 'm'; }
    else if (op == 1) { p = add(s, "ALTER TABLE `"); p = add(p, n); p = add(p, "` ADD `"); p = add(p, c); add(p, "` INT"); ok = (is_t && c[0] != 'k' && c[0] != 's') || (is_u && c[0] != 'k' && c[0] != 'x'); }
    else { p = add(s, "DROP TABLE `"); p = add(p, n); add(p, "`"); ok = is_t || is_u; }
    gboolean done = ex(db, s, NULL); CHECK(done == ok, "accepted exactly if it names what it must");
    if (!ok) { unchanged(db, &v, 0); WITNESS("refused"); }
    else {
        Cell t[3] = { c_str("t"), c_str("u"), c_str(n) }, k[18] = { c_str("t"), c_int(1), c_str("k"), c_str("t"), c_int(2), c_str("s"), c_str("u"), c_int(1), c_str("x"), c_str("u"), c_int(2), c_str("k"), c_str(n), c_int(1), c_str("m"), c_str(n), c_int(2), c_str(c) };
        for (int j = 0; j < 2; j++) {
            if (op == 0) catalog_is(db, 3, t, 6, k);
            else if (op == 1) { k[13] = c_int(3); k[14] = c_str(c); catalog_is(db, 2, t, 5, k); }
            else if (is_t) { catalog_is(db, 1, t + 1, 2, k + 6); u_unchanged(db, &v); }
            else { catalog_is(db, 1, t, 2, k); t_unchanged(db, &v); }
            if (op == 0) { t_unchanged(db, &v); u_unchanged(db, &v); }
            if (!j) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", 0); CHECK(db != NULL, "opens"); }
        }
        WITNESS("done");
    }
    g_object_unref(db);
}
void h_drop(void)
{
    V v; int reop = sym_bool(), kind = sym_choose(4), rows = sym_choose(3), reuse = sym_choose(3); LibmsiDatabase *db = base(&v, 0); Cell a = sym_int16(); uint8_t d[2] = { 5, 6 };
    static const char *const cr[4] = { "CREATE TABLE `n` (`a` INT NOT NULL PRIMARY KEY `a`)", "CREATE TABLE `n` (`a` INT NOT NULL, `b` CHAR(4) PRIMARY KEY `a`)", "CREATE TABLE `n` (`a` INT NOT NULL, `b` CHAR(4) NOT NULL, `c` LONG PRIMARY KEY `a`,`b`)", "CREATE TABLE `n` (`a` INT NOT NULL, `b` OBJECT PRIMARY KEY `a`)" };
    must(db, cr[kind]);
    for (int i = 0; i < rows; i++) {
        Cell c[2] = { i ? c_int(9) : a, c_str("x") }; if (i) ASSUME(a.i < 9);
        if (kind == 3) { env_put("/d", env_mem_file(d, 2)); LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_int(r, 1, c_int(i + 1).i); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(ex(db, "INSERT INTO `n` (`a`,`b`) VALUES (?,?)", r), "store"); g_object_unref(r); }
        else CHECK(exr(db, kind ? "INSERT INTO `n` (`a`,`b`) VALUES (?,?)" : "INSERT INTO `n` (`a`) VALUES (?)", 1 + (kind > 0), c), "insert");
    }
    if (reop) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db != NULL, "opens"); }
    must(db, "DROP TABLE `n`"); unchanged(db, &v, 0); CHECK(!q_try(db, "SELECT * FROM `n`"), "the table is gone");
    if (reuse) { must(db, cr[2 - reuse]); CHECK(n_rows(db, "SELECT * FROM `n`", NULL) == 0, "a new table of the name is empty"); if (reuse == 2) { Cell c[1] = { a }; CHECK(exr(db, "INSERT INTO `n` (`a`) VALUES (?)", 1, c), "and can be filled"); } }
    CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db != NULL, "opens");
    if (!reuse) { unchanged(db, &v, 0); CHECK(!q_try(db, "SELECT * FROM `n`"), "also on disk"); CHECK(!table_stream("/a.msi", "n"), "its stream too"); WITNESS("dropped"); }
    else if (reuse == 2) { Cell c[1] = { a }; CHECK(rows_are(db, "SELECT * FROM `n`", NULL, 1, 1, c), "the new table is stored"); t_unchanged(db, &v); u_unchanged(db, &v); WITNESS("reused"); }
    else { CHECK(n_rows(db, "SELECT * FROM `n`", NULL) == 0, "the new table is empty on disk"); t_unchanged(db, &v); u_unchanged(db, &v); }
    g_object_unref(db);
}
void h_temp(void)
{
    V v; int ev = sym_choose(5); LibmsiDatabase *db = base(&v, sym_bool()); Cell a = sym_int16();
    must(db, "CREATE TABLE `tmp` (`a` INT NOT NULL TEMPORARY PRIMARY KEY `a`) HOLD"); CHECK(exr(db, "INSERT INTO `tmp` (`a`) VALUES (?)", 1, &a), "insert");
    switch (ev) {
    case 0: if (ex(db, "ALTER TABLE `tmp` ADD `b` INT TEMPORARY", NULL)) { Cell w[2] = { a, c_null() }; CHECK(rows_are(db, "SELECT `a`,`b` FROM `tmp`", NULL, 1, 2, w), "an added column is NULL"); } else CHECK(rows_are(db, "SELECT * FROM `tmp`", NULL, 1, 1, &a), "a refused one leaves the table"); WITNESS("alter"); break;
    case 1: must(db, "DROP TABLE `tmp`"); CHECK(!q_try(db, "SELECT * FROM `tmp`"), "gone"); must(db, "CREATE TABLE `tmp` (`z` INT NOT NULL, `y` INT PRIMARY KEY `z`)"); must(db, "DROP TABLE `tmp`"); break;
    case 2: must(db, "ALTER TABLE `tmp` HOLD"); must(db, "ALTER TABLE `tmp` FREE"); CHECK(rows_are(db, "SELECT * FROM `tmp`", NULL, 1, 1, &a), "a held table stays"); break;
    case 3: must(db, "ALTER TABLE `t` HOLD"); must(db, "ALTER TABLE `t` FREE"); break;
    case 4: must(db, "ALTER TABLE `t` ADD `w` INT TEMPORARY HOLD"); must(db, "ALTER TABLE `t` FREE"); break;
    }
    if (ev != 4) t_unchanged(db, &v); u_unchanged(db, &v); Cell x[2] = { v.a[0], v.b[0] }; CHECK(rows_are(db, "SELECT `k`,`s` FROM `t` WHERE `s`='q'", NULL, 1, 2, x), "rows stay");
    CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens"); CHECK(!q_try(db, "SELECT * FROM `tmp`"), "a temporary table is not stored");
    CHECK(rows_are(db, "SELECT `k`,`s` FROM `t` WHERE `s`='q'", NULL, 1, 2, x), "rows stay"); if (ev != 4) unchanged(db, &v, 0); g_object_unref(db);
}
