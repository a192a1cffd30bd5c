// Queries under any call order; queries open together; queries over tables that change, disappear or are committed.
//@ run h_order engine=msym lib=all workers=6 timeout=300 covers="10 kinds of SELECT (plain, WHERE with a parameter, DISTINCT, DISTINCT of an OBJECT column, ORDER BY, join, join with parameter, _Tables, _Columns, _Streams), every sequence of 3 calls out of execute, fetch, close, column info, then execution and all rows; a table of 3 rows with any values"
//@ run h_other engine=msym lib=all workers=6 timeout=200 covers="11 other statements (INSERT, INSERT of a stream, UPDATE, DELETE, CREATE, DROP, ALTER ADD, HOLD, FREE, DROP and ALTER of _Streams), every sequence of 3 calls out of execute, fetch, close, column info"
//@ run h_two engine=msym lib=all workers=6 timeout=200 covers="two queries open at once, 6 kinds each, every interleaving of 3 steps (execute or fetch of either, or an unrelated change), then the rest of both results"
//@ run h_gone engine=msym lib=all workers=6 timeout=300 covers="a query (8 kinds of SELECT and INSERT/UPDATE/DELETE with parameters) executed and fetched once; the table altered, dropped, dropped and created again, emptied, the database committed or released; then fetch, column info, close and a new execution"
#include "db.h"
typedef struct { Cell k[3], v[3]; } Tab;
static LibmsiDatabase *setup(Tab *t, int stream)
{
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `V` SHORT PRIMARY KEY `K`)"); must(db, "CREATE TABLE `U` (`A` SHORT NOT NULL, `B` CHAR(8) PRIMARY KEY `A`)");
    for (int i = 0; i < 3; i++) { t->k[i] = c_int(10 * i + 1); t->v[i] = sym_int16(); Cell c[2] = { t->k[i], t->v[i] }; CHECK(exr(db, "INSERT INTO `T` (`K`,`V`) VALUES (?,?)", 2, c), "insert"); }
    ASSUME(t->v[0].i < t->v[1].i && t->v[2].i == t->v[0].i);
    must(db, "INSERT INTO `U` (`A`,`B`) VALUES (1,'x')"); must(db, "INSERT INTO `U` (`A`,`B`) VALUES (11,'y')");
    if (stream) {
        uint8_t d[2] = { 5, 6 }; env_put("/d", env_mem_file(d, 2));
        must(db, "CREATE TABLE `O` (`N` CHAR(8) NOT NULL, `D` OBJECT PRIMARY KEY `N`)");
        LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, "o"); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(ex(db, "INSERT INTO `O` (`N`,`D`) VALUES (?,?)", r), "store"); g_object_unref(r);
    }
    return db;
}
static const char *const sel[] = { "SELECT `K`,`V` FROM `T`", "SELECT `K`,`V` FROM `T` WHERE `V`=?", "SELECT DISTINCT `V` FROM `T`", "SELECT `K`,`V` FROM `T` ORDER BY `V`",
    "SELECT `K`,`B` FROM `T`,`U` WHERE `K`=`A`", "SELECT `K`,`B` FROM `T`,`U` WHERE `K`=`A` AND `V`=?", "SELECT `Name` FROM `_Tables`", "SELECT `Table`,`Name` FROM `_Columns`", "SELECT DISTINCT `D` FROM `O`", "SELECT `Name` FROM `_Streams`" };
static int has_par(int k) { return k == 1 || k == 5; }
/* the i-th row of kind k, or 0 when there is none */
static int row(int k, const Tab *t, int i, Cell c[2])
{
    switch (k) {
    case 0: if (i > 2) return 0; c[0] = t->k[i]; c[1] = t->v[i]; return 2;
    case 1: if (i > 1) return 0; c[0] = t->k[2 * i]; c[1] = t->v[2 * i]; return 2;
    case 2: if (i > 1) return 0; c[0] = t->v[i]; return 1;
    case 3: { static const int o[3] = { 0, 2, 1 }; if (i > 2) return 0; c[0] = t->k[o[i]]; c[1] = t->v[o[i]]; return 2; }
    case 4: if (i > 1) return 0; c[0] = t->k[i]; c[1] = c_str(i ? "y" : "x"); return 2;
    case 5: if (i > 0) return 0; c[0] = t->k[0]; c[1] = c_str("x"); return 2;
    }
    return -1;
}
static LibmsiRecord *par(int k, const Tab *t) { return has_par(k) ? rec_of(1, &t->v[0]) : NULL; }
static int count_of(int k, int stream) { return k == 6 ? 2 + stream : k == 7 ? 4 + 2 * stream : k >= 8 ? stream : -1; }
static void exec_sel(LibmsiQuery *q, int k, const Tab *t) { LibmsiRecord *r = par(k, t); CHECK(q_exec(q, r), "a query can be executed at any time"); if (r) g_object_unref(r); }
/* fetch and compare with row *pos; advances; 0 at the end */
static int step(LibmsiQuery *q, int k, const Tab *t, int *pos, int stream)
{
    GError *e = NULL; LibmsiRecord *r = libmsi_query_fetch(q, &e); Cell c[2]; int n = row(k, t, *pos, c);
    CHECK(!e, "fetching is no error");
    if (n < 0) { int cnt = count_of(k, stream); CHECK((r != NULL) == (*pos < cnt), "each row once, then the end"); if (r) { CHECK(!libmsi_record_is_null(r, 1), "with its value"); g_object_unref(r); (*pos)++; return 1; } return 0; }
    CHECK((r != NULL) == (n > 0), "each row once, then the end of rows");
    if (!r) return 0;
    CHECK((int)libmsi_record_get_field_count(r) == n && rec_is(r, 1, c[0]) && (n < 2 || rec_is(r, 2, c[1])), "the rows come in order with their values");
    g_object_unref(r); (*pos)++; return 1;
}
static void safe_fetch(LibmsiQuery *q) { GError *e = NULL; LibmsiRecord *r = libmsi_query_fetch(q, &e); CHECK(!(r && e), "a row or an error"); if (r) { for (unsigned i = 1; i <= libmsi_record_get_field_count(r); i++) { gchar *s = libmsi_record_is_null(r, i) ? NULL : libmsi_record_get_string(r, i); g_free(s); break; } g_object_unref(r); } if (e) g_error_free(e); }
static void q_close(LibmsiQuery *q) { GError *e = NULL; gboolean ok = libmsi_query_close(q, &e); CHECK(ok == !e, "close reports failure through its GError"); if (e) g_error_free(e); }
static void info(LibmsiQuery *q, int want)
{ GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_NAMES, &e); CHECK((r != NULL) == !e, "column info or an error"); if (want >= 0) CHECK(r && (int)libmsi_record_get_field_count(r) == want, "a name for each column"); if (r) { gchar *s = libmsi_record_get_string(r, 1); g_free(s); g_object_unref(r); } if (e) g_error_free(e);
  e = NULL; r = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, &e); CHECK((r != NULL) == !e, "column types or an error"); if (r) g_object_unref(r); if (e) g_error_free(e); }
static int ncol(int k) { return k == 2 || k == 6 || k >= 8 ? 1 : 2; }
void h_order(void)
{
    Tab t; int k = sym_choose(10), st = k >= 8; LibmsiDatabase *db = setup(&t, st); LibmsiQuery *q = q_new(db, sel[k]); int pos = -1;
    for (int i = 0; i < 3; i++) switch (sym_choose(4)) {
    case 0: exec_sel(q, k, &t); pos = 0; break;
    case 1: if (pos >= 0) { if (!step(q, k, &t, &pos, st)) WITNESS("end"); } else safe_fetch(q); break;
    case 2: q_close(q); pos = -1; break;
    case 3: info(q, ncol(k)); break;
    }
    exec_sel(q, k, &t); pos = 0; while (step(q, k, &t, &pos, st)) ; CHECK(!step(q, k, &t, &pos, st), "the end stays the end");
    g_object_unref(q); g_object_unref(db); WITNESS("reexecuted");
}
static const char *const oth[] = { "INSERT INTO `T` (`K`,`V`) VALUES (5,6)", "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", "UPDATE `T` SET `V`=7 WHERE `K`=11", "DELETE FROM `T` WHERE `K`=11",
    "CREATE TABLE `N` (`A` SHORT NOT NULL PRIMARY KEY `A`)", "DROP TABLE `T`", "ALTER TABLE `T` ADD `W` SHORT", "ALTER TABLE `T` HOLD", "ALTER TABLE `T` FREE", "DROP TABLE `_Streams`", "ALTER TABLE `_Streams` HOLD" };
void h_other(void)
{
    Tab t; int k = sym_choose(11); LibmsiDatabase *db = setup(&t, 1); LibmsiQuery *q = q_new(db, oth[k]); LibmsiRecord *r = NULL; int n = 0;
    if (k == 1) { r = libmsi_record_new(2); libmsi_record_set_string(r, 1, "s"); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); }
    for (int i = 0; i < 3; i++) switch (sym_choose(4)) {
    case 0: { gboolean ok = q_exec(q, r); if (n == 0 && k < 8) CHECK(ok, "the first execution succeeds"); if (n > 0 && (k == 0 || k == 4 || k == 5 || k == 6)) CHECK(!ok, "what cannot be done twice is refused"); if (k >= 9) CHECK(!ok, "refused"); n++; break; }
    case 1: safe_fetch(q); break;
    case 2: q_close(q); break;
    case 3: info(q, -1); break;
    }
    if (sym_bool()) g_object_unref(q), q = NULL;
    if (k == 5 && n) { CHECK(!ex(db, "SELECT `K` FROM `T`", NULL), "the table is gone"); }
    else if (k != 8) {
        LibmsiQuery *p = q_new(db, "SELECT `K`,`V` FROM `T`"); int rows = n_rows(db, "SELECT `K`,`V` FROM `T`", NULL);
        CHECK(rows == 3 + (k == 0 && n) - (k == 3 && n), "the statement took effect once"); g_object_unref(p);
        if (k == 2 && n) { Cell w[2] = { c_int(11), c_int(7) }; CHECK(rows_are(db, "SELECT `K`,`V` FROM `T` WHERE `K`=11", NULL, 1, 2, w), "updated"); }
        if (k == 6 && n) { Cell w[3] = { t.k[0], t.v[0], c_null() }; CHECK(rows_are(db, "SELECT `K`,`V`,`W` FROM `T` WHERE `K`=1", NULL, 1, 3, w), "added"); }
    }
    if (n) WITNESS("executed");
    if (q) g_object_unref(q); if (r) g_object_unref(r); g_object_unref(db);
}
void h_two(void)
{
    Tab t; int k[2] = { sym_choose(6), sym_choose(6) }; LibmsiDatabase *db = setup(&t, 0); LibmsiQuery *q[2] = { q_new(db, sel[k[0]]), q_new(db, sel[k[1]]) }; int pos[2] = { 0, 0 };
    exec_sel(q[0], k[0], &t); exec_sel(q[1], k[1], &t);
    for (int i = 0; i < 3; i++) { int a = sym_choose(5); if (a < 2) step(q[a], k[a], &t, &pos[a], 0); else if (a < 4) { exec_sel(q[a - 2], k[a - 2], &t); pos[a - 2] = 0; } else if (i == 1) must(db, "CREATE TABLE `N` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)"); else exec_sel(q[0], k[0], &t), pos[0] = 0; }
    for (int a = 0; a < 2; a++) { while (step(q[a], k[a], &t, &pos[a], 0)) ; }
    g_object_unref(q[0]); g_object_unref(db); step(q[1], k[1], &t, &pos[1], 0); g_object_unref(q[1]); WITNESS("both");
}
void h_gone(void)
{
    Tab t; int k = sym_choose(11), ev = sym_choose(7); LibmsiDatabase *db = setup(&t, 0); LibmsiQuery *q; LibmsiRecord *p = NULL; int pos = 0, done = 0;
    if (k < 8) { q = q_new(db, sel[k]); if (sym_bool()) { exec_sel(q, k, &t); step(q, k, &t, &pos, 0); done = 1; } }
    else { q = q_new(db, k == 8 ? "INSERT INTO `T` (`K`,`V`) VALUES (?,5)" : k == 9 ? "UPDATE `T` SET `V`=5 WHERE `K`=?" : "DELETE FROM `T` WHERE `K`=?"); Cell c = c_int(k == 8 ? 40 : 11); p = rec_of(1, &c); if (sym_bool()) { CHECK(q_exec(q, p), "a change executes"); done = 1; } }
    switch (ev) {
    case 0: must(db, "ALTER TABLE `T` ADD `W` SHORT"); break;
    case 1: must(db, "DROP TABLE `T`"); break;
    case 2: must(db, "DROP TABLE `T`"); must(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `V` SHORT PRIMARY KEY `K`)"); must(db, "INSERT INTO `T` (`K`,`V`) VALUES (11,3)"); break;
    case 3: must(db, "DROP TABLE `T`"); must(db, "CREATE TABLE `T` (`Z` SHORT NOT NULL PRIMARY KEY `Z`)"); must(db, "INSERT INTO `T` (`Z`) VALUES (11)"); break;
    case 4: must(db, "DELETE FROM `T`"); break;
    case 5: CHECK(commit(db), "commit"); break;
    case 6: g_object_unref(db); break;
    }
    switch (sym_choose(4)) { case 0: safe_fetch(q); break; case 1: info(q, -1); break; case 2: q_close(q); safe_fetch(q); break; case 3: safe_fetch(q); safe_fetch(q); break; }
    if (k < 8) {
        LibmsiRecord *r = par(k, &t); gboolean ok = q_exec(q, r); if (r) g_object_unref(r); pos = 0;
        if (ev == 5 || ev == 6 || (ev == 0 && k < 7)) { CHECK(ok, "the query can be executed again"); while (step(q, k, &t, &pos, 0)) ; WITNESS("again"); }
        else if (k < 6 && ev == 1) { CHECK(!ok, "a dropped table cannot be read"); WITNESS("dropped"); }
        else if (k < 6 && ev == 4) { CHECK(ok, "an empty table can be read"); GError *e = NULL; CHECK(!libmsi_query_fetch(q, &e) && !e, "and has no rows"); }
        else if (k == 0 && ev == 2) { CHECK(ok, "the new table is read"); GError *e = NULL; r = libmsi_query_fetch(q, &e); CHECK(r && rec_is(r, 1, c_int(11)) && rec_is(r, 2, c_int(3)), "the row of the new table"); g_object_unref(r); WITNESS("new"); }
        else if (ok) { safe_fetch(q); safe_fetch(q); }
    } else if (ev != 6) {
        gboolean ok = q_exec(q, p);
        if (ev == 1) CHECK(!ok, "a dropped table cannot be changed");
        if (ev == 0 || ev == 2 || ev == 5) {
            int rows = n_rows(db, "SELECT `K` FROM `T`", NULL), was = ev == 2 ? 1 : 3;
            if (k == 8) { CHECK(ok == (ev == 2 || !done) , "one insertion of a key is accepted"); CHECK(rows == was + 1, "the row is in the table"); WITNESS("changed"); }
            if (k == 9) { CHECK(ok, "an update executes"); Cell w[2] = { c_int(11), c_int(5) }; CHECK(rows_are(db, "SELECT `K`,`V` FROM `T` WHERE `K`=11", NULL, 1, 2, w), "the row is updated"); }
            if (k == 10) { CHECK(ok, "a deletion executes"); CHECK(rows == was - 1, "the row is gone"); }
        }
    }
    g_object_unref(q); if (p) g_object_unref(p); if (ev != 6) { must(db, "CREATE TABLE `N` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)"); CHECK(commit(db), "commit"); g_object_unref(db); }
}
