// Joins return exactly the combinations that satisfy WHERE, and ORDER BY sorts them.
//@ run h_join engine=msym lib=all workers=4 timeout=400 covers="2x2 rows, 6 join conditions with up to two ? parameters in any position, every 16-bit key and value"
//@ run h_join3 engine=msym lib=all workers=3 timeout=400 covers="three tables of up to 2 rows, chained equality"
//@ run h_order engine=msym lib=all workers=4 timeout=400 covers="ORDER BY one and two integer columns (SHORT and LONG), 3 rows, NULLs, every value"
//@ run h_order_join engine=msym lib=all workers=3 timeout=400 covers="ORDER BY across a join of 2x2 rows"
//@ run h_join_str engine=msym lib=all workers=3 timeout=400 covers="join on strings and string/integer parameters in either order, 2x2 rows, 1-character strings"
//@ assume ORDER BY on string columns is not covered: the library orders strings by identity, documented nowhere
#include "db.h"
typedef struct { int a, b; } R;
static void fill(LibmsiDatabase *db, const char *sql, R *r, int n)
{
    for (int i = 0; i < n; i++) {
        r[i].a = sym_int16().i; r[i].b = sym_int16().i;
        if (i) ASSUME(r[i].a > r[i - 1].a);      /* rows are kept in key order */
        Cell c[2] = { c_int(r[i].a), c_int(r[i].b) };
        CHECK(exr(db, sql, 2, c), "insert");
    }
}
void h_join(void)
{
    static const char *const w[] = {
        "SELECT `T`.`A`,`U`.`D` FROM `T`,`U` WHERE `T`.`B` = `U`.`C`",
        "SELECT `T`.`A`,`U`.`D` FROM `T`,`U` WHERE `T`.`B` = `U`.`C` AND `U`.`D` = ?",
        "SELECT `T`.`A`,`U`.`D` FROM `T`,`U` WHERE `U`.`D` > ? AND `T`.`A` <= ?",
        "SELECT `T`.`A`,`U`.`D` FROM `T`,`U` WHERE `T`.`A` = ? OR `U`.`C` = ?",
        "SELECT `T`.`A`,`U`.`D` FROM `T`,`U` WHERE `T`.`A` <> `U`.`C` AND `T`.`B` < ?",
        "SELECT `T`.`A`,`U`.`D` FROM `T`,`U`" };
    LibmsiDatabase *db = db_create("/a.msi"); R t[2], u[2]; Cell want[4][2], p[2]; unsigned n = 0, k = sym_choose(6);
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)"); must(db, "CREATE TABLE `U` (`C` SHORT NOT NULL, `D` SHORT PRIMARY KEY `C`)");
    fill(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", t, 2); fill(db, "INSERT INTO `U` (`C`,`D`) VALUES (?,?)", u, 2);
    p[0] = sym_int16(); p[1] = sym_int16(); LibmsiRecord *par = rec_of(2, p); int x = p[0].i, y = p[1].i;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
        int ok = 1;
        switch (k) {
        case 0: ok = t[i].b == u[j].a; break;
        case 1: ok = t[i].b == u[j].a && u[j].b == x; break;
        case 2: ok = u[j].b > x && t[i].a <= y; break;
        case 3: ok = t[i].a == x || u[j].a == y; break;
        case 4: ok = t[i].a != u[j].a && t[i].b < x; break;
        }
        if (ok) { want[n][0] = c_int(t[i].a); want[n][1] = c_int(u[j].b); n++; }
    }
    CHECK(rows_are_set(db, w[k], par, n, 2, want[0]), "the rows are the combinations that satisfy the condition");
    WITNESS_IF(n == 0, "empty"); WITNESS_IF(n == 2, "some");
    g_object_unref(par); g_object_unref(db);
}
void h_join3(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); R t[2], u[2], v[2]; Cell want[8][2]; unsigned n = 0;
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)"); must(db, "CREATE TABLE `U` (`C` SHORT NOT NULL, `D` SHORT PRIMARY KEY `C`)");
    must(db, "CREATE TABLE `V` (`E` SHORT NOT NULL, `F` SHORT PRIMARY KEY `E`)");
    fill(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", t, 2); fill(db, "INSERT INTO `U` (`C`,`D`) VALUES (?,?)", u, 2); fill(db, "INSERT INTO `V` (`E`,`F`) VALUES (?,?)", v, 1);
    Cell p[1]; p[0] = sym_int16(); LibmsiRecord *par = rec_of(1, p); int k = sym_choose(2);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
        if (t[i].b == u[j].a && u[j].b == v[0].a && (k || v[0].b == p[0].i)) { want[n][0] = c_int(t[i].a); want[n][1] = c_int(v[0].b); n++; }
    CHECK(rows_are_set(db, k ? "SELECT `A`,`F` FROM `T`,`U`,`V` WHERE `T`.`B` = `U`.`C` AND `U`.`D` = `V`.`E`" : "SELECT `A`,`F` FROM `T`,`U`,`V` WHERE `T`.`B` = `U`.`C` AND `U`.`D` = `V`.`E` AND `V`.`F` = ?", par, n, 2, want[0]), "chained join");
    WITNESS_IF(n > 0, "joined");
    g_object_unref(par); g_object_unref(db);
}
static int lt(Cell a, Cell b) { return a.kind == 0 ? b.kind != 0 : b.kind != 0 && a.i < b.i; }
void h_order(void)
{
    static const char *const w[] = { "SELECT `A`,`B`,`C` FROM `T` ORDER BY `B`", "SELECT `A`,`B`,`C` FROM `T` ORDER BY `C`", "SELECT `A`,`B`,`C` FROM `T` ORDER BY `C`,`B`", "SELECT `A`,`B`,`C` FROM `T` WHERE `A` <> 2 ORDER BY `B`,`A`" };
    LibmsiDatabase *db = db_create("/a.msi"); Cell r[3][3]; int k = sym_choose(4);
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT, `C` LONG PRIMARY KEY `A`)");
    for (int i = 0; i < 3; i++) { r[i][0] = c_int(i); r[i][1] = i == 1 && sym_bool() ? c_null() : sym_int16(); r[i][2] = i == 2 && sym_bool() ? c_null() : sym_int32(); CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`) VALUES (?,?,?)", 3, r[i]), "insert"); }
    LibmsiQuery *q = q_new(db, w[k]); LibmsiRecord *x; int n = 0, seen[3] = { 0 }, last = -1; CHECK(q_exec(q, NULL), "execute");
    while ((x = libmsi_query_fetch(q, NULL))) {
        int i = libmsi_record_get_int(x, 1); CHECK(i >= 0 && i < 3 && !seen[i], "each row once"); i = sym_concrete(i); seen[i] = 1; n++;
        for (int c = 0; c < 3; c++) CHECK(rec_is(x, c + 1, r[i][c]), "the row is unchanged");
        if (last >= 0) {
            const Cell *a = r[last], *b = r[i];
            if (k == 0) CHECK(!lt(b[1], a[1]), "sorted by B");
            if (k == 1) CHECK(!lt(b[2], a[2]), "sorted by C");
            if (k == 2) CHECK(!lt(b[2], a[2]) && (!cell_eq(a[2], b[2]) || !lt(b[1], a[1])), "sorted by C then B");
            if (k == 3) CHECK(!lt(b[1], a[1]) && (!cell_eq(a[1], b[1]) || i > last), "sorted by B then A");
        }
        last = i; g_object_unref(x);
    }
    CHECK(n == (k == 3 ? 2 : 3), "every row is returned"); WITNESS("end");
    g_object_unref(q); g_object_unref(db);
}
void h_order_join(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); R t[2], u[2]; int k = sym_choose(2);
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)"); must(db, "CREATE TABLE `U` (`C` SHORT NOT NULL, `D` SHORT PRIMARY KEY `C`)");
    fill(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", t, 2); fill(db, "INSERT INTO `U` (`C`,`D`) VALUES (?,?)", u, 2);
    LibmsiQuery *q = q_new(db, k ? "SELECT `B`,`D` FROM `T`,`U` ORDER BY `D`,`B`" : "SELECT `B`,`D` FROM `T`,`U` WHERE `T`.`A` <> `U`.`C` ORDER BY `D`"); CHECK(q_exec(q, NULL), "execute");
    LibmsiRecord *x; int n = 0, m = 0, pb = 0, pd = 0;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (k || t[i].a != u[j].a) m++;
    while ((x = libmsi_query_fetch(q, NULL))) {
        int b = libmsi_record_get_int(x, 1), d = libmsi_record_get_int(x, 2); g_object_unref(x);
        CHECK((b == t[0].b || b == t[1].b) && (d == u[0].b || d == u[1].b), "values come from the tables");
        if (n++) CHECK(pd < d || (pd == d && (!k || pb <= b)), "sorted");
        pb = b; pd = d;
    }
    CHECK(n == m, "as many rows as combinations"); WITNESS("end");
    g_object_unref(q); g_object_unref(db);
}

void h_join_str(void)
{
    static const char *const w[] = {
        "SELECT `A`,`D` FROM `T`,`U` WHERE `T`.`B` = `U`.`C`",
        "SELECT `A`,`D` FROM `T`,`U` WHERE `T`.`B` = ? AND `U`.`D` = ?",
        "SELECT `A`,`D` FROM `T`,`U` WHERE `U`.`D` = ? AND `T`.`B` = ?",
        "SELECT `A`,`D` FROM `T`,`U` WHERE `U`.`C` = ? AND `T`.`A` = ?",
        "SELECT `A`,`D` FROM `T`,`U` WHERE `T`.`B` <> ? AND `U`.`C` <> ?" };
    LibmsiDatabase *db = db_create("/a.msi"); Cell t[2][2], u[2][2], want[4][2]; unsigned n = 0, k = sym_choose(5); char s[2][2], v[2][2];
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(8) PRIMARY KEY `A`)"); must(db, "CREATE TABLE `U` (`C` CHAR(8) NOT NULL, `D` SHORT PRIMARY KEY `C`)");
    for (int i = 0; i < 2; i++) { sym_text(s[i], 1, 'a', 'z'); t[i][0] = c_int(i + 1); t[i][1] = c_str(s[i]); CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, t[i]), "insert"); }
    for (int i = 0; i < 2; i++) { sym_text(v[i], 1, 'a', 'z'); if (i) ASSUME(v[0][0] != v[1][0]); u[i][0] = c_str(v[i]); u[i][1] = sym_int16(); CHECK(exr(db, "INSERT INTO `U` (`C`,`D`) VALUES (?,?)", 2, u[i]), "insert"); }
    char ps[2][2]; Cell p[2]; sym_text(ps[0], 1, 'a', 'z'); sym_text(ps[1], 1, 'a', 'z'); int x = sym_int16().i;
    p[0] = c_str(ps[0]); p[1] = c_str(ps[1]);
    if (k == 1 || k == 3) p[1] = c_int(x);
    if (k == 2) { p[0] = c_int(x); }
    LibmsiRecord *par = rec_of(2, p);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
        char b = s[i][0], c = v[j][0]; int d = u[j][1].i, ok;
        switch (k) {
        case 0: ok = b == c; break;
        case 1: ok = b == ps[0][0] && d == x; break;
        case 2: ok = d == x && b == ps[1][0]; break;
        case 3: ok = c == ps[0][0] && i + 1 == x; break;
        default: ok = b != ps[0][0] && c != ps[1][0]; break;
        }
        if (ok) { want[n][0] = t[i][0]; want[n][1] = u[j][1]; n++; }
    }
    CHECK(rows_are_set(db, w[k], par, n, 2, want[0]), "the rows are the combinations that satisfy the condition");
    WITNESS_IF(n == 1, "one"); WITNESS_IF(n == 2, "two");
    g_object_unref(par); g_object_unref(db);
}
