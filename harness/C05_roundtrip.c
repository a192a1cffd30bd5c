// Rows of every column type survive commit and reopen.
//@ run h_cells engine=msym lib=all workers=4 timeout=400 covers="2 rows, SHORT key, LONG, CHAR, LONGCHAR; every value"
//@ run h_wide engine=msym lib=all workers=4 timeout=300 covers="tables of 31..33 and 40 columns of mixed types, 2 rows, any one cell arbitrary or NULL, one cell updated: read back in the session and after commit and reopen"
//@ run h_rows engine=msym lib=all workers=4 timeout=300 steps=200000000 covers="tables of 1, 64 and 255..257 rows, any value in any one of 5 rows, in ascending, descending or mixed key order: read back, found by key, and after commit and reopen"
//@ run h_kinds engine=msym lib=all workers=2 timeout=200 covers="any integer for a CHAR column, any 0..2 characters or decimal number as text for a LONG or SHORT column, by INSERT and UPDATE, key or not: refused without a trace or returned"
#include "db.h"
void h_cells(void)
{
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` LONG, `C` CHAR(10), `D` LONGCHAR LOCALIZABLE, `E` SHORT PRIMARY KEY `A`)");
    Cell r[2][5];
    for (int i = 0; i < 2; i++) {
        char s[4];
        r[i][0] = sym_int16();
        r[i][1] = sym_bool() ? sym_int32() : c_null();
        sym_text(s, 2, 'a', 0x7f); r[i][2] = sym_bool() ? c_str(s) : c_null();
        sym_text(s, 1, 'a', 0x7f); r[i][3] = c_str(s);
        r[i][4] = sym_bool() ? sym_int16() : c_null();
    }
    ASSUME(r[0][0].i < r[1][0].i);
    int swap = sym_bool();
    for (int i = 0; i < 2; i++) CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`,`D`,`E`) VALUES (?,?,?,?,?)", 5, r[i ^ swap]), "insert");
    CHECK(rows_are_set(db, "SELECT * FROM `T`", NULL, 2, 5, r[0]), "rows are visible as inserted");
    CHECK(commit(db), "commit");
    CHECK(rows_are_set(db, "SELECT * FROM `T`", NULL, 2, 5, r[0]), "rows are visible after commit");
    g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    CHECK(rows_are_set(db, "SELECT * FROM `T`", NULL, 2, 5, r[0]), "rows are the same after reopen");
    WITNESS("end");
    g_object_unref(db);
}

static char *add(char *p, const char *t) { while (*t) *p++ = *t++; *p = 0; return p; }
static char *col(char *p, int i) { *p++ = '`'; *p++ = 'c'; *p++ = '0' + i / 10; *p++ = '0' + i % 10; *p++ = '`'; *p = 0; return p; }
void h_wide(void)
{
    static const int ns[4] = { 31, 32, 33, 40 }; static const int at[6] = { 1, 15, 16, 30, 31, 39 };
    int n = ns[sym_choose(4)], x = at[sym_choose(6)]; ASSUME(x < n); char sql[1200], *p; Cell w[2][40], v;
    LibmsiDatabase *db = db_create("/a.msi");
    p = add(sql, "CREATE TABLE `T` ("); for (int i = 0; i < n; i++) { if (i) p = add(p, ", "); p = add(col(p, i), i % 3 == 0 ? " SHORT" : i % 3 == 1 ? " CHAR(9)" : " LONG"); if (!i) p = add(p, " NOT NULL"); } add(p, " PRIMARY KEY `c00`)");
    if (!ex(db, sql, NULL)) { CHECK(n > 32, "a table of up to 32 columns can be made"); WITNESS("end"); g_object_unref(db); return; }
    for (int r = 0; r < 2; r++) for (int i = 0; i < n; i++) w[r][i] = i == 0 ? c_int(r + 1) : i % 3 == 1 ? c_str(i & 1 ? "ab" : "cd") : c_int(100 * r + i);
    w[1][x] = sym_bool() ? c_null() : x % 3 == 1 ? c_str("new") : sym_int16();
    p = add(sql, "INSERT INTO `T` ("); for (int i = 0; i < n; i++) { if (i) p = add(p, ","); p = col(p, i); } p = add(p, ") VALUES ("); for (int i = 0; i < n; i++) p = add(p, i ? ",?" : "?"); add(p, ")");
    for (int r = 0; r < 2; r++) CHECK(exr(db, sql, n, w[r]), "insert");
    v = x % 3 == 1 ? c_str("upd") : sym_int16(); Cell up[2] = { v, c_int(1) }; w[0][x] = v;
    p = add(sql, "UPDATE `T` SET "); p = col(p, x); add(p, " = ? WHERE `c00` = ?"); if (!exr(db, sql, 2, up)) { CHECK(n > 32, "any column can be updated"); g_object_unref(db); return; }
    p = add(sql, "SELECT "); for (int i = 0; i < n; i++) { if (i) p = add(p, ","); p = col(p, i); } add(p, " FROM `T`");
    for (int pass = 0; pass < 2; pass++) {
        LibmsiQuery *q = q_new(db, pass ? sql : "SELECT * FROM `T`"); CHECK(q_exec(q, NULL), "select");
        for (int r = 0; r < 2; r++) {
            LibmsiRecord *rec = libmsi_query_fetch(q, NULL); CHECK(rec && libmsi_record_get_field_count(rec) == n, "a row with every column");
            for (int i = 0; i < n; i++) CHECK(rec_is(rec, i + 1, w[r][i]), "holds what was stored"); g_object_unref(rec);
        }
        CHECK(!libmsi_query_fetch(q, NULL), "no more rows"); g_object_unref(q);
        if (!pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens"); }
    }
    WITNESS("end"); g_object_unref(db);
}
void h_rows(void)
{
    static const int ns[5] = { 1, 64, 255, 256, 257 }; int n = ns[sym_choose(5)], order = sym_choose(3), x = sym_choose(5) * n / 5, up = sym_bool();
    Cell v = sym_int32(), k; LibmsiDatabase *db = db_create("/a.msi"); LibmsiRecord *r;
    must(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `V` LONG, `S` CHAR(8) PRIMARY KEY `K`)");
    LibmsiQuery *q = q_new(db, "INSERT INTO `T` (`K`,`V`,`S`) VALUES (?,?,?)");
    for (int i = 0; i < n; i++) {
        int j = order == 0 ? i : order == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2;
        Cell c[3] = { c_int(j + 1), j == x && !up ? v : c_int(j * 3), c_str(j & 1 ? "o" : "e") }; r = rec_of(3, c); CHECK(q_exec(q, r), "insert"); g_object_unref(r);
    }
    g_object_unref(q); k = c_int(x + 1);
    if (up) { Cell c[2] = { v, k }; CHECK(exr(db, "UPDATE `T` SET `V` = ? WHERE `K` = ?", 2, c), "update"); }
    { Cell c[3] = { k, v, c_null() }; CHECK(!exr(db, "INSERT INTO `T` (`K`,`V`,`S`) VALUES (?,?,?)", 3, c), "a key exists once"); }
    for (int pass = 0; pass < 2; pass++) {
        Cell w[2] = { k, v }; r = rec_of(1, &k); CHECK(rows_are(db, "SELECT `K`,`V` FROM `T` WHERE `K` = ?", r, 1, 2, w), "a row is found by its key"); g_object_unref(r);
        q = q_new(db, "SELECT `K`,`V`,`S` FROM `T`"); CHECK(q_exec(q, NULL), "select"); unsigned char seen[260] = { 0 };
        for (int i = 0; i < n; i++) {
            r = libmsi_query_fetch(q, NULL); CHECK(r != NULL, "every row"); int j = libmsi_record_get_int(r, 1) - 1; CHECK(j >= 0 && j < n && !seen[j], "once"); seen[j] = 1;
            CHECK(rec_is(r, 2, j == x ? v : c_int(j * 3)) && rec_is(r, 3, c_str(j & 1 ? "o" : "e")), "holds what was stored"); g_object_unref(r);
        }
        CHECK(!libmsi_query_fetch(q, NULL), "no more rows"); g_object_unref(q);
        if (!pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens"); }
    }
    WITNESS("end"); g_object_unref(db);
}

void h_kinds(void)
{
    int k = sym_choose(4), upd = sym_bool(), num = k == 3 ? 1 : sym_bool(); char s[8] = ""; Cell v, w[6] = { c_int(1), c_null(), c_null(), c_int(2), c_str("x"), c_int(7) };
    LibmsiDatabase *db = db_create("/a.msi"); must(db, k == 2 ? "CREATE TABLE `T` (`K` SHORT NOT NULL, `C` CHAR(8) NOT NULL, `L` LONG PRIMARY KEY `K`,`C`)" : k == 1 ? "CREATE TABLE `T` (`K` SHORT NOT NULL, `C` CHAR(8), `L` LONG PRIMARY KEY `K`)" : "CREATE TABLE `T` (`K` SHORT NOT NULL, `C` CHAR(8), `L` SHORT PRIMARY KEY `K`)");
    if (k == 2) { w[1] = c_str("q"); }
    CHECK(exr(db, "INSERT INTO `T` (`K`,`C`,`L`) VALUES (?,?,?)", 3, w), "insert"); CHECK(exr(db, "INSERT INTO `T` (`K`,`C`,`L`) VALUES (?,?,?)", 3, w + 3), "insert");
    if (k >= 2) { int d = sym_u8() % 16; v = c_int(d * 20000 - 150000); }
    else if (num) { static const char *const t[6] = { "0", "12", "-7", "32767", "32768", "999999" }; v = c_str(t[sym_choose(6)]); }
    else { int n = sym_choose(3); sym_text(s, n, 1, 127); v = c_str(s); }
    int at = k >= 2 ? 1 : 2; Cell p[3] = { c_int(5), k == 2 ? c_str("q") : c_null(), c_null() }, u[2] = { v, c_int(2) }; gboolean ok;
    if (upd) ok = exr(db, k >= 2 ? "UPDATE `T` SET `C` = ? WHERE `K` = ?" : "UPDATE `T` SET `L` = ? WHERE `K` = ?", 2, u);
    else { p[at] = v; ok = exr(db, "INSERT INTO `T` (`K`,`C`,`L`) VALUES (?,?,?)", 3, p); }
    if (v.kind == 2 && num && (k == 1 || strlen(v.s) < 5)) CHECK(ok, "a number is accepted as text");
    for (int pass = 0; pass < 2; pass++) {
        LibmsiQuery *q = q_new(db, "SELECT `K`,`C`,`L` FROM `T`"); LibmsiRecord *r; int n = 0; CHECK(q_exec(q, NULL), "select");
        while ((r = libmsi_query_fetch(q, NULL))) {
            int key = libmsi_record_get_int(r, 1), hit = ok && key == (upd ? 2 : 5); n++;
            for (int i = 1; i < 3; i++) {
                Cell want = hit && i == at ? v : key == 1 ? w[i] : key == 2 ? w[3 + i] : p[i];
                if (hit && i == at && want.kind == 2) {
                    const char *t = want.s; int neg = *t == '-', x = 0; if (neg) t++; CHECK(*t, "digits"); for (; *t; t++) { CHECK(*t >= '0' && *t <= '9', "text other than a number is refused"); x = x * 10 + *t - '0'; }
                    CHECK(rec_is(r, i + 1, c_int(neg ? -x : x)), "a value that was accepted is returned");
                }
                else CHECK(rec_is(r, i + 1, want), "a refused one changes nothing");
            }
            g_object_unref(r);
        }
        CHECK(n == 2 + (ok && !upd), "rows"); g_object_unref(q);
        if (!pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); }
    }
    WITNESS_IF(ok, "accepted"); WITNESS_IF(!ok, "refused"); g_object_unref(db);
}
