// INSERT accepts exactly the legal rows and a refused row leaves no trace.
//@ run h_insert engine=msym lib=all timeout=400 workers=3 covers="3 inserts into (A SHORT NOT NULL, B CHAR NOT NULL, C SHORT, key A,B); every 32-bit A and C, NULLs, 1-character B"
//@ run h_cols engine=msym lib=all timeout=200 covers="column list of an INSERT in any order, missing columns are NULL; literal and ? values"
//@ run h_notnull engine=msym lib=all workers=2 timeout=200 covers="(A SHORT key, B CHAR NOT NULL, C SHORT NOT NULL, D LONG NOT NULL, E CHAR, F LONG): every combination of NULL, empty and set values, given as ? or left out of the column list"
#include "db.h"
static Cell val(void) { return sym_choose(2) ? sym_int32() : c_null(); }
static int short_ok(Cell c) { return c.kind == 0 || (c.i >= -32767 && c.i <= 32767); }
static Cell norm(Cell c) { return c; }
void h_insert(void)
{
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(4) NOT NULL, `C` SHORT PRIMARY KEY `A`, `B`)");
    Cell t[3][3]; unsigned n = 0;
    LibmsiQuery *q = q_new(db, "INSERT INTO `T` (`A`,`B`,`C`) VALUES (?,?,?)");
    for (int k = 0; k < 3; k++) {
        Cell r[3]; char s[3];
        if (k < 1) { r[0] = val(); r[2] = val(); } else { r[0] = sym_int16(); r[2] = k == 1 ? sym_int32() : c_int(7); }
        int len = k == 2 ? 1 : sym_choose(2); sym_text(s, len, 'a', 'z'); r[1] = c_str(s);
        int legal = short_ok(r[0]) && short_ok(r[2]) && norm(r[0]).kind && r[1].kind, dup = 0;
        for (unsigned j = 0; j < n; j++) if (cell_eq(t[j][0], r[0]) && cell_eq(t[j][1], r[1])) dup = 1;
        LibmsiRecord *p = rec_of(3, r);
        gboolean ok = q_exec(q, p);
        g_object_unref(p);
        CHECK(ok == (legal && !dup), "INSERT succeeds exactly for a legal row with a new key");
        if (ok) { t[n][0] = r[0]; t[n][1] = r[1]; t[n][2] = norm(r[2]); n++; }
        WITNESS_IF(ok, "accepted"); WITNESS_IF(!ok && legal, "duplicate refused"); WITNESS_IF(!ok && !legal, "illegal refused");
    }
    g_object_unref(q);
    CHECK(rows_are_set(db, "SELECT `A`,`B`,`C` FROM `T`", NULL, n, 3, t[0]), "the table holds exactly the accepted rows");
    g_object_unref(db);
}
void h_cols(void)
{
    static const char *sql[] = {
        "INSERT INTO `T` (`C`,`A`,`B`) VALUES (?,?,?)", "INSERT INTO `T` (`B`,`C`,`A`) VALUES (?,?,?)",
        "INSERT INTO `T` (`A`,`C`) VALUES (?,?)", "INSERT INTO `T` (`B`,`A`) VALUES ('xy',?)",
        "INSERT INTO `T` (`A`,`B`,`C`) VALUES (?,'xy',-5)", "INSERT INTO `T` (`C`,`A`) VALUES (?,12)" };
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(4), `C` LONG PRIMARY KEY `A`)");
    Cell a = sym_int16(), b, c = sym_int32(), p[3], want[3]; char s[3]; int np;
    sym_text(s, 2, 'a', 'z'); b = c_str(s);
    int k = sym_choose(6);
    want[0] = a; want[1] = b; want[2] = c;
    switch (k) {
    case 0: p[0] = c; p[1] = a; p[2] = b; np = 3; break;
    case 1: p[0] = b; p[1] = c; p[2] = a; np = 3; break;
    case 2: p[0] = a; p[1] = c; np = 2; want[1] = c_null(); break;
    case 3: p[0] = a; np = 1; want[1] = c_str("xy"); want[2] = c_null(); break;
    case 4: p[0] = a; np = 1; want[1] = c_str("xy"); want[2] = c_int(-5); break;
    default: p[0] = c; np = 1; want[0] = c_int(12); want[1] = c_null(); break;
    }
    CHECK(exr(db, sql[k], np, p), "insert");
    CHECK(rows_are(db, "SELECT `A`,`B`,`C` FROM `T`", NULL, 1, 3, want), "every value reached its column");
    WITNESS("end");
    g_object_unref(db);
}
static Cell some(int j, int how) { return how == 0 ? c_null() : j == 1 || j == 4 ? c_str(how == 1 ? "" : "v") : sym_int16(); }
void h_notnull(void)
{
    static const char *const nm[6] = { "`A`", "`B`", "`C`", "`D`", "`E`", "`F`" };
    LibmsiDatabase *db = db_create("/a.msi"); Cell t[2][6], v[6]; unsigned n = 0;
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(4) NOT NULL, `C` SHORT NOT NULL, `D` LONG NOT NULL, `E` CHAR(4), `F` LONG PRIMARY KEY `A`)");
    t[0][0] = c_int(1); t[0][1] = c_str("q"); t[0][2] = c_int(2); t[0][3] = c_int(3); t[0][4] = c_str("r"); t[0][5] = c_int(4);
    CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`,`D`,`E`,`F`) VALUES (?,?,?,?,?,?)", 6, t[0]), "insert"); n = 1;
    int odd = 1 + sym_choose(5), leave = sym_bool(), bad;
    v[0] = c_int(5); for (int j = 1; j < 6; j++) v[j] = some(j, j == odd ? leave ? 0 : sym_choose(j == 1 || j == 4 ? 3 : 2) : 2);
    bad = odd < 4 && v[odd].kind == 0;
    char sql[200], val[40] = ""; Cell p[6]; unsigned np = 0;
    {
        strcpy(sql, "INSERT INTO `T` (");
        for (int j = 0; j < 6; j++) if (!(leave && j == odd)) { if (np) { strcat(sql, ","); strcat(val, ","); } strcat(sql, nm[j]); strcat(val, "?"); p[np++] = v[j]; }
        strcat(sql, ") VALUES ("); strcat(sql, val); strcat(sql, ")");
        CHECK(exr(db, sql, np, p) == !bad, "INSERT succeeds exactly when every NOT NULL column has a value"); if (!bad) { memcpy(t[1], v, sizeof v); n = 2; }
    }
    CHECK(rows_are_set(db, "SELECT `A`,`B`,`C`,`D`,`E`,`F` FROM `T`", NULL, n, 6, t[0]), "and a refused one changes nothing");
    WITNESS_IF(bad, "refused"); WITNESS_IF(!bad, "accepted"); g_object_unref(db);
}
