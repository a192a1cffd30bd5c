// UPDATE changes exactly the named columns of exactly the matching rows.
//@ run h_update engine=msym lib=all timeout=300 workers=6 covers="3 rows x 4 columns; one to three assigned columns, strings new, equal to the old value, or NULL; WHERE on a non-key, a key, or none; every value"
#include "db.h"
void h_update(void)
{
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT, `C` CHAR(8), `D` LONG PRIMARY KEY `A`)");
    Cell t[3][4], p[3]; char s[3];
    for (int i = 0; i < 3; i++) {
        sym_text(s, 1, 'a', 'z');
        t[i][0] = c_int(i); t[i][1] = sym_int16(); t[i][2] = c_str(s); t[i][3] = i ? c_int(i * 100000) : c_null();
        CHECK(exr(db, "INSERT INTO `T` (`A`,`B`,`C`,`D`) VALUES (?,?,?,?)", 4, t[i]), "insert");
    }
    int k = sym_choose(7);
    Cell v = sym_int16(), d = sym_choose(2) ? sym_int32() : c_null(), c; int cl = sym_choose(3); sym_text(s, cl, 'a', 'z'); c = c_str(s);   /* "" is NULL */
    gboolean ok = FALSE;
    switch (k) {
    case 0: p[0] = d; p[1] = v; ok = exr(db, "UPDATE `T` SET `D` = ? WHERE `B` = ?", 2, p); break;
    case 1: p[0] = c; p[1] = d; p[2] = v; ok = exr(db, "UPDATE `T` SET `C` = ?, `D` = ? WHERE `A` = ?", 3, p); break;
    case 2: p[0] = c; ok = exr(db, "UPDATE `T` SET `C` = ?", 1, p); break;
    case 3: p[0] = d; p[1] = t[1][2]; ok = exr(db, "UPDATE `T` SET `D` = ? WHERE `C` = ?", 2, p); break;
    case 4: p[0] = v; ok = exr(db, "UPDATE `T` SET `B` = 77, `C` = 'lit' WHERE `B` >= ?", 1, p); break;
    case 6: p[0] = v; p[1] = c; p[2] = d; ok = exr(db, "UPDATE `T` SET `B` = ?, `C` = ?, `D` = ?", 3, p); break;
    case 5: ok = exr(db, "UPDATE `T` SET `D` = -3 WHERE `B` IS NOT NULL", 0, p); break;
    }
    for (int i = 0; i < 3; i++) {
        int hit = k == 0 ? t[i][1].i == v.i : k == 1 ? t[i][0].i == v.i : k == 2 ? 1 : k == 3 ? cell_eq(t[i][2], t[1][2]) : k == 4 ? t[i][1].i >= v.i : 1;
        if (!hit) continue;
        WITNESS_IF(i == 2, "row matched");
        if (k == 0 || k == 1 || k == 3 || k == 6) t[i][3] = d;
        if (k == 1 || k == 2 || k == 6) t[i][2] = c;
        if (k == 6) t[i][1] = v;
        if (k == 4) { t[i][1] = c_int(77); t[i][2] = c_str("lit"); }
        if (k == 5) t[i][3] = c_int(-3);
    }
    CHECK(ok, "update executes");
    CHECK(rows_are(db, "SELECT `A`,`B`,`C`,`D` FROM `T`", NULL, 3, 4, t[0]), "exactly the named cells changed");
    g_object_unref(db);
}
