// DELETE removes exactly the matching rows.
//@ run h_delete engine=msym lib=all timeout=300 workers=2 covers="4 rows, WHERE B = ? / B <> ? / B > ? / A = ? / no WHERE; every 16-bit value; table re-read after commit"
#include "db.h"
void h_delete(void)
{
    static const char *sql[] = { "DELETE FROM `T` WHERE `B` = ?", "DELETE FROM `T` WHERE `B` <> ?", "DELETE FROM `T` WHERE `B` > ?", "DELETE FROM `T` WHERE `A` = ?", "DELETE FROM `T`" };
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)");
    Cell t[4][2], left[4][2]; unsigned n = 0;
    for (int i = 0; i < 4; i++) {
        t[i][0] = c_int(i * 10); t[i][1] = sym_int16();
        CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, t[i]), "insert");
    }
    int k = sym_choose(5);
    Cell v = sym_int16(); 
    for (int i = 0; i < 4; i++) {
        int del = k == 0 ? t[i][1].i == v.i : k == 1 ? t[i][1].i != v.i : k == 2 ? t[i][1].i > v.i : k == 3 ? t[i][0].i == v.i : 1;
        if (!del) { left[n][0] = t[i][0]; left[n][1] = t[i][1]; n++; }
    }
    CHECK(exr(db, sql[k], k < 4, &v), "delete executes");
    CHECK(rows_are_set(db, "SELECT `A`,`B` FROM `T`", NULL, n, 2, left[0]), "exactly the matching rows are gone");
    WITNESS_IF(n == 1, "three rows deleted"); WITNESS_IF(n == 4, "none deleted");
    CHECK(commit(db), "commit");
    g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    CHECK(rows_are_set(db, "SELECT `A`,`B` FROM `T`", NULL, n, 2, left[0]), "and stay gone on disk");
    g_object_unref(db);
}
