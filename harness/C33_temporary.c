// Temporary rows and tables are visible in the session, never saved, and never disturb what is saved next to them.
//@ run h_rows engine=msym lib=all workers=5 timeout=500 covers="3 rows, each persistent or temporary, any distinct 16-bit keys, 3 shared or distinct strings, then an optional UPDATE or DELETE, commit, reopen"
//@ run h_tables engine=msym lib=all workers=2 timeout=300 covers="2 persistent and 1 temporary table created in every order, sharing column names and strings, rows in each, commit, reopen"
#include "db.h"
static const char *const txt[3] = { "xx", "yy", "zz" };
void h_rows(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); Cell row[3][2], want[6]; int temp[3], n = 0;
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(8) PRIMARY KEY `A`)");
    for (int i = 0; i < 3; i++) {
        row[i][0] = sym_int16(); row[i][1] = c_str(txt[i < 2 ? sym_choose(i + 1) : sym_choose(3)]); temp[i] = sym_bool();
        for (int k = 0; k < i; k++) ASSUME(row[i][0].i != row[k][0].i);
        CHECK(exr(db, temp[i] ? "INSERT INTO `T` (`A`,`B`) VALUES (?,?) TEMPORARY" : "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, row[i]), "insert");
    }
    CHECK(rows_are_set(db, "SELECT `A`,`B` FROM `T`", NULL, 3, 2, &row[0][0]), "every row is visible in the session");
    int op = sym_choose(3), skip = -1;
    if (op == 1) { Cell p[2] = { row[1][1], row[0][0] }; row[0][1] = row[1][1]; CHECK(exr(db, "UPDATE `T` SET `B` = ? WHERE `A` = ?", 2, p), "update"); }
    if (op == 2) { skip = 1; CHECK(exr(db, "DELETE FROM `T` WHERE `A` = ?", 1, &row[1][0]), "delete"); }
    for (int i = 0; i < 3; i++) if (!temp[i] && i != skip) { want[2 * n] = row[i][0]; want[2 * n + 1] = row[i][1]; n++; }
    CHECK(commit(db), "commit"); g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    CHECK(rows_are_set(db, "SELECT `A`,`B` FROM `T`", NULL, n, 2, want), "the file holds exactly the persistent rows");
    WITNESS("end"); WITNESS_IF(n == 3, "all"); WITNESS_IF(n == 0, "none");
    g_object_unref(db);
}
void h_tables(void)
{
    static const char *const mk[3] = { "CREATE TABLE `P` (`A` SHORT NOT NULL, `B` CHAR(8) PRIMARY KEY `A`)", "CREATE TABLE `Q` (`A` SHORT NOT NULL, `C` CHAR(8) PRIMARY KEY `A`)",
        "CREATE TABLE `X` (`A` SHORT NOT NULL TEMPORARY, `B` CHAR(8) TEMPORARY PRIMARY KEY `A`) HOLD" };
    static const char *const ins[3] = { "INSERT INTO `P` (`A`,`B`) VALUES (?,?)", "INSERT INTO `Q` (`A`,`C`) VALUES (?,?)", "INSERT INTO `X` (`A`,`B`) VALUES (?,?)" };
    static const char *const sel[3] = { "SELECT `A`,`B` FROM `P`", "SELECT `A`,`C` FROM `Q`", "SELECT `A`,`B` FROM `X`" };
    LibmsiDatabase *db = db_create("/a.msi"); Cell row[3][2]; int made[3] = { 0 }, late = sym_bool(), drop = sym_bool(); GError *e = NULL;
    for (int k = 0; k < 3; k++) {
        int i = sym_choose(3); ASSUME(!made[i]); made[i] = 1; must(db, mk[i]);
        row[i][0] = sym_int16(); row[i][1] = c_str(txt[k < 2 ? 0 : sym_choose(2)]);
        if (!late) CHECK(exr(db, ins[i], 2, row[i]), "insert");
    }
    if (late) for (int i = 3; i-- > 0;) CHECK(exr(db, ins[i], 2, row[i]), "insert");
    for (int i = 0; i < 3; i++) CHECK(rows_are(db, sel[i], NULL, 1, 2, row[i]), "rows visible in the session");
    CHECK(!libmsi_database_is_table_persistent(db, "X", &e) && !e, "a table of temporary columns is not persistent");
    CHECK(libmsi_database_is_table_persistent(db, "P", &e) && !e, "others are");
    if (drop) must(db, "DROP TABLE `X`");
    CHECK(commit(db), "commit"); g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    for (int i = 0; i < 2; i++) CHECK(rows_are(db, sel[i], NULL, 1, 2, row[i]), "persistent tables keep their rows");
    LibmsiQuery *q = q_try(db, sel[2]); CHECK(!q, "the temporary table is gone");
    CHECK(n_rows(db, "SELECT `Name` FROM `_Tables`", NULL) == 2 && n_rows(db, "SELECT `Name` FROM `_Columns`", NULL) == 4, "nothing of it is in the catalog");
    WITNESS("end"); g_object_unref(db);
}
