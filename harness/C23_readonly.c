// Work that is not committed, or done on a read-only database, never changes the file.
//@ run h_uncommitted engine=msym lib=all workers=6 timeout=400 covers="every history of 2 of 12 modifying operations (any values) on a database opened read-only (then even committed), transacted, direct, or created over an existing file, followed by closing; also after an earlier commit"
//@ run h_failed_open engine=msym lib=all workers=2 timeout=200 covers="opening a missing, a foreign, an empty or a wrong-class file in every mode, with and without an output path that exists: no file changes"
#include "commit.h"
static const char *const ops[] = { "INSERT INTO `T` (`K`,`S`) VALUES (?,?)", "UPDATE `T` SET `S` = 'zz'", "DELETE FROM `T`", "DROP TABLE `T`", "CREATE TABLE `N` (`A` SHORT PRIMARY KEY `A`)", "ALTER TABLE `T` ADD `C` SHORT",
    "DELETE FROM `_Streams` WHERE `Name` = 'old'", "DELETE FROM `_Storages` WHERE `Name` = 'stg'" };
static void modify(LibmsiDatabase *db)
{
    int k = sym_choose(12); Cell c[2] = { sym_int16(), c_str("q") };
    if (k == 0) exr(db, ops[0], 2, c);
    else if (k < 8) ex(db, ops[k], NULL);
    else if (k == 8 || k == 9) {
        LibmsiRecord *r = libmsi_record_new(2); uint8_t d[1] = { 1 }; libmsi_record_set_string(r, 1, sym_bool() ? "old" : "s2"); env_put("/d", k == 8 ? env_mem_file(d, 1) : env_ole_blob(nested(3)));
        CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); ex(db, k == 8 ? "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)" : "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)", r); g_object_unref(r);
    } else if (k == 10) {
        GError *e = NULL; LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 3, &e); g_clear_error(&e);
        if (si) { libmsi_summary_info_set_string(si, LIBMSI_PROPERTY_TITLE, "t", NULL); libmsi_summary_info_persist(si, &e); g_clear_error(&e); g_object_unref(si); }
    } else {
        static const char t[] = "A\ns2\nImp\tA\n1\n"; GError *e = NULL; env_put("/i.idt", env_mem_file(t, sizeof t - 1)); libmsi_database_import(db, "/i.idt", &e); g_clear_error(&e);
    }
}
void h_uncommitted(void)
{
    static const unsigned fl[] = { LIBMSI_DB_FLAGS_READONLY, LIBMSI_DB_FLAGS_TRANSACT, 0, LIBMSI_DB_FLAGS_CREATE };
    int mode = sym_choose(4), after; GError *e = NULL;
    LibmsiDatabase *db = db_create("/a.msi"); base(db); CHECK(commit(db), "commit"); g_object_unref(db);
    Node *was = env_file("/a.msi"), *copy = clone(was);
    db = libmsi_database_new("/a.msi", fl[mode], NULL, &e); CHECK(db && !e, "opens");
    if (mode == 3) base(db);
    after = mode && sym_bool(); if (after) { CHECK(commit(db), "commit"); was = env_file("/a.msi"); copy = clone(was); }
    modify(db); modify(db);
    if (mode == 0 && sym_bool()) { libmsi_database_commit(db, &e); g_clear_error(&e); WITNESS("read-only commit"); }
    g_object_unref(db);
    CHECK(env_file("/a.msi") != NULL, "the file still exists");
    CHECK(env_same(env_file("/a.msi"), copy), "the file holds the last committed content"); WITNESS("end");
}
void h_failed_open(void)
{
    static const unsigned fl[] = { LIBMSI_DB_FLAGS_READONLY, LIBMSI_DB_FLAGS_TRANSACT, 0, LIBMSI_DB_FLAGS_PATCH, LIBMSI_DB_FLAGS_PATCH | LIBMSI_DB_FLAGS_TRANSACT };
    int kind = sym_choose(4); unsigned f = fl[sym_choose(5)]; uint8_t d[3]; sym_fill(d, 3); Node *o = env_mem_file(d, 3);
    if (kind == 1) env_put("/a.msi", env_mem_file(d, 3)); if (kind == 2) env_put("/a.msi", env_mem_file(d, 0)); if (kind == 3) env_put("/a.msi", env_node(NULL, 1));
    Node *was = env_file("/a.msi"); env_put("/o.msi", o);
    GError *e = NULL; LibmsiDatabase *db = libmsi_database_new("/a.msi", f, sym_bool() ? "/o.msi" : NULL, &e);
    CHECK(!db && e, "refused"); g_error_free(e);
    CHECK(env_file("/a.msi") == was && env_file("/o.msi") == o, "a file that cannot be opened, and the output file, stay as they are"); WITNESS("end");
}
