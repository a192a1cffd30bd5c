// Opening, reading, editing and saving a database whose table streams hold any bytes is memory safe and terminates.
//@ run h_columns engine=msym lib=all workers=4 timeout=500 covers="_Columns of 2 rows with every table reference, 16-bit number and name reference, 4 column types; SELECT, key lookup"
//@ run h_types engine=msym lib=all workers=3 timeout=500 covers="a second column of every 16-bit type, number and name; 6-byte table stream of any content"
//@ run h_coltype engine=msym lib=all workers=1 timeout=300 covers="column information of a column of every 16-bit type"
//@ run h_edit engine=msym lib=all workers=2 timeout=500 covers="a column of every 16-bit type and name; INSERT, UPDATE, DELETE, ALTER, DROP and commit"
//@ run h_rows engine=msym lib=all workers=3 timeout=300 covers="table stream of every length 0..9 and any bytes under a sound catalog (string key, short, long)"
//@ run h_tables engine=msym lib=all workers=3 timeout=300 covers="_Tables stream of every length 0..3 and any bytes, _Columns of length 0..8 and any bytes, empty table"
#include "db.h"
static void drain(LibmsiDatabase *db, const char *sql)
{
    GError *e = NULL; LibmsiRecord *r; LibmsiQuery *q = q_try(db, sql); if (!q) return;
    if (q_exec(q, NULL)) while ((r = libmsi_query_fetch(q, &e))) {
        unsigned n = libmsi_record_get_field_count(r);
        for (unsigned i = 1; i <= n; i++) { gchar *s = libmsi_record_get_string(r, i); g_free(s); GInputStream *in = libmsi_record_get_stream(r, i); if (in) g_object_unref(in); }
        g_object_unref(r);
    }
    if (e) { g_error_free(e); e = NULL; }
    g_object_unref(q);
}
static void use(LibmsiDatabase *db)
{
    GError *e = NULL;
    drain(db, "SELECT * FROM `T`"); drain(db, "SELECT `B` FROM `T` WHERE `A` = 1 ORDER BY `B`"); drain(db, "SELECT `Name` FROM `_Columns` WHERE `Number` = 2");
    LibmsiRecord *k = libmsi_database_get_primary_keys(db, "T", &e); CHECK(!k == !!e, "a result or an error"); if (k) g_object_unref(k);
    if (e) g_error_free(e); e = NULL;
    libmsi_database_is_table_persistent(db, "T", &e); if (e) g_error_free(e);
}
static void edit(LibmsiDatabase *db)
{
    static const char *const s[] = { "INSERT INTO `T` (`A`,`B`) VALUES (1,'x')", "UPDATE `T` SET `B` = 'y' WHERE `A` = 1", "DELETE FROM `T` WHERE `B` = 'x'", "ALTER TABLE `T` ADD `C` SHORT", "DROP TABLE `T`" };
    ex(db, s[sym_choose(5)], NULL);
    commit(db);
}
static void catalog(Fmt *f) { fmt_begin(f, 1252, 2); fmt_str(f, "T", 9); fmt_str(f, "A", 9); fmt_str(f, "B", 9); }
void h_columns(void)
{
    static const uint16_t ty[] = { 0x2d08 ^ 0x8000, 0x1502 ^ 0x8000, 0x2902 ^ 0x8000, 0x0104 };
    Fmt f; uint8_t t[2] = { 1, 0 }, c[16];
    catalog(&f); sym_fill(c, 12); f16(c + 12, ty[0]); f16(c + 14, ty[sym_choose(4)]);
    fmt_stream(f.root, "_Tables", 1, t, 2); fmt_stream(f.root, "_Columns", 1, c, 16); fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); if (!db) return;
    use(db); WITNESS("opened");
    g_object_unref(db);
}
static void one(Fmt *f, unsigned nd)
{
    uint8_t t[2] = { 1, 0 }, c[16] = { 1, 0, 1, 0, 1, 0x80, 2, 0x80, 2, 0, 3, 0, 2, 0x8d, 0, 0 }, d[6];
    catalog(f); sym_fill(c + 14, 2); sym_fill(d, nd);
    if (nd) { sym_fill(c + 6, 2); sym_fill(c + 10, 2); }
    fmt_stream(f->root, "_Tables", 1, t, 2); fmt_stream(f->root, "_Columns", 1, c, 16); if (nd) fmt_stream(f->root, "T", 1, d, nd); fmt_end(f, "/a.msi");
}
void h_types(void)
{
    Fmt f; one(&f, 6);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); if (!db) return;
    use(db); WITNESS("opened");
    g_object_unref(db);
}
void h_coltype(void)
{
    Fmt f; one(&f, 0); GError *e = NULL;
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); if (!db) return;
    LibmsiQuery *q = q_try(db, "SELECT * FROM `T`"); if (!q) return;
    LibmsiRecord *c = libmsi_query_get_column_info(q, LIBMSI_COL_INFO_TYPES, &e); CHECK(!c == !!e, "a result or an error");
    if (c) { gchar *s = libmsi_record_get_string(c, 2); CHECK(s && s[0] && s[1] >= '0' && s[1] <= '9', "a type is a letter and a width"); g_free(s); g_object_unref(c); WITNESS("type"); }
    if (e) g_error_free(e);
    g_object_unref(q); g_object_unref(db);
}
void h_edit(void)
{
    Fmt f; uint8_t t[2] = { 1, 0 }, c[16] = { 1, 0, 1, 0, 1, 0x80, 2, 0x80, 2, 0, 3, 0 }, d[6];
    catalog(&f); sym_fill(c + 12, 4); sym_fill(d, 6);
    fmt_stream(f.root, "_Tables", 1, t, 2); fmt_stream(f.root, "_Columns", 1, c, 16); fmt_stream(f.root, "T", 1, d, 6); fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); if (!db) return;
    edit(db); WITNESS("opened");
    g_object_unref(db);
}
void h_rows(void)
{
    Fmt f; uint8_t d[10]; static const char *tn[] = { "T" }, *cn[] = { "A", "B", "C" }; static const unsigned nc[] = { 3 }, ty[] = { 0x2d08, 0x1502, 0x1104 };
    fmt_begin(&f, 1252, 2); fmt_catalog(&f, 1, tn, nc, cn, ty);
    unsigned n = sym_choose(10); sym_fill(d, n);
    fmt_stream(f.root, "T", 1, d, n); fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); if (!db) return;
    use(db); if (sym_bool()) edit(db); WITNESS("opened");
    g_object_unref(db);
}
void h_tables(void)
{
    Fmt f; uint8_t t[6], c[10]; catalog(&f);
    unsigned n = sym_choose(4), m = sym_choose(9); sym_fill(t, n); sym_fill(c, m);
    fmt_stream(f.root, "_Tables", 1, t, n); fmt_stream(f.root, "_Columns", 1, c, m); fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); if (!db) return;
    drain(db, "SELECT * FROM `_Tables`"); use(db); WITNESS("opened");
    g_object_unref(db);
}
