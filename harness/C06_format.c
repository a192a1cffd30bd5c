// The bytes on disk are the documented MSI layout: independent writer -> library, and library -> independent reader.
//@ run h_read2 engine=msym lib=all workers=3 timeout=300 defs="-DREF=2" name=h_read2 covers="independently written database, 2-byte string references, 3 rows of SHORT/CHAR/LONG; every cell value"
//@ run h_read2 engine=msym lib=all workers=2 timeout=300 defs="-DREF=3" name=h_read3 covers="the same with 3-byte string references"
//@ run h_write engine=msym lib=all workers=3 timeout=300 covers="library-written table of 3 rows: every cell value decoded from the saved streams"
//@ run h_catalog engine=msym lib=all workers=1 timeout=200 covers="_Tables/_Columns rows written by CREATE TABLE for every column type, decoded independently"
//@ run h_convert engine=msym lib=all workers=2 timeout=200 covers="a 3-byte-reference database edited and committed: all tables stay decodable"
//@ run h_ragged engine=msym lib=all workers=2 timeout=200 covers="table streams of 0..17 bytes under a sound catalog with 8-byte rows, 2- and 3-byte string references: read exactly if a whole number of rows"
#include "db.h"
#ifndef REF
#define REF 2
#endif
#define TYPES "s24"
static const char *const tn[] = { "Tab" }; static const unsigned nc[] = { 3 };
static const char *const cn[] = { "Key", "Num", "Big" };
/* key, not null: 0x2000|0x800 key|0xD string; shorts 0x502, longs 0x104; nullable 0x1000 */
static const unsigned ty[] = { 0x2d08, 0x1502, 0x1104 };
static void build(Fmt *f, int ref, Cell r[][3], unsigned n)
{
    uint8_t t[64], *p = t; unsigned id[4];
    fmt_begin(f, 1252, ref);
    fmt_catalog(f, 1, tn, nc, cn, ty);
    for (unsigned i = 0; i < n; i++) id[i] = fmt_str(f, r[i][0].s, 1);
    for (unsigned i = 0; i < n; i++) p = fref(f, p, id[i]);
    for (unsigned i = 0; i < n; i++) { f16(p, r[i][1].kind ? (unsigned)(r[i][1].i ^ 0x8000) & 0xffff : 0); p += 2; }
    for (unsigned i = 0; i < n; i++) { uint32_t v = r[i][2].kind ? (uint32_t)r[i][2].i ^ 0x80000000u : 0; f16(p, v & 0xffff); f16(p + 2, v >> 16); p += 4; }
    fmt_stream(f->root, "Tab", 1, t, p - t);
    fmt_end(f, "/a.msi");
}
static void rows(Cell r[][3], int n)
{
    for (int i = 0; i < n; i++) {
        char s[4]; sym_text(s, 2, 'b', 'z'); r[i][0] = c_str(s);
        r[i][1] = i == 0 && sym_bool() ? c_null() : sym_int16(); r[i][2] = i == 1 && sym_bool() ? c_null() : sym_int32();
        for (int j = 0; j < i; j++) ASSUME(strcmp(r[j][0].s, s));
    }
}
void h_read2(void)
{
    Fmt f; Cell r[3][3]; rows(r, 3); build(&f, REF, r, 3);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    CHECK(db != NULL, "a well-formed database opens");
    CHECK(rows_are(db, "SELECT `Key`,`Num`,`Big` FROM `Tab`", NULL, 3, 3, r[0]), "the rows read are the rows stored");
    CHECK(libmsi_database_is_table_persistent(db, "Tab", NULL), "the table is listed");
    WITNESS("end");
    g_object_unref(db);
}
void h_write(void)
{
    Cell r[3][3]; rows(r, 3);
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `Tab` (`Key` CHAR(8) NOT NULL, `Num` SHORT, `Big` LONG PRIMARY KEY `Key`)");
    for (int i = 0; i < 3; i++) CHECK(exr(db, "INSERT INTO `Tab` (`Key`,`Num`,`Big`) VALUES (?,?,?)", 3, r[i]), "insert");
    CHECK(commit(db), "commit");
    g_object_unref(db);
    Node *root = env_file("/a.msi"); CHECK(root != NULL, "saved");
    CHECK(!memcmp(root->clsid, msi_clsid, 16), "class id of an installer database");
    unsigned n; char used[3] = { 0 };
    for (int i = 0; i < 3; i++) {
        Cell d[3]; for (int c = 0; c < 3; c++) d[c] = disk_cell(root, "Tab", TYPES, i, c, &n);
        CHECK(n == 3, "as many rows as were inserted");
        int hit = 0;
        for (int k = 0; k < 3 && !hit; k++) if (!used[k] && cell_eq(d[0], r[k][0]) && cell_eq(d[1], r[k][1]) && cell_eq(d[2], r[k][2])) used[k] = hit = 1;
        CHECK(hit, "every stored row is one of the inserted rows");
    }
    WITNESS("end");
}
void h_catalog(void)
{
    static const struct { const char *sql; unsigned type, mask; } d[] = {
        { "SHORT", 0x1502, 0xffff }, { "LONG", 0x1104, 0xffff }, { "CHAR(72)", 0x1d48, 0xffff }, { "CHAR(72) NOT NULL", 0x0d48, 0xffff },
        { "LONGCHAR", 0x1d00, 0xffff }, { "CHAR(255) LOCALIZABLE", 0x1fff, 0xffff }, { "INTEGER NOT NULL", 0x0502, 0xffff }, { "OBJECT", 0x1900, 0xffff }, { "INT", 0x1502, 0xffff }, { "CHAR(0)", 0x1d00, 0xffff } };
    unsigned k = sym_choose(10), n; char sql[160] = "CREATE TABLE `Tab` (`Key` CHAR(8) NOT NULL, `Col` ";
    strcat(sql, d[k].sql); strcat(sql, " PRIMARY KEY `Key`)");
    LibmsiDatabase *db = db_create("/a.msi"); must(db, sql); CHECK(commit(db), "commit"); g_object_unref(db);
    Node *root = env_file("/a.msi"); CHECK(root != NULL, "saved");
    CHECK(cell_eq(disk_cell(root, "_Tables", "s", 0, 0, &n), c_str("Tab")) && n == 1, "_Tables names the table");
    for (int i = 0; i < 2; i++) {
        Cell c[4]; for (int j = 0; j < 4; j++) c[j] = disk_cell(root, "_Columns", "s2s2", i, j, &n);
        CHECK(n == 2 && cell_eq(c[0], c_str("Tab")) && cell_eq(c[1], c_int(i + 1)) && cell_eq(c[2], c_str(i ? "Col" : "Key")), "_Columns names the columns in order");
        CHECK((unsigned)(c[3].i & d[k].mask) == (i ? d[k].type : 0x2d08u), "the stored column type is the documented encoding");
    }
    WITNESS("end");
}
void h_convert(void)
{
    Fmt f; Cell r[3][3]; unsigned n; rows(r, 2); build(&f, 3, r, 2);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT);
    r[2][0] = c_str("aa"); r[2][1] = sym_int16(); r[2][2] = sym_int32();
    if (sym_bool()) { must(db, "CREATE TABLE `U` (`X` SHORT NOT NULL PRIMARY KEY `X`)"); }
    CHECK(exr(db, "INSERT INTO `Tab` (`Key`,`Num`,`Big`) VALUES (?,?,?)", 3, r[2]), "insert");
    CHECK(commit(db), "commit");
    CHECK(rows_are_set(db, "SELECT `Key`,`Num`,`Big` FROM `Tab`", NULL, 3, 3, r[0]), "rows after commit");
    g_object_unref(db);
    Node *root = env_file("/a.msi"); CHECK(root != NULL, "saved");
    for (int i = 0; i < 3; i++) {
        Cell d[3]; int hit = 0; for (int c = 0; c < 3; c++) d[c] = disk_cell(root, "Tab", TYPES, i, c, &n);
        for (int k = 0; k < 3; k++) if (cell_eq(d[0], r[k][0]) && cell_eq(d[1], r[k][1]) && cell_eq(d[2], r[k][2])) hit = 1;
        CHECK(n == 3 && hit, "every stored row is right");
    }
    WITNESS("end");
}
void h_ragged(void)
{
    Fmt f; int ref = 2 + sym_bool(); unsigned rs = ref + 6, n = sym_choose(18); uint8_t t[18];
    fmt_begin(&f, 1252, ref); fmt_catalog(&f, 1, tn, nc, cn, ty); unsigned id = fmt_str(&f, "kk", 9);
    sym_fill(t, n); if (n == rs || n == 2 * rs) { f16(t, id); if (ref == 3) t[2] = 0; if (n > rs) { f16(t + ref, id - 1); if (ref == 3) t[5] = 0; } }
    if (n) fmt_stream(f.root, "Tab", 1, t, n); fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "the database opens");
    GError *e = NULL; LibmsiQuery *q = libmsi_query_new(db, "SELECT `Num` FROM `Tab`", &e); unsigned rows = 99;
    if (q && libmsi_query_execute(q, NULL, &e)) { LibmsiRecord *r; for (rows = 0; (r = libmsi_query_fetch(q, &e)); rows++) g_object_unref(r); }
    CHECK(n % rs ? rows == 99 && e : rows == n / rs && !e, "a table is read exactly if its stream is a whole number of rows"); g_clear_error(&e);
    WITNESS_IF(rows == 2, "two rows"); WITNESS_IF(rows == 99, "refused"); if (q) g_object_unref(q); g_object_unref(db);
}
