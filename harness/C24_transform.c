// libmsi_database_apply_transform.
//@ run h_rows engine=msym lib=all workers=6 timeout=300 covers="a table of 0..2 rows (SHORT key, string, LONG), in memory or read from a file; a transform of 1..2 row changes, each an added row, an update of any set of columns or a deletion, with any 16-bit key, any 32-bit value, 3 strings or NULL, 2 or 3 byte string references: exactly these changes, kept by commit and reopen"
//@ run h_keys engine=msym lib=all workers=6 timeout=300 covers="two-column keys: a 1..2 character string (one character any of 1..127) or NULL, and a SHORT or NULL; each kind of row change"
//@ run h_new engine=msym lib=all workers=6 timeout=300 covers="transforms adding a table of 2..3 columns of 7 types, with and without column numbers, 1..2 keys, and 0..2 rows: names, types, keys and rows; commit and reopen"
//@ run h_column engine=msym lib=all workers=6 timeout=300 covers="a column of 4 types added to a table of 2 rows, loaded before or not, with or without a change of its rows"
//@ run h_drop engine=msym lib=all workers=6 timeout=300 covers="one of two tables dropped, in memory or read from a file, loaded or not: it is gone, the other is untouched; commit and reopen; it can be created again"
//@ run h_blob engine=msym lib=all workers=6 timeout=300 covers="OBJECT columns: rows added with a stream of any 3 bytes or NULL, updated, deleted; transforms which lack the stream are refused"
//@ run h_bytes engine=msym lib=all workers=6 timeout=400 covers="a table stream of any 0..9 bytes: applied or refused safely; a refusal is reported"
//@ run h_colbytes engine=msym lib=all workers=6 timeout=400 covers="a _Columns stream which adds or updates a column with any type, number or mask, or is cut short: applied or refused safely"
//@ run h_files engine=msym lib=all workers=4 timeout=200 covers="files which are missing, not OLE, not a transform, without string tables, or name tables the database lacks: refused, and the database unchanged"
#include "db.h"
static const uint8_t mst_clsid[16] = { 0x82, 0x10, 0x0c, 0, 0, 0, 0, 0, 0xc0, 0, 0, 0, 0, 0, 0, 0x46 };
static Fmt X; static uint8_t raw[4][128]; static unsigned rawn[4];
static void t_begin(int ref) { fmt_begin(&X, 0, ref); memcpy(X.root->clsid, mst_clsid, 16); memset(rawn, 0, sizeof rawn); }
static void w16(int s, unsigned v) { f16(raw[s] + rawn[s], v); rawn[s] += 2; }
static void wref(int s, unsigned id) { fref(&X, raw[s] + rawn[s], id); rawn[s] += X.ref; }
static void wstr(int s, Cell c) { wref(s, c.kind ? fmt_str(&X, c.s, 1) : 0); }
static void wshort(int s, Cell c) { w16(s, c.kind ? (unsigned)(c.i + 0x8000) & 0xffff : 0); }
static void wlong(int s, Cell c) { uint32_t v = c.kind ? (uint32_t)c.i ^ 0x80000000u : 0; w16(s, v & 0xffff); w16(s, v >> 16); }
static void t_stream(int s, const char *name) { fmt_stream(X.root, name, 1, raw[s], rawn[s]); }
static gboolean apply(LibmsiDatabase *db, const char *f) { GError *e = NULL; gboolean r = libmsi_database_apply_transform(db, f, &e); CHECK(r == !e, "apply_transform reports failure exactly through its GError"); if (e) g_error_free(e); return r; }
static LibmsiDatabase *reopen(LibmsiDatabase *a) { CHECK(commit(a), "commit"); g_object_unref(a); a = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(a != NULL, "reopen"); return a; }
static Cell any_str(void) { static const char *const w[3] = { "a", "it's", "zz" }; unsigned k = sym_choose(4); return k == 3 ? c_null() : c_str(w[k]); }
void h_rows(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); Cell c[12]; unsigned n = sym_choose(3), i, ops, ref = sym_bool() ? 3 : 2; int fail = 0, did = 0;
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8), `u` LONG PRIMARY KEY `k`)");
    for (i = 0; i < n; i++) { c[3 * i] = c_int(i ? -7 : 3); c[3 * i + 1] = i ? c_str("a") : c_null(); c[3 * i + 2] = c_int(100000 * i); CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, c + 3 * i), "insert"); }
    if (sym_bool()) a = reopen(a);
    t_begin(ref); ops = 1 + sym_bool();
    for (i = 0; i < ops; i++) {
        unsigned kind = sym_choose(5), hit = 99, j; Cell k = i ? c_int(3) : sym_int16(), s = c_null(), u = c_null();
        int hs = kind == 0 || kind == 1 || kind == 3, hu = kind == 0 || kind == 2 || kind == 3;
        w16(0, kind == 0 ? 0x0301 : kind == 4 ? 0 : (hs ? 2 : 0) | (hu ? 4 : 0)); wshort(0, k);
        if (hs) { s = any_str(); wstr(0, s); } if (hu) { u = i ? c_int(-9) : sym_int32(); wlong(0, u); }
        if (fail) continue;
        for (j = 0; j < n; j++) if (cell_eq(c[3 * j], k)) hit = j;
        if (hit == 99) { if (kind) { fail = 1; continue; } c[3 * n] = k; c[3 * n + 1] = s; c[3 * n + 2] = u; n++; did = 1; }
        else if (kind == 4) { for (j = 3 * hit; j < 3 * (n - 1); j++) c[j] = c[j + 3]; n--; did = 1; }
        else { if (hs) c[3 * hit + 1] = s; if (hu) c[3 * hit + 2] = u; did = 1; }
    }
    t_stream(0, "t"); fmt_end(&X, "/x.mst");
    CHECK(apply(a, "/x.mst") == !fail, "a transform applies exactly when the rows it changes or deletes exist");
    CHECK(rows_are_set(a, "SELECT `k`,`s`,`u` FROM `t`", NULL, n, 3, c), "exactly the rows it lists are changed");
    a = reopen(a); CHECK(rows_are_set(a, "SELECT `k`,`s`,`u` FROM `t`", NULL, n, 3, c), "for good"); WITNESS_IF(!fail && did, "applied"); WITNESS_IF(fail, "refused"); g_object_unref(a);
}
static Cell any_key(int sym) { char s[3] = { 'k', 0, 0 }; if (sym) { unsigned char c = sym_u8(); ASSUME(c && c < 128); if (sym_bool()) s[1] = c; else s[0] = c; } return c_str(s); }
void h_keys(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); Cell c[9], k1, k2, v = c_int(77); unsigned n = 2, i, j, hit = 99, kind = sym_choose(3); int fail;
    must(a, "CREATE TABLE `t` (`v` SHORT, `p` CHAR(8), `q` SHORT PRIMARY KEY `p`, `q`)");
    for (i = 0; i < 2; i++) { c[3 * i] = c_int(i); c[3 * i + 1] = i ? (sym_bool() ? c_str("k") : c_null()) : any_key(1); c[3 * i + 2] = sym_bool() ? c_int(5) : c_null(); }
    ASSUME(!cell_eq(c[1], c[4]) || !cell_eq(c[2], c[5])); for (i = 0; i < 2; i++) CHECK(exr(a, "INSERT INTO `t` (`v`,`p`,`q`) VALUES (?,?,?)", 3, c + 3 * i), "insert");
    CHECK(rows_are_set(a, "SELECT `v`,`p`,`q` FROM `t`", NULL, 2, 3, c), "rows before"); 
    if (sym_bool()) a = reopen(a);
    k1 = sym_bool() ? any_key(1) : sym_bool() ? c_str("k") : c_null(); k2 = sym_bool() ? sym_int16() : c_null();
    t_begin(2); w16(0, kind == 0 ? 0x0301 : kind == 1 ? 0 : 4); wstr(0, k1); wshort(0, k2); if (kind != 1) wshort(0, v); t_stream(0, "t"); fmt_end(&X, "/x.mst");
    for (j = 0; j < n; j++) if (cell_eq(c[3 * j + 1], k1) && cell_eq(c[3 * j + 2], k2)) hit = j;
    fail = hit == 99 && kind;
    if (kind == 0) { if (hit == 99) { hit = n++; c[3 * hit + 1] = k1; c[3 * hit + 2] = k2; } c[3 * hit] = v; }
    else if (kind == 2) { if (!fail) c[3 * hit] = v; }
    else if (!fail) { for (j = 3 * hit; j < 3 * (n - 1); j++) c[j] = c[j + 3]; n--; }
    CHECK(apply(a, "/x.mst") == !fail, "applies exactly when the row exists"); CHECK(rows_are_set(a, "SELECT `v`,`p`,`q` FROM `t`", NULL, n, 3, c), "exactly the row of that key is changed");
    WITNESS_IF(n == 1, "deleted"); WITNESS_IF(n == 3, "added"); WITNESS_IF(!kind && n == 2, "replaced"); g_object_unref(a);
}
static LibmsiRecord *info(LibmsiDatabase *db, const char *sql, LibmsiColInfo i) { LibmsiQuery *q = q_new(db, sql); GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, i, &e); CHECK(r && !e, "column info"); g_object_unref(q); return r; }
static void rec_str(LibmsiRecord *r, unsigned f, const char *want) { gchar *s = libmsi_record_get_string(r, f); CHECK(s && !strcmp(s, want), "names, types and keys as listed"); g_free(s); }
static void t_column(int s, unsigned tab, Cell num, unsigned col, unsigned type) { w16(s, 0x0401); wref(s, tab); wshort(s, num); wref(s, col); w16(s, (type ^ 0x8000) & 0xffff); }
static const struct { unsigned t; const char *n; } kinds[] = { { 0x0502, "i2" }, { 0x1502, "I2" }, { 0x0104, "i4" }, { 0x1104, "I4" }, { 0x0d08, "s8" }, { 0x1fff & ~0x200, "S255" }, { 0x1f00, "L0" } };
void h_new(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); unsigned ty = sym_choose(7), nc = 2 + sym_bool(), numbers = sym_bool(), twokeys = sym_bool(), n = sym_choose(3), i, tab, other; Cell c[6]; static const char *const nm[3] = { "Key", "Set", "c" };
    must(a, "CREATE TABLE `o` (`x` SHORT NOT NULL PRIMARY KEY `x`)"); if (sym_bool()) a = reopen(a);
    t_begin(sym_bool() ? 3 : 2); tab = fmt_str(&X, "Order", 9); other = fmt_str(&X, "unused", 1); (void)other; w16(0, 0x0101); wref(0, tab); t_stream(0, "_Tables");
    unsigned types[3] = { 0x2d08, kinds[ty].t | (twokeys ? 0x2000 : 0), 0x1502 };
    for (i = 0; i < nc; i++) { unsigned id = fmt_str(&X, nm[i], 1); t_column(1, tab, numbers ? c_int(i + 1) : c_null(), id, types[i]); } t_stream(1, "_Columns");
    for (i = 0; i < n; i++) {
        w16(2, nc << 8 | 1); c[nc * i] = c_str(i ? "b" : "a"); wstr(2, c[nc * i]);
        if (ty < 2) { c[nc * i + 1] = i ? c_int(4) : sym_int16(); wshort(2, c[nc * i + 1]); } else if (ty < 4) { c[nc * i + 1] = i ? c_int(-4) : sym_int32(); wlong(2, c[nc * i + 1]); } else { c[nc * i + 1] = i ? c_str("x") : any_key(1); wstr(2, c[nc * i + 1]); }
        if (nc == 3) { c[nc * i + 2] = i ? c_null() : c_int(12); wshort(2, c[nc * i + 2]); }
    }
    if (n) t_stream(2, "Order"); fmt_end(&X, "/x.mst"); CHECK(apply(a, "/x.mst"), "a transform with a new table applies");
    for (int round = 0; round < 2; round++) {
        const char *sql = nc == 3 ? "SELECT `Key`,`Set`,`c` FROM `Order`" : "SELECT `Key`,`Set` FROM `Order`"; CHECK(rows_are_set(a, sql, NULL, n, nc, c), "the new table has the listed rows");
        LibmsiRecord *r = info(a, "SELECT * FROM `Order`", LIBMSI_COL_INFO_NAMES); CHECK(libmsi_record_get_field_count(r) == nc, "columns"); for (i = 0; i < nc; i++) rec_str(r, i + 1, nm[i]); g_object_unref(r);
        r = info(a, "SELECT * FROM `Order`", LIBMSI_COL_INFO_TYPES); rec_str(r, 1, "s8"); rec_str(r, 2, kinds[ty].n); if (nc == 3) rec_str(r, 3, "I2"); g_object_unref(r);
        GError *e = NULL; r = libmsi_database_get_primary_keys(a, "Order", &e); CHECK(r && !e && libmsi_record_get_field_count(r) == 1 + twokeys, "keys"); rec_str(r, 1, "Key"); if (twokeys) rec_str(r, 2, "Set"); g_object_unref(r);
        CHECK(n_rows(a, "SELECT * FROM `o`", NULL) == 0, "the other table is as it was"); if (!round) a = reopen(a);
    }
    WITNESS_IF(n == 2, "new table"); g_object_unref(a);
}
void h_column(void)
{
    static const unsigned ty[4] = { 0x1502, 0x1104, 0x1d08, 0x1900 };
    LibmsiDatabase *a = db_create("/a.msi"); unsigned k = sym_choose(4), touch = k < 3 ? sym_choose(3) : 0, i, tab; Cell c[6];
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); for (i = 0; i < 2; i++) { c[3 * i] = c_int(i); c[3 * i + 1] = i ? c_str("b") : c_str("a"); c[3 * i + 2] = c_null(); CHECK(exr(a, "INSERT INTO `t` (`k`,`s`) VALUES (?,?)", 2, c + 3 * i), "insert"); }
    if (sym_bool()) { a = reopen(a); if (sym_bool()) CHECK(n_rows(a, "SELECT * FROM `t`", NULL) == 2, "loaded"); }
    t_begin(2); tab = fmt_str(&X, "t", 9); { unsigned id = fmt_str(&X, "new", 1); t_column(0, tab, c_int(3), id, ty[k]); } t_stream(0, "_Columns");
    if (touch) { Cell v = k == 0 ? sym_int16() : k == 1 ? sym_int32() : c_str("nv"); w16(1, touch == 1 ? 4 : 0x0301); wshort(1, c_int(1)); if (touch == 2) wstr(1, c_str("q")); if (k == 0) wshort(1, v); else if (k == 1) wlong(1, v); else wstr(1, v); t_stream(1, "t"); c[5] = v; if (touch == 2) c[4] = c_str("q"); }
    fmt_end(&X, "/x.mst"); CHECK(apply(a, "/x.mst"), "a transform with a new column applies");
    for (int round = 0; round < 2; round++) { CHECK(rows_are_set(a, "SELECT `k`,`s`,`new` FROM `t`", NULL, 2, 3, c), "the rows keep their values and get the new ones"); if (!round) a = reopen(a); }
    WITNESS_IF(touch == 2, "changed"); WITNESS_IF(!touch, "only the column"); g_object_unref(a);
}
void h_drop(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); unsigned i, tab; Cell c[4] = { c_int(1), c_str("x"), sym_int16(), c_str("a") }; int rows = sym_bool();
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); must(a, "CREATE TABLE `o` (`k` SHORT NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); ASSUME(c[2].i != 1);
    for (i = 0; i < 2; i++) { CHECK(exr(a, "INSERT INTO `o` (`k`,`s`) VALUES (?,?)", 2, c + 2 * i), "insert"); if (rows) CHECK(exr(a, "INSERT INTO `t` (`k`,`s`) VALUES (?,?)", 2, c + 2 * i), "insert"); }
    if (sym_bool()) { a = reopen(a); if (sym_bool()) n_rows(a, "SELECT * FROM `t`", NULL); }
    t_begin(2); tab = fmt_str(&X, "t", 9); w16(0, 0); wref(0, tab); t_stream(0, "_Tables"); for (i = 1; i <= 2; i++) { w16(1, 0); wref(1, tab); wshort(1, c_int(i)); } t_stream(1, "_Columns"); fmt_end(&X, "/x.mst");
    CHECK(apply(a, "/x.mst"), "a transform which drops a table applies");
    for (int round = 0; round < 2; round++) {
        CHECK(!libmsi_database_is_table_persistent(a, "t", NULL), "the table is gone"); CHECK(!ex(a, "SELECT * FROM `t`", NULL), "and cannot be queried"); CHECK(rows_are_set(a, "SELECT `k`,`s` FROM `o`", NULL, 2, 2, c), "the other one is as it was");
        CHECK(n_rows(a, "SELECT * FROM `_Tables`", NULL) == 1 && n_rows(a, "SELECT * FROM `_Columns`", NULL) == 2, "and alone in the catalog"); if (!round) a = reopen(a);
    }
    must(a, "CREATE TABLE `t` (`z` LONG NOT NULL PRIMARY KEY `z`)"); CHECK(n_rows(a, "SELECT `z` FROM `t`", NULL) == 0, "a table of the same name starts empty"); WITNESS_IF(rows, "with rows"); g_object_unref(a);
}
static int blob_is(LibmsiDatabase *a, int key, const uint8_t *want)
{
    Cell p = c_int(key); LibmsiRecord *par = rec_of(1, &p), *r; LibmsiQuery *q = q_new(a, "SELECT `b` FROM `t` WHERE `k` = ?"); GError *e = NULL; uint8_t buf[8]; gsize n = 0; int ok = 0;
    CHECK(q_exec(q, par), "select"); r = libmsi_query_fetch(q, &e); CHECK(!e, "fetch");
    if (r) { GInputStream *in = libmsi_record_get_stream(r, 1); if (!want) ok = !in; else if (in) { g_input_stream_read_all(in, buf, 8, &n, NULL, NULL); ok = n == 3 && buf[0] == want[0] && buf[1] == want[1] && buf[2] == want[2]; } if (in) g_object_unref(in); g_object_unref(r); }
    g_object_unref(par); g_object_unref(q); return ok;
}
void h_blob(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); uint8_t old[3] = { 1, 2, 3 }, new[3] = { sym_u8(), sym_u8(), sym_u8() }; int kind = sym_choose(5), missing = kind < 2 && sym_bool(); Cell k = c_int(kind == 0 || kind == 3 ? 9 : 5);
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `b` OBJECT PRIMARY KEY `k`)"); env_put("/d", env_mem_file(old, 3)); LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_int(r, 1, 5); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(ex(a, "INSERT INTO `t` (`k`,`b`) VALUES (?,?)", r), "insert"); g_object_unref(r);
    if (sym_bool()) a = reopen(a);
    t_begin(2); w16(0, kind == 0 || kind == 3 ? 0x0201 : kind == 4 ? 0 : 2); wshort(0, k); if (kind < 4) w16(0, kind < 2 ? 1 : 0); t_stream(0, "t"); if (!missing && kind < 2) fmt_stream(X.root, kind == 0 ? "t.9" : "t.5", 0, new, 3); fmt_end(&X, "/x.mst");
    CHECK(apply(a, "/x.mst") == !missing, "a transform applies when its streams are there");
    for (int round = 0; round < 2; round++) {
        if (kind == 0) CHECK(missing ? n_rows(a, "SELECT * FROM `t`", NULL) == 1 : blob_is(a, 9, new), "the added row has its stream"); if (kind == 1) CHECK(blob_is(a, 5, missing ? old : new), "the changed row has its new stream"); if (kind == 2) CHECK(blob_is(a, 5, NULL), "the cleared row has none"); if (kind == 3) CHECK(blob_is(a, 9, NULL), "a row without a stream"); if (kind == 4) CHECK(n_rows(a, "SELECT * FROM `t`", NULL) == 0, "deleted");
        if (kind == 0 || kind == 3) CHECK(blob_is(a, 5, old), "other rows keep theirs"); if (!round) a = reopen(a);
    }
    WITNESS_IF(kind == 1 && !missing, "replaced"); WITNESS_IF(missing, "refused"); g_object_unref(a);
}
void h_bytes(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); unsigned n = sym_choose(10), i; Cell c[3] = { c_int(3), c_str("a"), c_int(7) };
    must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8), `u` SHORT PRIMARY KEY `k`)"); CHECK(exr(a, "INSERT INTO `t` (`k`,`s`,`u`) VALUES (?,?,?)", 3, c), "insert");
    t_begin(2); fmt_str(&X, "a", 1); fmt_str(&X, "b", 1); for (i = 0; i < n; i++) raw[0][i] = sym_u8(); rawn[0] = n; t_stream(0, "t"); fmt_end(&X, "/x.mst");
    gboolean ok = apply(a, "/x.mst"); if (n == 1) CHECK(!ok, "a cut transform is refused"); CHECK(n_rows(a, "SELECT * FROM `t`", NULL) <= 3, "no row out of nothing"); CHECK(commit(a), "the database can still be saved"); g_object_unref(a);
    a = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(a && n_rows(a, "SELECT * FROM `t`", NULL) <= 3, "and read"); WITNESS_IF(ok && n == 8, "applied"); WITNESS_IF(!ok && n > 7, "refused"); g_object_unref(a);
}
void h_colbytes(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); unsigned tab, id, cut = sym_choose(3), what = sym_choose(4), tp = 0x1502, num = 3, mask = 0x0401; must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); must(a, "INSERT INTO `t` (`k`,`s`) VALUES (1,'a')"); a = reopen(a);
    if (what == 0) tp = sym_u16(); if (what == 1) { num = sym_u16(); } if (what == 3) { num = 1 + sym_bool(); mask = sym_choose(3) * 2; } if (what == 2) { mask = sym_u16(); ASSUME(!(mask & 1) || mask >> 8 == 4 || mask >> 8 > 4); }
    t_begin(2); tab = fmt_str(&X, "t", 9); id = fmt_str(&X, "new", 1); w16(0, mask); wref(0, tab); w16(0, num ^ 0x8000); wref(0, id); w16(0, tp ^ 0x8000); rawn[0] -= cut; t_stream(0, "_Columns"); fmt_end(&X, "/x.mst");
    gboolean ok = apply(a, "/x.mst"); if (cut == 1) CHECK(!ok || what >= 2, "a cut transform is refused"); LibmsiQuery *q = q_try(a, "SELECT * FROM `t`"); if (q) { LibmsiRecord *r; GError *e = NULL; if (q_exec(q, NULL)) while ((r = libmsi_query_fetch(q, &e))) g_object_unref(r); if (e) g_error_free(e); g_object_unref(q); }
    GError *e = NULL; if (!libmsi_database_commit(a, &e)) { CHECK(e != NULL, "a commit which fails says so"); g_error_free(e); } WITNESS_IF(ok, "applied"); WITNESS_IF(!ok, "refused"); g_object_unref(a);
}
void h_files(void)
{
    LibmsiDatabase *a = db_create("/a.msi"); int k = sym_choose(6); uint8_t b[4] = { sym_u8(), 2, 3, 4 }; Cell c[1] = { c_int(4) }; must(a, "CREATE TABLE `t` (`k` SHORT NOT NULL PRIMARY KEY `k`)"); must(a, "INSERT INTO `t` (`k`) VALUES (4)");
    t_begin(2); w16(0, 0x0101); wshort(0, c_int(8)); 
    if (k == 1) env_put("/x.mst", env_mem_file(b, 4));
    else if (k == 2) { t_stream(0, "t"); X.root->clsid[sym_choose(16)] ^= 1; fmt_end(&X, "/x.mst"); }
    else if (k == 3) { t_stream(0, "t"); env_put("/x.mst", X.root); }
    else if (k == 4) { t_stream(0, "nope"); fmt_end(&X, "/x.mst"); }
    else if (k == 5) { t_stream(0, "t"); fmt_stream(X.root, "_StringPool", 1, X.pool, 2); env_put("/x.mst", X.root); }
    CHECK(!apply(a, "/x.mst"), "refused"); CHECK(rows_are(a, "SELECT `k` FROM `t`", NULL, 1, 1, c), "nothing is changed"); CHECK(n_rows(a, "SELECT * FROM `_Tables`", NULL) == 1, "nor created"); CHECK(commit(a), "commit"); WITNESS("refused"); g_object_unref(a);
}
