// A string is read back byte for byte whatever its content, length and sharing.
//@ run h_content engine=msym lib=all workers=4 timeout=400 covers="3 strings of 0..2 characters, any characters 1..127, in 3 rows; read, compared, commit, reopen"
//@ run h_share engine=msym lib=all workers=6 timeout=600 covers="every history of 3 inserts, updates and deletes over 2 tables drawing from 3 strings, with an optional commit after the second, then reopen"
//@ run h_long engine=msym lib=all workers=3 timeout=400 steps=200000000 covers="a string of 65535, 65536 or 131073 bytes next to a short one, any byte at either end, used by one or two rows; commit, one use removed; commit, reopen, edit, commit, reopen"
//@ run h_read_long engine=msym lib=all workers=1 timeout=300 covers="an independently written pool with a 65536- or 65541-byte string between two short ones"
//@ run h_wrap engine=msym lib=all workers=1 timeout=300 covers="a string whose recorded use count is any value 1..65535 gets one or two more uses"
//@ run h_many engine=msym lib=all workers=4 timeout=600 steps=2000000000 covers="pools of 65529..65531 strings and of 66000 free slots, around the change from 2- to 3-byte references: strings read, added, committed, decoded independently, read back"
//@ assume ASCII content except in C29; use counts themselves are not specified
#include "db.h"
static const char *mkT = "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` CHAR(8) PRIMARY KEY `A`)", *mkU = "CREATE TABLE `U` (`A` SHORT NOT NULL, `B` CHAR(8) PRIMARY KEY `A`)";
void h_content(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); Cell row[3][2];
    must(db, mkT);
    for (int i = 0; i < 3; i++) {
        char s[3] = { 0 }; int n = i == 0 ? 2 : sym_choose(3); sym_text(s, n, 1, 127); row[i][0] = c_int(i); row[i][1] = c_str(s);
        CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, row[i]), "insert");
    }
    CHECK(rows_are(db, "SELECT `A`,`B` FROM `T`", NULL, 3, 2, &row[0][0]), "strings are read back");
    CHECK(commit(db), "commit"); g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    CHECK(rows_are(db, "SELECT `A`,`B` FROM `T`", NULL, 3, 2, &row[0][0]), "strings are read back after reopening"); WITNESS("end");
    g_object_unref(db);
}
void h_share(void)
{
    static const char *const txt[3] = { "xx", "yy", "" };
    static const char *const ins[2] = { "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", "INSERT INTO `U` (`A`,`B`) VALUES (?,?)" },
        *const upd[2] = { "UPDATE `T` SET `B` = ? WHERE `A` = ?", "UPDATE `U` SET `B` = ? WHERE `A` = ?" }, *const del[2] = { "DELETE FROM `T` WHERE `A` = ?", "DELETE FROM `U` WHERE `A` = ?" },
        *const sel[2] = { "SELECT `A`,`B` FROM `T`", "SELECT `A`,`B` FROM `U`" };
    LibmsiDatabase *db = db_create("/a.msi"); Cell c[2][2][2], want[4]; int has[2][2] = { { 1, 0 }, { 0, 0 } };
    must(db, mkT); must(db, mkU);
    c[0][0][0] = c_int(0); c[0][0][1] = c_str("xx"); CHECK(exr(db, ins[0], 2, c[0][0]), "insert");
    for (int k = 0; k < 3; k++) {
        int op = sym_choose(3), t = sym_choose(2), i = sym_choose(2), s = op == 2 ? 0 : sym_choose(3); Cell key = c_int(i), str = c_str(txt[s]);
        if (op == 0) {
            Cell r[2] = { key, str }; CHECK(exr(db, ins[t], 2, r) == !has[t][i], "insert");
            if (!has[t][i]) { has[t][i] = 1; c[t][i][0] = key; c[t][i][1] = str; }
        } else if (op == 1) { Cell p[2] = { str, key }; CHECK(exr(db, upd[t], 2, p), "update"); if (has[t][i]) c[t][i][1] = str; }
        else { CHECK(exr(db, del[t], 1, &key), "delete"); has[t][i] = 0; }
        if (k == 1 && sym_bool()) CHECK(commit(db), "commit");
    }
    for (int pass = 0; pass < 2; pass++) {
        if (pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); }
        for (int t = 0; t < 2; t++) {
            int n = 0; for (int i = 0; i < 2; i++) if (has[t][i]) { want[2 * n] = c[t][i][0]; want[2 * n + 1] = c[t][i][1]; n++; }
            CHECK(rows_are_set(db, sel[t], NULL, n, 2, want), "every row holds its string");
        }
    }
    WITNESS("end"); g_object_unref(db);
}
static void same_long(LibmsiDatabase *db, const char *want, unsigned n)
{
    LibmsiQuery *q = q_new(db, "SELECT `B` FROM `T` WHERE `A` = 1"); CHECK(q_exec(q, NULL), "execute");
    LibmsiRecord *r = libmsi_query_fetch(q, NULL); CHECK(r != NULL, "the row is there");
    gchar *s = libmsi_record_get_string(r, 1); CHECK(s != NULL, "with its string");
    for (unsigned i = 0; i < n; i++) if (s[i] != want[i]) { CHECK(0, "a long string is read back byte for byte"); }
    CHECK(s[n] == 0, "with its length");
    g_free(s); g_object_unref(r); g_object_unref(q);
    Cell w[2] = { c_int(2), c_str("yy") }; CHECK(rows_are(db, "SELECT `A`,`B` FROM `T` WHERE `A` = 2", NULL, 1, 2, w), "and so is its neighbour");
}
void h_long(void)
{
    static const unsigned len[3] = { 65535, 65536, 131073 };
    unsigned n = len[sym_choose(3)]; int first = sym_bool(); char *s = malloc(n + 1);
    memset(s, 'q', n); s[n] = 0; s[0] = sym_u8(); s[n - 1] = sym_u8(); ASSUME(s[0] > 0 && s[n - 1] > 0);
    LibmsiDatabase *db = db_create("/a.msi"); Cell y[2] = { c_int(2), c_str("yy") };
    must(db, "CREATE TABLE `T` (`A` SHORT NOT NULL, `B` LONGCHAR PRIMARY KEY `A`)");
    if (!first) CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, y), "insert");
    LibmsiRecord *r = libmsi_record_new(1); CHECK(libmsi_record_set_string(r, 1, s), "set_string");
    CHECK(ex(db, "INSERT INTO `T` (`A`,`B`) VALUES (1,?)", r), "insert"); g_object_unref(r);
    if (first) CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, y), "insert");
    int two = sym_bool();
    if (two) { r = libmsi_record_new(1); libmsi_record_set_string(r, 1, s); CHECK(ex(db, "INSERT INTO `T` (`A`,`B`) VALUES (4,?)", r), "insert"); g_object_unref(r); }
    CHECK(commit(db), "commit"); g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); same_long(db, s, n);
    if (two) { must(db, "DELETE FROM `T` WHERE `A` = 4"); same_long(db, s, n); }
    must(db, "INSERT INTO `T` (`A`,`B`) VALUES (3,'zz')"); CHECK(commit(db), "commit"); g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); same_long(db, s, n); WITNESS("end");
    g_object_unref(db); free(s);
}
void h_read_long(void)
{
    static const char *tn[] = { "T" }, *cn[] = { "A", "B" }; static const unsigned nc[] = { 2 }, ty[] = { 0x3502, 0x1d00 };
    Fmt f; unsigned n = sym_bool() ? 65536 : 65541; uint8_t t[16]; char *s = malloc(n + 1); memset(s, 'q', n); s[n] = 0; s[0] = 'a'; s[n - 1] = 'z';
    fmt_begin(&f, 1252, 2); fmt_catalog(&f, 1, tn, nc, cn, ty);
    uint8_t *d = malloc(f.nd + n + 2); memcpy(d, f.sdata, f.nd); memcpy(d + f.nd, s, n); memcpy(d + f.nd + n, "yy", 2);
    uint8_t *p = f.pool + f.np; f16(p, 0); f16(p + 2, n >> 16); f16(p + 4, n & 0xffff); f16(p + 6, 1); f16(p + 8, 2); f16(p + 10, 1); f.np += 12; f16(p + 6, 3);
    static const unsigned tid[4] = { 0x8001, 0x8002, 0x8003, 0x8004 };
    for (int i = 0; i < 4; i++) { f16(t + 2 * i, tid[i]); f16(t + 8 + 2 * i, f.nid + (i == 1)); }
    fmt_stream(f.root, "_StringPool", 1, f.pool, f.np); fmt_stream(f.root, "_StringData", 1, d, f.nd + n + 2); fmt_stream(f.root, "T", 1, t, 16); env_put("/a.msi", f.root);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db, "opens"); same_long(db, s, n);
    must(db, "DELETE FROM `T` WHERE `A` = 3"); same_long(db, s, n); must(db, "UPDATE `T` SET `B` = 'xx' WHERE `A` = 4"); same_long(db, s, n); WITNESS("end");
    g_object_unref(db); free(s); free(d);
}
void h_wrap(void)
{
    static const char *tn[] = { "T" }, *cn[] = { "A", "B" }; static const unsigned nc[] = { 2 }, ty[] = { 0x3502, 0x1d08 };
    Fmt f; uint8_t t[4]; fmt_begin(&f, 1252, 2); fmt_catalog(&f, 1, tn, nc, cn, ty); unsigned refs = sym_u16(), more = 1 + sym_choose(2); ASSUME(refs > 0);
    unsigned id = fmt_str(&f, "xx", refs); f16(t, 0x8001); f16(t + 2, id); fmt_stream(f.root, "T", 1, t, 4); fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); Cell w[6] = { c_int(1), c_str("xx"), c_int(2), c_str("xx"), c_int(3), c_str("xx") };
    for (unsigned i = 1; i <= more; i++) CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, w + 2 * i), "insert");
    for (int pass = 0; pass < 2; pass++) {
        CHECK(rows_are(db, "SELECT `A`,`B` FROM `T`", NULL, 1 + more, 2, w), "a heavily used string is kept");
        if (!pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); }
    }
    WITNESS("end"); g_object_unref(db);
}
/* a pool of n distinct filler strings, in order, then "xx" (the next id), used by T */
static void big(unsigned n, int ref, int free_slots, const char *path)
{
    static const char *tn[] = { "T" }, *cn[] = { "A", "B" }; static const unsigned nc[] = { 2 }, ty[] = { 0x3502, 0x1d08 };
    Fmt f; uint8_t t[8], *p, *d, *q; unsigned i, id;
    fmt_begin(&f, 1252, ref); fmt_catalog(&f, 1, tn, nc, cn, ty);
    p = malloc(f.np + 4 * n + 8); d = malloc(f.nd + 4 * n + 8); memcpy(p, f.pool, f.np); memcpy(d, f.sdata, f.nd); q = d + f.nd;
    for (i = 0; i < n; i++) {
        uint8_t *e = p + f.np + 4 * i;
        if (free_slots) { f16(e, 0); f16(e + 2, 0); continue; }
        f16(e, 4); f16(e + 2, 1); q[0] = 'a' + i / 17576; q[1] = 'a' + i / 676 % 26; q[2] = 'a' + i / 26 % 26; q[3] = 'a' + i % 26; q += 4;
    }
    f16(p + f.np + 4 * n, 2); f16(p + f.np + 4 * n + 2, 1); memcpy(q, "xx", 2); q += 2; id = f.nid + n;
    f16(t, 0x8001); f16(t + 2, id); t[4] = id >> 16;
    fmt_stream(f.root, "_StringPool", 1, p, f.np + 4 * n + 4); fmt_stream(f.root, "_StringData", 1, d, q - d); fmt_stream(f.root, "T", 1, t, 2 + ref);
    env_put(path, f.root); free(p); free(d);
}
void h_many(void)
{
    int k = sym_choose(4), ref = k == 0 ? 3 : 2; unsigned n = k == 0 ? 66000 : 65528 + k, rows;
    big(n, ref, k == 0, "/a.msi");
    Cell w[6] = { c_int(1), c_str("xx"), c_int(2), c_str("yyy"), c_int(3), c_str("zz") };
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT); CHECK(db, "opens");
    CHECK(rows_are(db, "SELECT `A`,`B` FROM `T`", NULL, 1, 2, w), "a string with a large id is found");
    for (int i = 1; i < 3; i++) CHECK(exr(db, "INSERT INTO `T` (`A`,`B`) VALUES (?,?)", 2, w + 2 * i), "insert");
    CHECK(rows_are(db, "SELECT `A`,`B` FROM `T`", NULL, 3, 2, w), "so are those added after it");
    CHECK(commit(db), "commit"); g_object_unref(db);
    Node *root = env_file("/a.msi"); CHECK(root != NULL, "saved");
    for (int i = 0; i < 3; i++) for (int c = 0; c < 2; c++) CHECK(cell_eq(disk_cell(root, "T", "2s", i, c, &rows), w[2 * i + c]) && rows == 3, "the file is well formed");
    for (int i = 0; i < 2; i++) CHECK(cell_eq(disk_cell(root, "_Columns", "s2s2", i, 2, &rows), c_str(i ? "B" : "A")) && rows == 2, "and so is its catalog");
    if (k < 2) { db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db && rows_are(db, "SELECT `A`,`B` FROM `T`", NULL, 3, 2, w), "and is read back"); g_object_unref(db); }
    WITNESS("end");
}
