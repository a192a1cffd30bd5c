// _Streams and _Storages behave as maps from name to content, and survive commit and reopen.
//@ run h_streams engine=msym lib=all workers=5 timeout=500 covers="every history of 3 insert/replace/update/delete operations over 3 stream names, 0..2 bytes of any content, then commit and reopen"
//@ run h_storages engine=msym lib=all workers=4 timeout=500 covers="every history of 3 insert/delete operations over 3 storage names, content with a nested storage and streams, invalid content refused, then commit and reopen"
//@ run h_binary engine=msym lib=all workers=3 timeout=300 covers="OBJECT column: 2 rows of any 3-byte content, read back, replaced, deleted, commit and reopen; listed in _Streams"
//@ run h_find engine=msym lib=all workers=2 timeout=300 covers="SELECT on _Streams and _Storages by every name"
//@ run h_bad engine=msym lib=all workers=2 timeout=300 covers="incomplete or ill-typed rows (no name, no data, text as data) are refused without a trace, repeatedly"
//@ run h_again engine=msym lib=all workers=4 timeout=300 covers="one prepared DELETE, INSERT or SELECT over _Streams or _Storages executed 3 times with any names; deletes of several rows at once; other views of the table opened before"
//@ run h_refused engine=msym lib=all workers=4 timeout=300 covers="INSERT, UPDATE and DELETE over _Streams, _Storages and an OBJECT column of a database opened read-only, twice with one query or with two, any name: refused or without effect, the streams stay readable"
//@ run h_import engine=msym lib=all workers=4 timeout=300 covers="a _Streams or _Storages table file of 0..3 rows imported into a database holding 0..3 streams, then commit and reopen: exactly the names and content of the file"
#include "db.h"
static const char *const nm[3] = { "ab", "Tab.x1", "q r" };
static GInputStream *get(LibmsiDatabase *db, const char *sql, const char *name, int *found)
{
    LibmsiQuery *q = q_new(db, sql); Cell c = c_str(name); LibmsiRecord *p = rec_of(1, &c), *r; GInputStream *in = NULL;
    CHECK(q_exec(q, p), "lookup executes"); *found = 0;
    r = libmsi_query_fetch(q, NULL);
    if (r) { *found = 1; in = libmsi_record_get_stream(r, 1); g_object_unref(r); r = libmsi_query_fetch(q, NULL); CHECK(!r, "one row per name"); }
    g_object_unref(p); g_object_unref(q); return in;
}
static void holds(LibmsiDatabase *db, const char *name, int want, const uint8_t *d, unsigned len)
{
    int f; uint8_t b[8]; gsize n = 99; GInputStream *in = get(db, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?", name, &f);
    CHECK(f == want, "a stream is listed exactly while it exists");
    if (!f) return;
    CHECK(in != NULL, "its data can be read");
    CHECK(g_input_stream_read_all(in, b, 8, &n, NULL, NULL) && n == len && !memcmp(b, d, len), "the data is what was stored last");
    g_object_unref(in);
}
void h_streams(void)
{
    int has[3] = { 0 }; uint8_t d[3][2]; unsigned len[3] = { 0 };
    LibmsiDatabase *db = db_create("/a.msi");
    for (int k = 0; k < 3; k++) {
        int i = sym_choose(3), op = sym_choose(3); Cell c = c_str(nm[i]);
        if (op == 0 || op == 1) {
            uint8_t b[2]; unsigned n = k == 0 ? 2 : sym_choose(3); sym_fill(b, n); env_put("/d", env_mem_file(b, n));
            LibmsiRecord *r = libmsi_record_new(2);
            if (op == 0) rec_set(r, 1, c); else rec_set(r, 2, c);
            CHECK(libmsi_record_load_stream(r, op == 0 ? 2 : 1, "/d"), "load");
            gboolean ok = ex(db, op == 0 ? "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)" : "UPDATE `_Streams` SET `Data` = ? WHERE `Name` = ?", r);
            g_object_unref(r);
            CHECK(ok, "storing a stream succeeds");
            if (op == 0 || has[i]) { has[i] = 1; len[i] = n; memcpy(d[i], b, n); }
        } else { CHECK(exr(db, "DELETE FROM `_Streams` WHERE `Name` = ?", 1, &c), "delete"); has[i] = 0; }
    }
    for (int i = 0; i < 3; i++) holds(db, nm[i], has[i], d[i], len[i]);
    CHECK(n_rows(db, "SELECT `Name` FROM `_Streams`", NULL) == has[0] + has[1] + has[2], "nothing else is listed");
    CHECK(commit(db), "commit");
    for (int i = 0; i < 3; i++) holds(db, nm[i], has[i], d[i], len[i]);
    g_object_unref(db);
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    for (int i = 0; i < 3; i++) {
        holds(db, nm[i], has[i], d[i], len[i]);
        char *e = enc_name(nm[i], 0); Node *k = env_kid(env_file("/a.msi"), e); free(e);
        CHECK((k != NULL) == has[i] && (!k || (k->len == len[i] && !memcmp(k->data, d[i], len[i]))), "the file holds the stream under its encoded name");
    }
    WITNESS("end"); g_object_unref(db);
}
static Node *substorage(uint8_t x, int kind)
{
    Node *r = env_node(NULL, 1), *k, *s; k = env_node("f", 0); env_data(k, &x, 1); env_add(r, k);
    if (kind) { s = env_node("sub", 1); env_add(r, s); k = env_node("g", 0); env_data(k, &x, 1); env_add(s, k); }
    if (kind == 2) { s = env_node("void", 1); env_add(r, s); }
    return r;
}
static int same_tree(Node *a, Node *b)
{
    if (a->dir != b->dir) return 0;
    if (!a->dir) return a->len == b->len && !memcmp(a->data, b->data, a->len);
    if (a->n != b->n) return 0;
    for (int i = 0; i < a->n; i++) { Node *k = env_kid(b, a->kid[i]->name); if (!k || !same_tree(a->kid[i], k)) return 0; }
    return 1;
}
void h_storages(void)
{
    int has[3] = { 0 }; Node *c[3] = { 0 };
    LibmsiDatabase *db = db_create("/a.msi");
    for (int k = 0; k < 3; k++) {
        int i = sym_choose(3), op = sym_choose(3); Cell nc = c_str(nm[i]);
        if (op == 0 || op == 1) {
            uint8_t x = sym_u8(); Node *t = op == 1 ? NULL : substorage(x, k); env_put("/d", t ? env_ole_blob(t) : env_mem_file(&x, 1));
            LibmsiRecord *r = libmsi_record_new(2); rec_set(r, 1, nc); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load");
            gboolean ok = ex(db, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)", r); g_object_unref(r);
            CHECK(ok == (op == 0), "only structured content becomes a storage");
            if (ok) { has[i] = 1; c[i] = t; WITNESS("stored"); }
        } else { CHECK(exr(db, "DELETE FROM `_Storages` WHERE `Name` = ?", 1, &nc), "delete"); has[i] = 0; }
    }
    CHECK(n_rows(db, "SELECT `Name` FROM `_Storages`", NULL) == has[0] + has[1] + has[2], "a storage is listed exactly while it exists");
    CHECK(commit(db), "commit"); g_object_unref(db);
    Node *f = env_file("/a.msi");
    for (int i = 0; i < 3; i++) { Node *k = env_kid(f, nm[i]); CHECK((k != NULL) == has[i], "the file holds exactly the storages"); if (k) CHECK(same_tree(k, c[i]), "with all their content"); }
    db = db_open("/a.msi", LIBMSI_DB_FLAGS_TRANSACT);
    for (int i = 0; i < 3; i++) { Cell x = c_str(nm[i]); LibmsiRecord *p = rec_of(1, &x); CHECK(n_rows(db, "SELECT `Name` FROM `_Storages` WHERE `Name` = ?", p) == has[i], "listed after reopen"); g_object_unref(p); }
    CHECK(commit(db), "commit again"); g_object_unref(db); f = env_file("/a.msi");
    for (int i = 0; i < 3; i++) { Node *k = env_kid(f, nm[i]); CHECK((k != NULL) == has[i] && (!k || same_tree(k, c[i])), "kept by a later commit"); }
    WITNESS("end");
}
void h_binary(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); uint8_t d[2][3]; unsigned len[2] = { 3, 3 }; int has[2] = { 1, 1 };
    must(db, "CREATE TABLE `Bin` (`Name` CHAR(72) NOT NULL, `Data` OBJECT PRIMARY KEY `Name`)");
    static const char *const key[2] = { "one", "two" };
    for (int i = 0; i < 2; i++) {
        LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, key[i]); sym_fill(d[i], 3); env_put("/d", env_mem_file(d[i], 3));
        CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(ex(db, "INSERT INTO `Bin` (`Name`,`Data`) VALUES (?,?)", r), "insert"); g_object_unref(r);
    }
    int op = sym_choose(4), i = sym_choose(2), pc = sym_bool();
    if (pc) CHECK(commit(db), "commit");
    if (op == 1) {
        LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 2, key[i]); sym_fill(d[i], 2); len[i] = 2; env_put("/d", env_mem_file(d[i], 2));
        CHECK(libmsi_record_load_stream(r, 1, "/d"), "load"); CHECK(ex(db, "UPDATE `Bin` SET `Data` = ? WHERE `Name` = ?", r), "update"); g_object_unref(r);
    }
    if (op == 2) { Cell c = c_str(key[i]); CHECK(exr(db, "DELETE FROM `Bin` WHERE `Name` = ?", 1, &c), "delete"); has[i] = 0; }
    for (int pass = 0; pass < 3; pass++) {
        if (pass == 1) CHECK(commit(db), "commit");
        if (pass == 2) { g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); }
        for (int j = 0; j < 2; j++) {
            int f; uint8_t b[8]; gsize n = 99; GInputStream *in = get(db, "SELECT `Data` FROM `Bin` WHERE `Name` = ?", key[j], &f);
            CHECK(f == has[j], "rows"); if (!f) continue;
            CHECK(in && g_input_stream_read_all(in, b, 8, &n, NULL, NULL) && n == len[j] && !memcmp(b, d[j], n), "an OBJECT cell holds the bytes stored last"); g_object_unref(in);
        }
        if (op != 2) { holds(db, "Bin.one", 1, d[0], len[0]); holds(db, "Bin.two", 1, d[1], len[1]); }
    }
    WITNESS("end"); g_object_unref(db);
}
void h_find(void)
{
    Fmt f; static const char *tn[] = { "T" }, *cn[] = { "A" }; static const unsigned nc[] = { 1 }, ty[] = { 0x2d08 }; int has[3], st[3];
    fmt_begin(&f, 1252, 2); fmt_catalog(&f, 1, tn, nc, cn, ty);
    for (int i = 0; i < 3; i++) { has[i] = sym_bool(); st[i] = sym_bool(); uint8_t b = 7; if (has[i]) fmt_stream(f.root, nm[i], 0, &b, 1); if (st[i]) { static const char *const sn[] = { "s1", "s2", "s3" }; Node *s = substorage(1, 1); s->name = (char *)sn[i]; env_add(f.root, s); } }
    fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); uint8_t b = 7;
    for (int i = 0; i < 3; i++) {
        holds(db, nm[i], has[i], &b, 1);
        char s[3] = { 's', '1' + i, 0 }; Cell c = c_str(s); LibmsiRecord *p = rec_of(1, &c); CHECK(n_rows(db, "SELECT `Name` FROM `_Storages` WHERE `Name` = ?", p) == st[i], "a storage is listed exactly while it exists"); g_object_unref(p);
    }
    CHECK(n_rows(db, "SELECT `Name` FROM `_Streams`", NULL) == has[0] + has[1] + has[2], "table streams are not listed"); WITNESS("end");
    g_object_unref(db);
}

void h_bad(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); uint8_t d[2] = { 1, 2 }; env_put("/d", env_mem_file(d, 2)); env_put("/s", env_ole_blob(substorage(1, 1)));
    int stg = sym_bool(), good = sym_bool();
    LibmsiQuery *q = q_new(db, stg ? "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)" : "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)");
    for (int k = 0; k < 3; k++) {
        LibmsiRecord *r = libmsi_record_new(2); int how = k == 1 && good ? 9 : sym_choose(4);
        if (how != 0 && how != 3) libmsi_record_set_string(r, 1, "xy");
        if (how == 2) libmsi_record_set_string(r, 2, "text"); else if (how != 1 && how != 3) CHECK(libmsi_record_load_stream(r, 2, stg ? "/s" : "/d"), "load");
        CHECK(q_exec(q, r) == (how == 9), "an incomplete row is refused"); g_object_unref(r);
    }
    g_object_unref(q);
    CHECK(n_rows(db, stg ? "SELECT `Name` FROM `_Storages`" : "SELECT `Name` FROM `_Streams`", NULL) == good, "and leaves nothing behind");
    CHECK(commit(db), "commit");
    CHECK(n_rows(db, stg ? "SELECT `Name` FROM `_Storages`" : "SELECT `Name` FROM `_Streams`", NULL) == good, "in the file either"); WITNESS("end");
    g_object_unref(db);
}

void h_again(void)
{
    static const char *const five[4] = { "s1", "s2", "s3", "s4" };
    int stg = sym_bool(), has[4] = { 1, 1, 1, 1 }, n = 4, op = sym_choose(3); uint8_t d[1] = { 5 };
    LibmsiDatabase *db = db_create("/a.msi"); env_put("/d", stg ? env_ole_blob(substorage(5, 0)) : env_mem_file(d, 1));
    LibmsiQuery *q = q_new(db, stg ? "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)" : "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)");
    for (int i = 0; i < 4; i++) { LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, five[i]); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(q_exec(q, r), "a prepared INSERT stores every row"); g_object_unref(r); }
    g_object_unref(q); if (sym_bool()) CHECK(commit(db), "commit");
    const char *del = stg ? "DELETE FROM `_Storages` WHERE `Name` = ?" : "DELETE FROM `_Streams` WHERE `Name` = ?";
    if (op == 0) {
        q = q_new(db, del);
        for (int k = 0; k < 3; k++) { int i = sym_choose(4); Cell c = c_str(five[i]); LibmsiRecord *p = rec_of(1, &c); CHECK(q_exec(q, p), "delete"); g_object_unref(p); has[i] = 0; }
        g_object_unref(q);
    } else if (op == 1) {
        int i = sym_choose(4), j = sym_choose(4); Cell c[2] = { c_str(five[i]), c_str(five[j]) };
        CHECK(exr(db, stg ? "DELETE FROM `_Storages` WHERE `Name` = ? OR `Name` = ?" : "DELETE FROM `_Streams` WHERE `Name` = ? OR `Name` = ?", 2, c), "delete"); has[i] = has[j] = 0;
    } else { CHECK(exr(db, stg ? "DELETE FROM `_Storages` WHERE `Name` <> ?" : "DELETE FROM `_Streams` WHERE `Name` <> ?", 1, (Cell[]){ c_str("s3") }), "delete"); has[0] = has[1] = has[3] = 0; }
    n = has[0] + has[1] + has[2] + has[3];
    for (int pass = 0; pass < 2; pass++) {
        q = q_new(db, stg ? "SELECT `Name` FROM `_Storages` WHERE `Name` = ?" : "SELECT `Name` FROM `_Streams` WHERE `Name` = ?");
        for (int i = 0; i < 4; i++) {
            Cell c = c_str(five[i]); LibmsiRecord *p = rec_of(1, &c), *r; CHECK(q_exec(q, p), "lookup"); g_object_unref(p);
            r = libmsi_query_fetch(q, NULL); CHECK((r != NULL) == has[i], "exactly the remaining names are found"); if (r) { CHECK(rec_is(r, 1, c), "under their name"); g_object_unref(r); }
        }
        g_object_unref(q);
        CHECK(n_rows(db, stg ? "SELECT `Name` FROM `_Storages`" : "SELECT `Name` FROM `_Streams`", NULL) == n, "exactly the others are gone");
        if (!pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); }
    }
    WITNESS("end"); g_object_unref(db);
}

void h_refused(void)
{
    uint8_t d[2] = { 1, 2 }, n[1]; sym_fill(n, 1); env_put("/d", env_mem_file(d, 2)); env_put("/n", env_mem_file(n, 1)); env_put("/s", env_ole_blob(substorage(3, 1)));
    LibmsiDatabase *db = db_create("/a.msi"); LibmsiRecord *r; must(db, "CREATE TABLE `Bin` (`Name` CHAR(72) NOT NULL, `Data` OBJECT PRIMARY KEY `Name`)");
    for (int i = 0; i < 3; i++) {
        r = libmsi_record_new(2); libmsi_record_set_string(r, 1, i == 1 ? "stg" : "ab"); CHECK(libmsi_record_load_stream(r, 2, i == 1 ? "/s" : "/d"), "load");
        CHECK(ex(db, i == 0 ? "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)" : i == 1 ? "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)" : "INSERT INTO `Bin` (`Name`,`Data`) VALUES (?,?)", r), "insert"); g_object_unref(r);
    }
    CHECK(commit(db), "commit"); g_object_unref(db); Node *was = env_file("/a.msi"); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    static const char *const op[7] = { "INSERT INTO `_Streams` (`Data`,`Name`) VALUES (?,?)", "UPDATE `_Streams` SET `Data` = ? WHERE `Name` = ?", "INSERT INTO `_Storages` (`Data`,`Name`) VALUES (?,?)", "UPDATE `_Storages` SET `Data` = ? WHERE `Name` = ?", "INSERT INTO `Bin` (`Data`,`Name`) VALUES (?,?)", "UPDATE `Bin` SET `Data` = ? WHERE `Name` = ?", "UPDATE `_Streams` SET `Name` = 'zz', `Data` = ? WHERE `Name` = ?" };
    int k = sym_choose(7), again = sym_bool(); r = libmsi_record_new(2); libmsi_record_set_string(r, 2, sym_bool() ? "ab" : sym_bool() ? "stg" : "new"); CHECK(libmsi_record_load_stream(r, 1, k == 2 || k == 3 ? "/s" : "/n"), "load");
    LibmsiQuery *q = q_new(db, op[k]); gboolean ok = q_exec(q, r); if (again) { if (sym_bool()) libmsi_query_close(q, NULL); q_exec(q, r); } g_object_unref(q);
    if (k == 0) CHECK(!ok, "a stream cannot be added to a read-only database");
    g_object_unref(r); holds(db, "Bin.ab", 1, d, 2);
    if (k < 2) holds(db, "ab", 1, d, 2);
    CHECK(n_rows(db, "SELECT `Name` FROM `_Streams` WHERE `Name` = 'ab'", NULL) == 1, "the stream stays"); CHECK(n_rows(db, "SELECT `Name`,`Data` FROM `Bin` WHERE `Name` = 'ab'", NULL) == 1, "and the row");
    g_object_unref(db); CHECK(env_file("/a.msi") == was, "the file is not touched"); WITNESS_IF(ok, "without effect"); WITNESS_IF(!ok, "refused");
}

static char *addt(char *p, const char *t) { while (*t) *p++ = *t++; *p = 0; return p; }
void h_import(void)
{
    static const char *const n[4] = { "n1", "n2", "n3", "n4" }; uint8_t d[4][1]; char t[200], *p; int stg = sym_bool(), had = sym_choose(4), first = sym_choose(2), rows = sym_choose(4 - first), has[4] = { 0 };
    LibmsiDatabase *db = db_create("/a.msi"); GError *e = NULL; uint8_t o[1] = { 9 }; env_put("/o", stg ? env_ole_blob(substorage(9, 0)) : env_mem_file(o, 1));
    for (int i = 0; i < had; i++) { LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, n[i]); CHECK(libmsi_record_load_stream(r, 2, "/o"), "load"); CHECK(ex(db, stg ? "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)" : "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", r), "insert"); g_object_unref(r); }
    if (sym_bool()) CHECK(commit(db), "commit");
    p = addt(addt(t, "Name\tData\r\ns62\tV0\r\n"), stg ? "_Storages\tName\r\n" : "_Streams\tName\r\n");
    for (int i = first; i < first + rows; i++) {
        char f[20]; strcpy(f, stg ? "_Storages/" : "_Streams/"); strcat(f, n[i]); strcat(f, ".ibd"); sym_fill(d[i], 1); env_put(f, stg ? env_ole_blob(substorage(d[i][0], 0)) : env_mem_file(d[i], 1));
        p = addt(addt(addt(addt(p, n[i]), "\t"), n[i]), ".ibd\r\n"); has[i] = 1;
    }
    env_put("/f", env_mem_file(t, p - t)); gboolean ok = libmsi_database_import(db, "/f", &e); CHECK(ok && !e, "the table of streams can be imported");
    for (int pass = 0; pass < 2; pass++) {
        CHECK(n_rows(db, stg ? "SELECT `Name` FROM `_Storages`" : "SELECT `Name` FROM `_Streams`", NULL) == rows, "exactly the names of the file");
        if (!stg) for (int i = 0; i < 4; i++) holds(db, n[i], has[i], d[i], 1);
        if (!pass) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); }
    }
    if (stg) for (int i = 0; i < 4; i++) { Node *k = env_kid(env_file("/a.msi"), n[i]); CHECK((k != NULL) == has[i] && (!k || same_tree(k, substorage(d[i][0], 0))), "with their content"); }
    WITNESS("end"); g_object_unref(db);
}
