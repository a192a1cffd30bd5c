// Opening a database with any string pool is memory safe, and a consistent pool yields exactly its strings.
//@ run h_pool engine=msym lib=all workers=5 timeout=500 defs="-DD=3" covers="3 pool entries of any length/refcount words, 3 data bytes of any value, 2-byte references, every codepage word"
//@ run h_pool engine=msym lib=all workers=7 timeout=800 tier=thorough name=h_pool4 defs="-DD=4" covers="the same with 4 data bytes"
//@ run h_short engine=msym lib=all workers=2 timeout=200 covers="pool stream of every size 0..14 bytes, any content, data stream of 0..2 bytes"
//@ run h_missing engine=msym lib=all timeout=300 covers="either or both pool streams missing"
#include "db.h"
static void use(LibmsiDatabase *db)
{
    GError *e = NULL; LibmsiRecord *r; LibmsiQuery *q = q_try(db, "SELECT `Name` FROM `_Tables`"); if (!q) return;
    if (q_exec(q, NULL)) while ((r = libmsi_query_fetch(q, &e))) { gchar *s = libmsi_record_get_string(r, 1); g_free(s); g_object_unref(r); }
    if (e) g_error_free(e);
    g_object_unref(q);
}
#ifndef D
#define D 3
#endif
void h_pool(void)
{
    enum { N = 3 };
    Node *root = env_node(NULL, 1); memcpy(root->clsid, msi_clsid, 16);
    uint8_t pool[4 + 4 * N], data[D], tabs[2 * N]; sym_fill(pool, sizeof pool); sym_fill(data, D);
    ASSUME(!(pool[3] & 0x80));
    for (int i = 0; i < N; i++) f16(tabs + 2 * i, i + 1);
    fmt_stream(root, "_StringPool", 1, pool, sizeof pool); fmt_stream(root, "_StringData", 1, data, D); fmt_stream(root, "_Tables", 1, tabs, sizeof tabs);
    env_put("/a.msi", root);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    if (!db) { WITNESS("refused"); return; }
    /* consistent: every entry in use, inside the data, all data used, plain text, distinct */
    unsigned off = 0, ok = pool[0] == 0xe4 && pool[1] == 4 && !pool[2] && !pool[3]; char s[N][8];
    for (int i = 0; i < N && ok; i++) {
        unsigned l = u16(pool + 4 + 4 * i), r = u16(pool + 6 + 4 * i);
        ok = l && r && l <= D - off;
        if (!ok) break;
        l = sym_concrete(l);
        for (unsigned k = 0; k < l; k++) { s[i][k] = data[off + k]; ok = ok && data[off + k] >= 'a' && data[off + k] <= 'z'; }
        s[i][l] = 0; off += l;
        for (int j = 0; j < i && ok; j++) ok = strcmp(s[i], s[j]) != 0;
    }
    if (ok) {
        Cell w[N]; for (int i = 0; i < N; i++) w[i] = c_str(s[i]);
        CHECK(rows_are(db, "SELECT `Name` FROM `_Tables`", NULL, N, 1, w), "each id denotes its string"); WITNESS("consistent");
    } else { use(db); WITNESS("inconsistent"); }
    g_object_unref(db);
}
void h_short(void)
{
    Node *root = env_node(NULL, 1); memcpy(root->clsid, msi_clsid, 16);
    unsigned n = sym_choose(15), d = sym_choose(3); uint8_t pool[16], data[4], tabs[6]; sym_fill(pool, n); sym_fill(data, d); sym_fill(tabs, 6);
    fmt_stream(root, "_StringPool", 1, pool, n); fmt_stream(root, "_StringData", 1, data, d); fmt_stream(root, "_Tables", 1, tabs, 6);
    env_put("/a.msi", root);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    if (db) { use(db); g_object_unref(db); WITNESS("opened"); }
}
void h_missing(void)
{
    Node *root = env_node(NULL, 1); memcpy(root->clsid, msi_clsid, 16); int k = sym_choose(3);
    uint8_t pool[4] = { 0xe4, 4 };
    if (k == 1) fmt_stream(root, "_StringPool", 1, pool, 4);
    if (k == 2) fmt_stream(root, "_StringData", 1, pool, 4);
    env_put("/a.msi", root);
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY);
    if (db) { use(db); g_object_unref(db); }
    WITNESS("end");
}
