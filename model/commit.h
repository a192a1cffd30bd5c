/* A database in each open mode, a change to it, and what a commit must then have stored. */
#ifndef COMMIT_H
#define COMMIT_H
#include "db.h"
typedef struct { int v[3]; uint8_t d[2]; } Vals;
enum { M_TRANSACT, M_CREATE, M_DIRECT, M_OUTPATH };
static int before_commit = 1;       /* the new content is not yet at its path */
static const char *watch;
static void committed_point(int op, const char *w)
{ static int inside; if (op == OP_UNLINK && watch && !strcmp(w, watch)) before_commit = 1; if ((op == OP_RENAME && watch) || (op == OP_CLOSE_FILE && watch && !strcmp(w, watch))) { inside = !inside; if (!inside) before_commit = 0; } }
static const char *result_path(int mode) { return mode == M_OUTPATH ? "/o.msi" : "/a.msi"; }
static Node *clone(Node *n)
{
    if (!n) return NULL;
    Node *c = env_node(n->name, n->dir); memcpy(c->clsid, n->clsid, 16);
    if (!n->dir) env_data(c, n->data, n->len);
    for (int i = 0; i < n->n; i++) env_add(c, clone(n->kid[i]));
    return c;
}
static int same_or_none(Node *a, Node *b) { return a ? env_same(a, b) : b == NULL; }
static Node *nested(uint8_t x)
{ Node *r = env_node(NULL, 1), *k = env_node("f", 0), *s = env_node("sub", 1); env_data(k, &x, 1); env_add(r, k); env_add(r, s); k = env_node("g", 0); env_data(k, &x, 1); env_add(s, k); return r; }
static void put(LibmsiDatabase *db, const char *sql, const char *name)
{ LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, name); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(ex(db, sql, r), "store"); g_object_unref(r); }
static void base(LibmsiDatabase *db)
{
    must(db, "CREATE TABLE `T` (`K` SHORT NOT NULL, `S` CHAR(8) PRIMARY KEY `K`)");
    must(db, "INSERT INTO `T` (`K`,`S`) VALUES (1,'one')");
    uint8_t d[2] = { 5, 6 }; env_put("/d", env_mem_file(d, 2)); put(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", "old");
    env_put("/d", env_ole_blob(nested(9))); put(db, "INSERT INTO `_Storages` (`Name`,`Data`) VALUES (?,?)", "stg");
}
static LibmsiDatabase *start(int mode, Vals *v)
{
    LibmsiDatabase *db = db_create("/a.msi"); GError *e = NULL;
    for (int i = 0; i < 3; i++) { v->v[i] = (int16_t)sym_u16(); ASSUME(v->v[i] > -32768); } sym_fill(v->d, 2);
    ASSUME(v->v[0] != 1);
    if (mode != M_CREATE) {
        base(db); CHECK(commit(db), "commit"); g_object_unref(db);
        db = libmsi_database_new("/a.msi", mode == M_DIRECT ? 0 : LIBMSI_DB_FLAGS_TRANSACT, mode == M_OUTPATH ? "/o.msi" : NULL, &e); CHECK(db && !e, "opens");
    } else base(db);
    watch = result_path(mode); env_point = committed_point; before_commit = 1;
    return db;
}
static void change(LibmsiDatabase *db, Vals *v)
{
    Cell c[2] = { c_int(v->v[0]), c_str("new") }; CHECK(exr(db, "INSERT INTO `T` (`K`,`S`) VALUES (?,?)", 2, c), "insert");
    must(db, "CREATE TABLE `U` (`A` SHORT NOT NULL, `B` SHORT PRIMARY KEY `A`)");
    Cell u[2] = { c_int(v->v[1]), c_int(v->v[2]) }; CHECK(exr(db, "INSERT INTO `U` (`A`,`B`) VALUES (?,?)", 2, u), "insert");
    env_put("/d", env_mem_file(v->d, 2)); put(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", "new");
}
/* the file holds everything, once */
static void complete(const char *path, Vals *v)
{
    int (*f)(int, const char *) = env_fail; env_fail = NULL;
    Node *r = env_file(path); CHECK(r != NULL, "the committed file exists");
    for (int i = 0; i < r->n; i++) for (int j = 0; j < i; j++) CHECK(strcmp(r->kid[i]->name, r->kid[j]->name), "no entry is stored twice");
    LibmsiDatabase *db = db_open(path, LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "it opens");
    Cell t[4] = { c_int(1), c_str("one"), c_int(v->v[0]), c_str("new") }, u[2] = { c_int(v->v[1]), c_int(v->v[2]) };
    CHECK(rows_are_set(db, "SELECT `K`,`S` FROM `T`", NULL, 2, 2, t), "every row"); CHECK(rows_are(db, "SELECT `A`,`B` FROM `U`", NULL, 1, 2, u), "of every table");
    g_object_unref(db);
    char *e = enc_name("old", 0); Node *k = env_kid(r, e); free(e); CHECK(k && k->len == 2 && k->data[0] == 5 && k->data[1] == 6, "every stream");
    e = enc_name("new", 0); k = env_kid(r, e); free(e); CHECK(k && k->len == 2 && !memcmp(k->data, v->d, 2), "every new stream");
    k = env_kid(r, "stg"); CHECK(k && k->dir && k->n == 2 && env_kid(k, "f") && env_kid(k, "f")->len == 1 && env_kid(k, "f")->data[0] == 9 && env_kid(k, "sub") && env_kid(env_kid(k, "sub"), "g"), "every storage");
    env_fail = f;
}
#endif
