// Tables have exactly the columns they were created with.
//@ run h_types engine=msym lib=all workers=6 timeout=300 covers="tables of a key and two columns, each of the 7 data types (any CHAR width 0..255, three symbolic digits), NOT NULL or not, plain or LOCALIZABLE; names, types and keys reported before commit and after reopening; the stored type words"
//@ run h_keys engine=msym lib=all workers=6 timeout=300 covers="3 columns with any one-letter names and a key list of 1..3 of any one-letter names, in any order: accepted exactly if the columns are distinct and the keys are distinct columns; key columns first, in key order, before and after reopening"
//@ run h_alter engine=msym lib=all workers=6 timeout=300 covers="a table of 0..2 rows with any values, of a type of 3, loaded or reopened; a column of 7 data types added, or two; column types, old values, NULL in the added column; values written to it; after commit and reopening"
//@ run h_wide engine=msym lib=all workers=4 timeout=300 covers="tables of 29..33 columns, any two values, a row inserted, the last column updated, reopened"
#include "db.h"
static const char *const types[7] = { "CHAR", "CHAR(", "LONGCHAR", "SHORT", "INT", "LONG", "OBJECT" };
/* the SQL of a column type and the type string a user must see */
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static int num(char *o, unsigned v) { int n = 0; if (v >= 100) o[n++] = '0' + v / 100; if (v >= 10) o[n++] = '0' + v / 10 % 10; o[n++] = '0' + v % 10; o[n] = 0; return n; }
typedef struct { int t, notnull, loc; unsigned w; } Ty;
static Ty any_type(int objects) { Ty y; y.t = sym_choose(objects ? 7 : 6); y.notnull = sym_bool(); y.loc = y.t < 3 && sym_bool(); y.w = 0; if (y.t == 1) { y.w = sym_u8(); } return y; }
static char *sql_type(char *p, Ty y)
{
    p = add(p, types[y.t]);
    if (y.t == 1) { *p++ = '0' + y.w / 100; *p++ = '0' + y.w / 10 % 10; *p++ = '0' + y.w % 10; *p++ = ')'; *p = 0; }
    if (y.notnull) p = add(p, " NOT NULL"); if (y.loc) p = add(p, " LOCALIZABLE");
    return p;
}
/* letter and width */
static int is_type(const gchar *s, Ty y)
{
    char l = y.t == 6 ? 'v' : y.t < 3 ? (y.loc ? 'l' : 's') : 'i'; unsigned w = y.t == 0 ? 1 : y.t == 1 ? y.w : y.t == 2 || y.t == 6 ? 0 : y.t == 5 ? 4 : 2;
    if (!s || s[0] != (y.notnull ? l : l - 32)) return 0;
    unsigned v = 0; int n = 1; for (; s[n]; n++) { if (s[n] < '0' || s[n] > '9' || n > 3) return 0; v = v * 10 + (s[n] - '0'); }
    return n > 1 && v == w;
}
static LibmsiRecord *info(LibmsiDatabase *db, const char *sql, LibmsiColInfo i) { LibmsiQuery *q = q_new(db, sql); GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, i, &e); CHECK(r && !e, "column info"); g_object_unref(q); return r; }
static int str_is(LibmsiRecord *r, unsigned f, const char *s) { gchar *g = libmsi_record_get_string(r, f); int ok = g && !strcmp(g, s); g_free(g); return ok; }
static void described(LibmsiDatabase *db, int n, const char *const *names, const Ty *y, int nkeys)
{
    LibmsiRecord *a = info(db, "SELECT * FROM `T`", LIBMSI_COL_INFO_NAMES), *b = info(db, "SELECT * FROM `T`", LIBMSI_COL_INFO_TYPES);
    CHECK((int)libmsi_record_get_field_count(a) == n && (int)libmsi_record_get_field_count(b) == n, "exactly the columns");
    for (int i = 0; i < n; i++) { CHECK(str_is(a, i + 1, names[i]), "with their names in order"); gchar *s = libmsi_record_get_string(b, i + 1); CHECK(is_type(s, y[i]), "with their types, widths and nullability"); g_free(s); }
    g_object_unref(a); g_object_unref(b);
    GError *e = NULL; a = libmsi_database_get_primary_keys(db, "T", &e); CHECK(a && !e, "keys"); CHECK((int)libmsi_record_get_field_count(a) == nkeys, "exactly the keys");
    for (int i = 0; i < nkeys; i++) CHECK(str_is(a, i + 1, names[i]), "are the keys"); g_object_unref(a);
    CHECK(libmsi_database_is_table_persistent(db, "T", &e) && !e, "a persistent table");
}
static LibmsiDatabase *reopen(LibmsiDatabase *db, unsigned fl) { CHECK(commit(db), "commit"); g_object_unref(db); db = db_open("/a.msi", fl); CHECK(db != NULL, "opens"); return db; }
void h_types(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); char s[200], *p = add(s, "CREATE TABLE `T` (`K` "); Ty y[3] = { { 3, 1, 0, 0 }, any_type(1), any_type(1) }; static const char *const n[3] = { "K", "Ab", "c_1" };
    y[0].t = 1; y[0].w = 72; if (sym_bool()) { y[1].t = 3; y[1].loc = 0; }
    p = sql_type(p, y[0]); for (int i = 1; i < 3; i++) { p = add(p, ", `"); p = add(p, n[i]); p = add(p, "` "); p = sql_type(p, y[i]); }
    add(p, " PRIMARY KEY `K`)"); must(db, s);
    described(db, 3, n, y, 1); db = reopen(db, LIBMSI_DB_FLAGS_READONLY); described(db, 3, n, y, 1);
    Node *c = table_stream("/a.msi", "_Columns"); CHECK(c && c->len == 3 * 8, "three rows of _Columns");
    for (int i = 0; i < 3; i++) {
        unsigned w = u16(c->data + 18 + 2 * i) ^ 0x8000, t = 0x100 | (y[i].notnull ? 0 : 0x1000) | (i == 0 ? 0x2000 : 0);
        if (y[i].t < 3) t |= 0x800 | (y[i].loc ? 0x200 : 0); if (y[i].t == 6) t |= 0x800;
        CHECK((w & 0x3900) == (t & 0x3900) && (y[i].t > 2 || (w & 0x200) == (t & 0x200)), "the stored type: key, nullable, string, valid, localizable");
        CHECK((w & 0xff) == (y[i].t == 0 ? 1 : y[i].t == 1 ? y[i].w : y[i].t == 2 || y[i].t == 6 ? 0 : y[i].t == 5 ? 4 : 2), "the stored width");
    }
    g_object_unref(db); WITNESS("described");
}
void h_keys(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); char s[200], nm[3][2], key[3][2], *p = add(s, "CREATE TABLE `T` ("); int nk = 1 + sym_choose(3), ok = 1, i, j;
    for (i = 0; i < 3; i++) { sym_text(nm[i], 1, 'a', 'd'); *p++ = '`'; *p++ = nm[i][0]; p = add(p, i < 2 ? "` INT NOT NULL, " : "` INT NOT NULL PRIMARY KEY "); }
    for (i = 0; i < nk; i++) { sym_text(key[i], 1, 'a', 'd'); *p++ = '`'; *p++ = key[i][0]; p = add(p, i < nk - 1 ? "`, " : "`)"); }
    for (i = 0; i < 3; i++) for (j = 0; j < i; j++) if (nm[i][0] == nm[j][0]) ok = 0;
    for (i = 0; i < nk; i++) { int f = 0; for (j = 0; j < 3; j++) if (nm[j][0] == key[i][0]) f = 1; if (!f) ok = 0; for (j = 0; j < i; j++) if (key[i][0] == key[j][0]) ok = 0; }
    gboolean made = ex(db, s, NULL); CHECK(made == ok, "accepted exactly if columns are distinct and keys are distinct columns");
    if (!ok) { CHECK(n_rows(db, "SELECT * FROM `_Columns`", NULL) == 0 && n_rows(db, "SELECT * FROM `_Tables`", NULL) == 0, "a refused table leaves nothing"); WITNESS("refused"); g_object_unref(db); return; }
    const char *n[3]; Ty y[3] = { { 3, 1 }, { 3, 1 }, { 3, 1 } }; int left = nk;
    for (i = 0; i < nk; i++) n[i] = key[i];
    LibmsiRecord *a = info(db, "SELECT * FROM `T`", LIBMSI_COL_INFO_NAMES); static gchar *g[3];
    for (; left < 3; left++) { g[left] = libmsi_record_get_string(a, left + 1); n[left] = g[left]; for (j = 0; j < left; j++) CHECK(strcmp(n[j], n[left]), "no column twice"); for (i = 0; i < 3 && strcmp(nm[i], n[left]); i++) ; CHECK(i < 3, "a column of the statement"); }
    g_object_unref(a);
    described(db, 3, n, y, nk); db = reopen(db, 0); described(db, 3, n, y, nk); g_object_unref(db); WITNESS("keys");
}
void h_alter(void)
{
    LibmsiDatabase *db = db_create("/a.msi"); int k = sym_choose(3), rows = sym_choose(3), ro = sym_bool(), two = sym_bool(), i; char s[120], *p;
    static const char *const t[3] = { "SHORT", "CHAR(8)", "LONG" }; static const char *const n[4] = { "K", "V", "W", "X" }; Cell v[2];
    Ty y[4] = { { 3, 1 }, { k == 0 ? 3 : k == 1 ? 1 : 5, 0, 0, k == 1 ? 8 : 0 }, any_type(1), { 3 } }; if (two) { ASSUME(rows == 1 && k == 0 && (y[2].t == 3 || y[2].t == 2) && !y[2].loc); y[3] = any_type(1); } if (y[2].t == 1) ASSUME(y[2].w == 0 || y[2].w == 8 || y[2].w == 255); if (y[3].t == 1) ASSUME(y[3].w == 30);
    p = add(s, "CREATE TABLE `T` (`K` SHORT NOT NULL, `V` "); p = add(p, t[k]); add(p, " PRIMARY KEY `K`)"); must(db, s);
    for (i = 0; i < rows; i++) { v[i] = k == 0 ? sym_int16() : k == 2 ? sym_int32() : c_str(i ? "one" : "two"); Cell c[2] = { c_int(i + 1), v[i] }; CHECK(exr(db, "INSERT INTO `T` (`K`,`V`) VALUES (?,?)", 2, c), "insert"); }
    if (ro) db = reopen(db, LIBMSI_DB_FLAGS_TRANSACT);
    for (i = 0; i <= two; i++) { p = add(s, i ? "ALTER TABLE `T` ADD `X` " : "ALTER TABLE `T` ADD `W` "); sql_type(p, y[2 + i]); must(db, s); CHECK(!ex(db, s, NULL), "a column cannot be added twice"); }
    for (i = 0; i < 2; i++) {
        described(db, 3 + two, n, y, 1);
        Cell w[6]; for (int r = 0; r < rows; r++) { w[3 * r] = c_int(r + 1); w[3 * r + 1] = v[r]; w[3 * r + 2] = c_null(); }
        if (y[2].t != 6) CHECK(rows_are(db, two ? "SELECT `K`,`V`,`X` FROM `T`" : "SELECT `K`,`V`,`W` FROM `T`", NULL, rows, 3, w) || (two && y[3].t == 6), "rows keep their values and hold NULL in an added column");
        else { CHECK(n_rows(db, "SELECT `K` FROM `T`", NULL) == rows, "every row"); }
        if (!i) db = reopen(db, LIBMSI_DB_FLAGS_TRANSACT);
    }
    if (rows && y[2].t != 6) {
        Cell x = y[2].t < 3 ? c_str("x") : y[2].t == 5 ? sym_int32() : sym_int16(), u[2] = { x, c_int(1) }, w[3] = { c_int(1), v[0], x };
        CHECK(exr(db, "UPDATE `T` SET `W`=? WHERE `K`=?", 2, u), "an added column can be written"); db = reopen(db, LIBMSI_DB_FLAGS_READONLY);
        CHECK(rows_are(db, "SELECT `K`,`V`,`W` FROM `T` WHERE `K`=1", NULL, 1, 3, w), "and keeps the value"); WITNESS("written");
    }
    g_object_unref(db);
}
void h_wide(void)
{
    int n = 29 + sym_choose(5), i; char s[1200], *p = add(s, "CREATE TABLE `T` ("), t[4]; LibmsiDatabase *db = db_create("/a.msi"); Cell a = sym_int16(), b = sym_int16();
    for (i = 0; i < n; i++) { num(t, i); p = add(p, i ? ", `c" : "`c"); p = add(p, t); p = add(p, i ? "` SHORT" : "` SHORT NOT NULL"); }
    add(p, " PRIMARY KEY `c0`)"); gboolean ok = ex(db, s, NULL); CHECK(ok || n > 31, "up to 31 columns are accepted");
    if (!ok) { g_object_unref(db); return; }
    p = add(s, "INSERT INTO `T` ("); for (i = 0; i < n; i++) { num(t, i); p = add(p, i ? ",`c" : "`c"); p = add(p, t); p = add(p, "`"); } p = add(p, ") VALUES (");
    for (i = 0; i < n; i++) p = add(p, i == 0 ? "?" : i == n - 1 ? ",?" : ",5"); add(p, ")");
    Cell c[2] = { a, b }; CHECK(exr(db, s, 2, c), "a row of a wide table can be inserted");
    num(t, n - 1); p = add(s, "SELECT `c0`,`c1`,`c28`,`c"); p = add(p, t); add(p, "` FROM `T`"); Cell w[4] = { a, c_int(5), n == 29 ? b : c_int(5), b };
    CHECK(rows_are(db, s, NULL, 1, 4, w), "every value is kept"); db = reopen(db, LIBMSI_DB_FLAGS_TRANSACT); CHECK(rows_are(db, s, NULL, 1, 4, w), "also on disk");
    char u[80]; p = add(u, "UPDATE `T` SET `c"); p = add(p, t); add(p, "`=?"); gboolean up = exr(db, u, 1, &a); CHECK(up || n > 32, "the last column can be updated"); if (up) { w[3] = a; if (n == 29) w[2] = a; } CHECK(rows_are(db, s, NULL, 1, 4, w), "and only it changes");
    g_object_unref(db); WITNESS_IF(n == 31, "31"); 
}
