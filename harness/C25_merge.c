// libmsi_database_merge.
//@ run h_rows engine=msym lib=all workers=6 timeout=300 covers="target and source tables of 0..2 rows each: a 1..2 character string key (one character any of 1..127), a nullable string and SHORT value: which source rows are added, which conflict, the report; a second table without conflicts; the source unchanged; the result committed and reopened"
//@ run h_ikey engine=msym lib=all workers=6 timeout=300 covers="the same with a key of any 16-bit integer or NULL, a LONG value of any 32 bits"
//@ run h_keys2 engine=msym lib=all workers=6 timeout=300 covers="two-column keys (a string, possibly NULL, and a SHORT, possibly NULL) which are not the first column; 2 target rows and 1 source row"
//@ run h_new engine=msym lib=all workers=6 timeout=300 covers="a table only the source has, named as 7 words (keywords too), with a string and SHORT or LONG column, localizable and nullable or not, 1..2 keys, 0..2 rows: the same table arises"
//@ run h_mismatch engine=msym lib=all workers=6 timeout=300 covers="tables whose column types (8 kinds), names or keys differ or not: merged exactly when they agree up to width and localizability; otherwise nothing changes in any table"
//@ run h_report engine=msym lib=all workers=6 timeout=300 covers="0..2 conflicting rows in each of two tables, with or without a report table that exists or not, merged twice (2nd time with any other number of conflicts): the report says how many of each"
#include "db.h"
static gboolean merge(LibmsiDatabase *a, LibmsiDatabase *b, const char *t)
{ GError *e = NULL; gboolean r = libmsi_database_merge(a, b, t, &e); CHECK(r == !e, "merge reports failure exactly through its GError"); if (e) g_error_free(e); return r; }
static char anychar(void) { unsigned char c = sym_u8(); ASSUME(c && c < 128); return c; }
/* want: target rows afterwards */
static unsigned expect_merge(unsigned nc, unsigned nk, const unsigned *key, unsigned na, const Cell *a, unsigned nb, const Cell *b, Cell *want, unsigned *rows)
{
    unsigned n = na, conf = 0, i, j, k; for (i = 0; i < na * nc; i++) want[i] = a[i];
    for (i = 0; i < nb; i++) {
        int hit = -1;
        for (j = 0; j < na; j++) { int same = 1; for (k = 0; k < nk; k++) same = same && cell_eq(a[j * nc + key[k]], b[i * nc + key[k]]); if (same) hit = j; }
        if (hit < 0) { for (k = 0; k < nc; k++) want[n * nc + k] = b[i * nc + k]; n++; }
        else for (k = 0, j = 0; k < nc && !j; k++) if (!cell_eq(a[hit * nc + k], b[i * nc + k])) { conf++; j = 1; }
    }
    if (conf) n = na; *rows = n; return conf;
}
static void distinct(unsigned nc, unsigned nk, const unsigned *key, unsigned n, const Cell *c)
{ for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) { int same = 1; for (unsigned k = 0; k < nk; k++) same = same && cell_eq(c[i * nc + key[k]], c[j * nc + key[k]]); ASSUME(!same); } }
static void fill(LibmsiDatabase *d, const char *create, const char *insert, unsigned n, unsigned nc, const Cell *c)
{ must(d, create); for (unsigned i = 0; i < n; i++) CHECK(exr(d, insert, nc, c + i * nc), "insert"); }
/* merge table t of b into a's and judge it */
static void judge(LibmsiDatabase *a, LibmsiDatabase *b, unsigned nc, unsigned nk, const unsigned *key, unsigned na, const Cell *ca, unsigned nb, const Cell *cb)
{
    static const char *const cols[] = { NULL, "`c1`", "`c1`,`c2`", "`c1`,`c2`,`c3`", "`c1`,`c2`,`c3`,`c4`" }; char sel[64]; Cell w[16], two[2] = { c_int(5), c_int(1) }, rep[2] = { c_str("t") }; unsigned n;
    strcpy(sel, "SELECT "); strcat(sel, cols[nc]); strcat(sel, " FROM `t`");
    must(a, "CREATE TABLE `other` (`x` SHORT NOT NULL PRIMARY KEY `x`)"); must(b, "CREATE TABLE `other` (`x` SHORT NOT NULL PRIMARY KEY `x`)"); must(a, "INSERT INTO `other` (`x`) VALUES (5)"); must(b, "INSERT INTO `other` (`x`) VALUES (1)");
    unsigned conf = expect_merge(nc, nk, key, na, ca, nb, cb, w, &n); gboolean r = merge(a, b, "err");
    CHECK(r == !conf, "merging fails exactly when rows conflict");
    CHECK(rows_are_set(a, sel, NULL, n, nc, w), "a table with no conflicts gets the source's new rows, and one with conflicts none");
    CHECK(rows_are_set(a, "SELECT `x` FROM `other`", NULL, 2, 1, two), "a conflict in one table does not keep others from being merged");
    rep[1] = c_int(conf); if (conf) CHECK(rows_are_set(a, "SELECT `Table`,`NumRowMergeConflicts` FROM `err`", NULL, 1, 2, rep), "the report counts the conflicting rows"); else CHECK(!libmsi_database_is_table_persistent(a, "err", NULL), "no report without conflicts");
    CHECK(rows_are_set(b, sel, NULL, nb, nc, cb), "the source keeps its rows");
    CHECK(commit(a), "commit"); g_object_unref(a); a = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(a && rows_are_set(a, sel, NULL, n, nc, w), "the merged rows survive commit and reopen");
    WITNESS_IF(conf, "conflict"); WITNESS_IF(!conf && n > na, "merged"); g_object_unref(a); g_object_unref(b);
}
void h_rows(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); static const unsigned key[1] = { 0 };
    Cell ca[6], cb[6]; unsigned na = sym_choose(3), nb = sym_choose(3), i; ASSUME(na + nb);
    for (i = 0; i < na; i++) { char s[3] = { 'k', i ? 'b' : anychar() }; if (i) s[1] = 0; ca[3 * i] = c_str(s); ca[3 * i + 1] = i && sym_bool() ? c_null() : c_str("v"); ca[3 * i + 2] = c_int(i); }
    for (i = 0; i < nb; i++) { char s[3] = { 'k', !i ? anychar() : 0 }; cb[3 * i] = c_str(s); cb[3 * i + 1] = sym_bool() ? c_null() : c_str("v"); cb[3 * i + 2] = i ? c_int(1) : c_int(0); }
    distinct(3, 1, key, na, ca); distinct(3, 1, key, nb, cb);
    static const char mk[] = "CREATE TABLE `t` (`c1` CHAR(8) NOT NULL, `c2` CHAR(8) LOCALIZABLE, `c3` SHORT PRIMARY KEY `c1`)", in[] = "INSERT INTO `t` (`c1`,`c2`,`c3`) VALUES (?,?,?)";
    fill(a, mk, in, na, 3, ca); fill(b, mk, in, nb, 3, cb); judge(a, b, 3, 1, key, na, ca, nb, cb);
}
void h_ikey(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); static const unsigned key[1] = { 0 };
    Cell ca[4], cb[4]; unsigned na = sym_choose(3), nb = 1 + sym_bool(), i;
    for (i = 0; i < na; i++) { ca[2 * i] = i ? c_null() : sym_int16(); ca[2 * i + 1] = i ? c_int(7) : sym_int32(); }
    for (i = 0; i < nb; i++) { cb[2 * i] = !i && sym_bool() ? c_null() : i ? c_int(3) : sym_int16(); cb[2 * i + 1] = i ? c_null() : sym_bool() ? c_int(7) : sym_int32(); }
    distinct(2, 1, key, na, ca); distinct(2, 1, key, nb, cb);
    static const char mk[] = "CREATE TABLE `t` (`c1` SHORT, `c2` LONG PRIMARY KEY `c1`)", in[] = "INSERT INTO `t` (`c1`,`c2`) VALUES (?,?)";
    fill(a, mk, in, na, 2, ca); fill(b, mk, in, nb, 2, cb); judge(a, b, 2, 1, key, na, ca, nb, cb);
}
void h_keys2(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); unsigned key[2] = { 1, 2 };
    Cell ca[6], cb[3]; unsigned i; static const char *const w[2] = { "p", "q" };
    for (i = 0; i < 2; i++) { unsigned k = sym_choose(3), m = sym_choose(2); ca[3 * i] = c_int(9); ca[3 * i + 1] = k == 2 ? c_null() : c_str(w[k]); ca[3 * i + 2] = m ? c_null() : i ? c_int(4) : sym_int16(); }
    { unsigned k = sym_choose(3), m = sym_choose(2); cb[0] = sym_bool() ? c_int(9) : c_int(8); cb[1] = k == 2 ? c_null() : c_str(w[k]); cb[2] = m ? c_null() : sym_int16(); }
    distinct(3, 2, key, 2, ca);
    static const char mk[] = "CREATE TABLE `t` (`c1` SHORT, `c2` CHAR(8), `c3` SHORT PRIMARY KEY `c2`, `c3`)", in[] = "INSERT INTO `t` (`c1`,`c2`,`c3`) VALUES (?,?,?)";
    fill(a, mk, in, 2, 3, ca); fill(b, mk, in, 1, 3, cb); judge(a, b, 3, 2, key, 2, ca, 1, cb);
}
static LibmsiRecord *info(LibmsiDatabase *db, const char *sql, LibmsiColInfo i) { LibmsiQuery *q = q_new(db, sql); GError *e = NULL; LibmsiRecord *r = libmsi_query_get_column_info(q, i, &e); CHECK(r && !e, "column info"); g_object_unref(q); return r; }
static LibmsiRecord *keys(LibmsiDatabase *db, const char *t) { GError *e = NULL; LibmsiRecord *r = libmsi_database_get_primary_keys(db, t, &e); CHECK(r && !e, "keys"); return r; }
static void same_rec(LibmsiRecord *a, LibmsiRecord *b)
{
    unsigned n = libmsi_record_get_field_count(a); CHECK(n == libmsi_record_get_field_count(b), "as many columns");
    for (unsigned i = 1; i <= n; i++) { gchar *x = libmsi_record_get_string(a, i), *y = libmsi_record_get_string(b, i); CHECK(x && y && !strcmp(x, y), "the same names, types and keys"); g_free(x); g_free(y); }
    g_object_unref(a); g_object_unref(b);
}
static char *cat(char *d, const char *a, const char *b, const char *c) { strcpy(d, a); strcat(d, b); strcat(d, c); return d; }
void h_new(void)
{
    static const char *const nm[] = { "Order", "t", "Select", "Table", "Where", "a.b", "File" }, *const ty[] = { "SHORT", "LONG", "CHAR(20)", "CHAR(0)", "LONGCHAR" };
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); const char *t = nm[sym_choose(7)]; char s[160]; Cell c[6]; unsigned ty1 = sym_choose(5), n = sym_choose(3), i;
    cat(s, "CREATE TABLE `", t, "` (`Key` CHAR(8) NOT NULL, `Set` "); strcat(s, ty[ty1]); if (sym_bool()) strcat(s, " NOT NULL"); if (ty1 > 1 && sym_bool()) strcat(s, " LOCALIZABLE"); strcat(s, sym_bool() ? ", `c` INT PRIMARY KEY `Key`)" : ", `c` INT PRIMARY KEY `c`, `Key`)"); must(b, s);
    for (i = 0; i < n; i++) { c[3 * i] = c_str(i ? "it's" : "a"); c[3 * i + 1] = ty1 < 2 ? sym_int16() : c_str("x"); c[3 * i + 2] = i ? c_null() : sym_int16(); CHECK(exr(b, cat(s, "INSERT INTO `", t, "` (`Key`,`Set`,`c`) VALUES (?,?,?)"), 3, c + 3 * i), "insert"); }
    CHECK(merge(a, b, NULL), "a table the target lacks merges"); cat(s, "SELECT `Key`,`Set`,`c` FROM `", t, "`"); CHECK(rows_are_set(a, s, NULL, n, 3, c), "with all its rows");
    same_rec(info(a, s, LIBMSI_COL_INFO_NAMES), info(b, s, LIBMSI_COL_INFO_NAMES)); same_rec(info(a, s, LIBMSI_COL_INFO_TYPES), info(b, s, LIBMSI_COL_INFO_TYPES)); same_rec(keys(a, t), keys(b, t));
    CHECK(libmsi_database_is_table_persistent(a, t, NULL), "as a persistent table"); WITNESS_IF(n == 2, "new table"); g_object_unref(a); g_object_unref(b);
}
void h_mismatch(void)
{
    static const char *const ty[] = { "CHAR(8)", "CHAR(20)", "LONGCHAR", "CHAR(8) LOCALIZABLE", "SHORT", "LONG", "CHAR(8) NOT NULL", "SHORT NOT NULL" };
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); char s[160]; unsigned x = sym_choose(8), y = sym_choose(8), what = sym_choose(4), cls[8] = { 0, 0, 0, 0, 1, 2, 5, 3 }; Cell one[1] = { c_int(1) };
    must(a, "CREATE TABLE `first` (`x` SHORT NOT NULL PRIMARY KEY `x`)"); must(b, "CREATE TABLE `first` (`x` SHORT NOT NULL PRIMARY KEY `x`)"); must(b, "INSERT INTO `first` (`x`) VALUES (1)"); must(b, "CREATE TABLE `fresh` (`x` SHORT NOT NULL PRIMARY KEY `x`)");
    ASSUME(!what || x == y); /* one difference at a time */
    cat(s, "CREATE TABLE `t` (`k` SHORT NOT NULL, `c` ", ty[x], " PRIMARY KEY `k`)"); must(a, s);
    cat(s, what == 1 ? "CREATE TABLE `t` (`k` SHORT NOT NULL, `d` " : what == 2 ? "CREATE TABLE `t` (`l` SHORT NOT NULL, `c` " : "CREATE TABLE `t` (`k` SHORT NOT NULL, `c` ", ty[y], what == 3 ? " PRIMARY KEY `c`)" : what == 2 ? " PRIMARY KEY `l`)" : " PRIMARY KEY `k`)"); must(b, s);
    Cell row[2] = { c_int(3), (x == 4 || x == 5 || x == 7) ? c_int(2) : c_str("z") }, brow[2] = { c_int(4), (y == 4 || y == 5 || y == 7) ? c_int(2) : c_str("z") };
    CHECK(exr(a, "INSERT INTO `t` (`k`,`c`) VALUES (?,?)", 2, row), "insert"); CHECK(exr(b, what == 1 ? "INSERT INTO `t` (`k`,`d`) VALUES (?,?)" : what == 2 ? "INSERT INTO `t` (`l`,`c`) VALUES (?,?)" : "INSERT INTO `t` (`k`,`c`) VALUES (?,?)", 2, brow), "insert");
    int ok = !what && (x == y || (cls[x] == 0 && cls[y] == 0) );
    gboolean r = merge(a, b, "err"); CHECK(r == ok, "tables merge exactly when names, types and keys agree");
    if (r) { Cell w[4] = { row[0], row[1], brow[0], brow[1] }; CHECK(rows_are_set(a, "SELECT `k`,`c` FROM `t`", NULL, 2, 2, w), "merged rows"); CHECK(rows_are(a, "SELECT `x` FROM `first`", NULL, 1, 1, one), "the other table too"); }
    else { CHECK(rows_are(a, "SELECT `k`,`c` FROM `t`", NULL, 1, 2, row) && n_rows(a, "SELECT * FROM `first`", NULL) == 0, "nothing is changed by a merge of tables that differ"); CHECK(!libmsi_database_is_table_persistent(a, "fresh", NULL) && !libmsi_database_is_table_persistent(a, "err", NULL), "nor created"); }
    WITNESS_IF(r, "merged"); WITNESS_IF(!r, "refused"); g_object_unref(a); g_object_unref(b);
}
static void setv(LibmsiDatabase *b, const char *t, unsigned n)
{
    char s[80]; must(b, cat(s, "DELETE FROM `", t, "`")); Cell c[2] = { c_int(1), c_int(1) };
    for (unsigned i = 0; i < 2; i++) { c[0] = c_int(i); c[1] = c_int(i < n ? 50 + i : 7); CHECK(exr(b, cat(s, "INSERT INTO `", t, "` (`k`,`v`) VALUES (?,?)"), 2, c), "insert"); }
}
static void both(LibmsiDatabase *d) { must(d, "CREATE TABLE `t` (`k` SHORT NOT NULL, `v` SHORT PRIMARY KEY `k`)"); must(d, "CREATE TABLE `Order` (`k` SHORT NOT NULL, `v` SHORT PRIMARY KEY `k`)"); }
void h_report(void)
{
    LibmsiDatabase *a = db_create("/a.msi"), *b = db_create("/b.msi"); static const char *const nm[3] = { NULL, "err", "Set" }; const char *rep = nm[sym_choose(3)]; char s[80]; unsigned left[2] = { 0, 0 }; int shown = 0;
    both(a); both(b); setv(a, "t", 0); setv(a, "Order", 0);
    for (unsigned round = 0; round < 2; round++) {
        unsigned x = sym_choose(3), y = sym_choose(3), n = 0; Cell w[4]; setv(b, "t", x); setv(b, "Order", y); gboolean r = merge(a, b, rep);
        CHECK(r == !(x || y), "fails exactly when rows conflict"); if (x) left[0] = x; if (y) left[1] = y;
        Cell v[4] = { c_int(0), c_int(7), c_int(1), c_int(7) }; CHECK(rows_are_set(a, "SELECT `k`,`v` FROM `t`", NULL, 2, 2, v) && rows_are_set(a, "SELECT `k`,`v` FROM `Order`", NULL, 2, 2, v), "conflicting rows change nothing");
        if (left[0]) { w[2 * n] = c_str("t"); w[2 * n + 1] = c_int(left[0]); n++; } if (left[1]) { w[2 * n] = c_str("Order"); w[2 * n + 1] = c_int(left[1]); n++; }
        if (!rep) { CHECK(!libmsi_database_is_table_persistent(a, "err", NULL), "no report unless asked for"); continue; }
        if (!n) { CHECK(!libmsi_database_is_table_persistent(a, rep, NULL), "no report without conflicts"); continue; }
        shown = 1; CHECK(rows_are_set(a, cat(s, "SELECT `Table`,`NumRowMergeConflicts` FROM `", rep, "`"), NULL, n, 2, w), "the report counts each table's conflicts");
    }
    WITNESS_IF(shown, "reported"); g_object_unref(a); g_object_unref(b);
}
