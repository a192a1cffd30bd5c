// Any SQL text is executed or refused; literals mean what they say.
//@ run h_bytes engine=msym lib=all workers=6 timeout=400 defs=-DNB=4 tier=quick covers="every text of 0..4 arbitrary bytes: refused with an error, nothing read outside the text"
//@ run h_bytes engine=msym lib=all workers=8 timeout=800 defs=-DNB=6 tier=thorough name=h_bytes6 covers="every text of 0..6 arbitrary bytes: refused with an error, nothing read outside the text"
//@ run h_hole engine=msym lib=all workers=8 timeout=500 defs=-DNH=2 tier=quick covers="each of 12 statements of all kinds with any one token replaced by 0..2 arbitrary bytes, the rest of the statement following (with 0..1 bytes also cut off): executed or refused; refused or SELECT leaves every row as it was; the database stays usable"
//@ run h_hole engine=msym lib=all workers=8 timeout=800 defs="-DNH=3 -DST=0" tier=thorough name=h_hole3s covers="a SELECT with WHERE and ORDER BY with any one token replaced by 0..3 arbitrary bytes"
//@ run h_hole engine=msym lib=all workers=8 timeout=800 defs="-DNH=3 -DST=5" tier=thorough name=h_hole3u covers="an UPDATE with WHERE with any one token replaced by 0..3 arbitrary bytes"
//@ run h_int engine=msym lib=all workers=6 timeout=300 covers="integer literals: any 1..5 digits, and any value around the limits of 32 bits up to 11 digits, with and without minus, in INSERT and WHERE: the exact value, or refused if not a 32-bit integer"
//@ run h_str engine=msym lib=all workers=6 timeout=300 covers="string literals of 0..3 arbitrary ASCII characters in INSERT and WHERE: exactly the characters between the quotes, or refused if a quote is among them"
//@ run h_form engine=msym lib=all workers=6 timeout=300 covers="five statements with any keyword in mixed letter case (each third of its letters in either), any gap between tokens filled with any 1 or 2 white-space characters: the same effect"
#include "db.h"
#ifndef NB
#define NB 3
#endif
#ifndef ST
#define ST sym_choose(12)
#endif
#ifndef NH
#define NH 1
#endif
static char *add(char *p, const char *s) { while (*s) *p++ = *s++; *p = 0; return p; }
static LibmsiDatabase *base(void)
{
    LibmsiDatabase *db = db_create("/a.msi");
    must(db, "CREATE TABLE `t` (`k` LONG NOT NULL, `s` CHAR(8) PRIMARY KEY `k`)"); must(db, "CREATE TABLE `u` (`x` SHORT NOT NULL PRIMARY KEY `x`)");
    must(db, "INSERT INTO `t` (`k`,`s`) VALUES (1,'a')"); must(db, "INSERT INTO `t` (`k`,`s`) VALUES (2,'b')"); must(db, "INSERT INTO `u` (`x`) VALUES (1)");
    return db;
}
static int same(LibmsiDatabase *db)
{
    Cell w[4] = { c_int(1), c_str("a"), c_int(2), c_str("b") }, x[1] = { c_int(1) }, c[9] = { c_str("t"), c_int(1), c_str("k"), c_str("t"), c_int(2), c_str("s"), c_str("u"), c_int(1), c_str("x") };
    return rows_are(db, "SELECT * FROM `t`", NULL, 2, 2, w) && rows_are(db, "SELECT * FROM `u`", NULL, 1, 1, x) && n_rows(db, "SELECT * FROM `_Tables`", NULL) == 2 && rows_are_set(db, "SELECT `Table`,`Number`,`Name` FROM `_Columns`", NULL, 3, 3, c);
}
/* the text ends exactly at the end of its object */
static char *exact(const char *s, unsigned n) { char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void h_bytes(void)
{
    unsigned n = sym_choose(NB + 1); char *s = malloc(n + 1); for (unsigned i = 0; i < n; i++) { s[i] = sym_u8(); ASSUME(s[i] != 0); } s[n] = 0;
    LibmsiDatabase *db = base();
    CHECK(!q_try(db, s), "no text of so few bytes is a statement"); CHECK(same(db), "nothing changes"); WITNESS_IF(n == NB, "refused");
    g_object_unref(db);
}
static const char *const st[] = {
    "SELECT k FROM t WHERE k = 1 AND ( s = 'a' OR s IS NULL ) ORDER BY s", "SELECT DISTINCT t . s , k FROM t , u WHERE k = x", "SELECT * FROM t",
    "INSERT INTO t ( k , s ) VALUES ( 3 , 'c' )", "INSERT INTO t ( k ) VALUES ( - 3 ) TEMPORARY", "UPDATE t SET s = 'z' WHERE k >= 1", "UPDATE t SET s = ?",
    "DELETE FROM t WHERE s <> `k`", "CREATE TABLE n ( a INT NOT NULL , b CHAR ( 3 ) LOCALIZABLE PRIMARY KEY a )", "ALTER TABLE t ADD d LONG TEMPORARY", "ALTER TABLE u HOLD", "DROP TABLE u" };
static const int cnt[] = { 20, 14, 4, 12, 11, 10, 6, 7, 18, 7, 4, 3 };
void h_hole(void)
{
    unsigned k = ST, t = sym_choose(cnt[k]), n = sym_choose(NH + 1), cut = n < 2 && sym_bool(), i; char s[160], *p = s, h[4]; const char *q = st[k];
    for (i = 0; i < n; i++) { h[i] = sym_u8(); ASSUME(h[i] != 0); }
    for (i = 0; i < t; q++) { if (*q == ' ') i++; *p++ = *q; }
    memcpy(p, h, n); p += n; while (*q && *q != ' ') q++;
    if (!cut) p = add(p, q);
    char *sql = exact(s, p - s);
    LibmsiDatabase *db = base(); LibmsiRecord *r = NULL, *par = libmsi_record_new(1); GError *e = NULL; int ok = 0;
    LibmsiQuery *qu = q_try(db, sql);
    if (qu) { ok = q_exec(qu, par); if (ok && k < 3) { for (i = 0; i < 8 && (r = libmsi_query_fetch(qu, &e)); i++) g_object_unref(r); CHECK(i < 8, "a query comes to its end"); g_clear_error(&e); } g_object_unref(qu); }
    g_object_unref(par);
    if (!ok || k < 3) CHECK(same(db), "a refused statement and a SELECT change nothing");
    WITNESS_IF(ok && n == NH, "executed"); WITNESS_IF(!qu && n, "refused");
    must(db, "CREATE TABLE `zzzz` (`a` INT NOT NULL PRIMARY KEY `a`)"); must(db, "INSERT INTO `zzzz` (`a`) VALUES (5)"); CHECK(n_rows(db, "SELECT * FROM `zzzz`", NULL) == 1, "the database stays usable");
    g_object_unref(db);
}
void h_int(void)
{
    static const char *const pre[] = { "", "214748364", "2147483", "4294967", "1844674407370955", "0000000000" };
    unsigned k = sym_choose(6), n = k ? 1 + sym_choose(k == 1 ? 2 : 3) : 1 + sym_choose(5), neg = sym_bool(), where = sym_bool(); char lit[32], s[120], *p = lit; long long v = 0;
    if (neg) *p++ = '-'; char *d = p; p = add(p, pre[k]); sym_text(p, n, '0', '9');
    if (strlen(d) <= 13) { for (; *d; d++) v = v * 10 + (*d - '0'); if (neg) v = -v; } else v = 1LL << 40;
    int fits = v >= -2147483647LL && v <= 2147483647LL; ASSUME(v != -2147483648LL);
    LibmsiDatabase *db = base();
    if (where) {
        must(db, "CREATE TABLE `w` (`i` SHORT NOT NULL, `v` LONG PRIMARY KEY `i`)"); Cell c[4] = { c_int(1), c_int(fits ? (int)v : 0), c_int(2), c_int(77) }; ASSUME(v != 77);
        CHECK(exr(db, "INSERT INTO `w` (`i`,`v`) VALUES (?,?)", 2, c) && exr(db, "INSERT INTO `w` (`i`,`v`) VALUES (?,?)", 2, c + 2), "insert");
        add(add(s, "SELECT `i` FROM `w` WHERE `v` = "), lit); LibmsiQuery *q = q_try(db, s); CHECK((q != NULL) == fits, "a literal is accepted exactly if it is a 32-bit integer");
        if (q) { g_object_unref(q); CHECK(rows_are(db, s, NULL, 1, 1, c), "and compares as its value"); WITNESS("compared"); }
    } else {
        must(db, "CREATE TABLE `w` (`v` LONG NOT NULL PRIMARY KEY `v`)"); add(add(add(s, "INSERT INTO `w` (`v`) VALUES ("), lit), ")");
        CHECK(ex(db, s, NULL) == fits, "a literal is accepted exactly if it is a 32-bit integer"); Cell c = c_int((int)v);
        CHECK(rows_are(db, "SELECT `v` FROM `w`", NULL, fits, 1, &c), "and has its value"); WITNESS_IF(fits && neg, "stored"); WITNESS_IF(!fits, "too large");
    }
    g_object_unref(db);
}
void h_str(void)
{
    unsigned n = sym_choose(4), where = sym_bool(), quote = 0, cut = sym_bool(); char v[4], s[120], *p; Cell c[2] = { c_int(3) };
    sym_text(v, n, 1, 127); for (unsigned i = 0; i < n; i++) if (v[i] == '\'') quote = 1; c[1] = c_str(v);
    LibmsiDatabase *db = base();
    if (where) { if (!quote) { if (n) { CHECK(exr(db, "INSERT INTO `t` (`k`,`s`) VALUES (?,?)", 2, c), "insert"); } else must(db, "INSERT INTO `t` (`k`,`s`) VALUES (3,'')"); } p = add(s, "SELECT `k` FROM `t` WHERE `k` > 2 AND `s` = '"); }
    else p = add(s, "INSERT INTO `t` (`k`,`s`) VALUES (3,'");
    p = add(p, v); if (!cut) p = add(p, where ? "'" : "')"); char *sql = exact(s, p - s);
    if (cut) { CHECK(quote || !ex(db, sql, NULL), "an unterminated literal is refused"); if (!where && !quote) CHECK(same(db), "nothing changes"); WITNESS_IF(n && !quote, "unterminated"); }
    else if (quote) { CHECK(!ex(db, sql, NULL), "a quote ends the literal, and what follows is refused"); CHECK(same(db), "nothing changes"); WITNESS("quote"); }
    else if (where) { CHECK(rows_are(db, sql, NULL, 1, 1, c), "the literal matches exactly its characters"); WITNESS_IF(n == 3, "matched"); }
    else { CHECK(ex(db, sql, NULL), "the literal is accepted"); Cell w[6] = { c_int(1), c_str("a"), c_int(2), c_str("b"), c[0], c[1] }; CHECK(rows_are(db, "SELECT * FROM `t`", NULL, 3, 2, w), "and stored exactly"); WITNESS_IF(n == 3, "stored"); }
    g_object_unref(db);
}
/* '|' marks a gap, upper-case words are keywords */
static const char *const fm[] = {
    "SELECT|DISTINCT|`k`|FROM|`t`|WHERE|`k`|=|1|OR|`s`|IS|NOT|NULL|AND|`k`|=|2", "INSERT|INTO|`t`|(`k`,`s`)|VALUES|(3,'c')|TEMPORARY",
    "UPDATE|`t`|SET|`s`|=|'c'|WHERE|`k`|=|2", "DELETE|FROM|`t`|WHERE|`s`|IS|NULL", "CREATE|TABLE|`n`|(`a`|INT|NOT|NULL,|`b`|LONGCHAR|LOCALIZABLE,|`c`|OBJECT,|`d`|INTEGER,|`e`|CHARACTER(4),|`f`|SHORT|PRIMARY|KEY|`a`)|HOLD" };
static const int kws[] = { 9, 4, 3, 5, 14 }, gaps[] = { 16, 6, 8, 6, 21 };
void h_form(void)
{
    unsigned k = sym_choose(5), mode = sym_bool(), pos = sym_choose(mode ? gaps[k] : kws[k]), n = mode ? 1 + sym_bool() : 0, w = 0, g = 0; char s[200], *p = s; const char *q = fm[k]; int in = 0, lit = 0; unsigned mask = mode ? 0 : sym_u8(), nth = 0;
    for (; *q; q++) {
        if (*q == '\'') lit = !lit;
        int up = !lit && *q >= 'A' && *q <= 'Z';
        if (up && !in) w++; in = up;
        if (*q == '|') { if (mode && g++ == pos) for (unsigned i = 0; i < n; i++) *p++ = " \t\n\f"[sym_choose(4)]; else *p++ = ' '; }
        else if (up && !mode && w == pos + 1) *p++ = *q | (mask >> nth++ % 3 & 1) << 5;
        else *p++ = *q;
    }
    LibmsiDatabase *db = base(); Cell r[6] = { c_int(1), c_str("a"), c_int(2), c_str("b"), c_int(3), c_str("c") }, two[2] = { c_int(1), c_int(2) }; char *sql = exact(s, p - s);
    if (k == 0) CHECK(rows_are(db, sql, NULL, 2, 1, two), "the same rows");
    else CHECK(ex(db, sql, NULL), "the statement is accepted");
    if (k == 1) { CHECK(rows_are(db, "SELECT * FROM `t`", NULL, 3, 2, r), "the same row"); WITNESS("inserted"); }
    else if (k == 2) { r[3] = c_str("c"); CHECK(rows_are(db, "SELECT * FROM `t`", NULL, 2, 2, r), "the same update"); }
    else CHECK(rows_are(db, "SELECT * FROM `t`", NULL, 2, 2, r), "the same rows");
    if (k == 4) CHECK(n_rows(db, "SELECT `a`,`b`,`c`,`d`,`e`,`f` FROM `n`", NULL) == 0 && n_rows(db, "SELECT * FROM `_Columns` WHERE `Table`='n'", NULL) == 6, "the same table");
    g_object_unref(db);
}
