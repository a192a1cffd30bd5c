// msibuild does what its command line says.
//@ run h_args engine=msym lib=all,tools/sqldelim.c workers=7 timeout=400 covers="every command line of 1..4 arguments after the file name out of the 4 options, an unknown one, a lone and a doubled dash form, and 3 operands (a table file, a missing file, an SQL statement), for an existing package: exit status, tables, rows, streams and summary afterwards"
//@ run h_args engine=msym lib=all,tools/sqldelim.c workers=8 timeout=800 tier=thorough name=h_args5 defs=-DMAXN=5 covers="the same with up to 5 arguments"
//@ run h_new engine=msym lib=all,tools/sqldelim.c workers=6 timeout=300 defs="-DMAXN=3 -DNEW=1" covers="every command line of 1..3 arguments for a package that does not exist, the file name first or after the first option"
#ifndef MAXN
#define MAXN 4
#endif
#ifndef NEW
#define NEW 0
#endif
#include "tools.h"
#include <sys/stat.h>
static int t_stat(const char *p) { return env_file(p) ? 0 : -1; }
#define stat(p, s) t_stat(p)
#define g_uuid_string_random() g_strdup("5ab70192-ebc4-4977-a3ee-2d0cd2cb1ee4")
#include "tools/msibuild.c"
#undef main
#undef fprintf
#undef printf
#undef exit
#define SQL "CREATE TABLE `q` (`a` INT NOT NULL PRIMARY KEY `a`)"
enum { T_S, T_Q, T_I, T_A, T_X, T_DASH, T_QQ, T_FILE, T_NONE, T_SQL, NT };
static const char *const tok[NT] = { "-s", "-q", "-i", "-a", "-x", "-", "-qq", "/x.idt", "/none", SQL };
typedef struct { int u, q; int stream[NT]; int sub, aut, tmp, uuid; } St;
static int opt(int t) { return t < T_FILE; }
/* the state after the arguments; 0: refused */
static int expect(St *s, const int *a, int n)
{
    int i = 0;
    while (i < n) {
        int o = a[i++];
        if (o > T_A || i >= n) return 0;
        if (o == T_A) { if (i + 2 > n || a[i + 1] != T_FILE) return 0; s->stream[a[i]] = 1; i += 2; }
        else if (o == T_S) { s->sub = a[i++]; if (i < n && !opt(a[i])) { s->aut = a[i++]; if (i < n && !opt(a[i])) { s->tmp = a[i++]; if (i < n && !opt(a[i])) s->uuid = a[i++]; } } }
        else do { if (o == T_I ? a[i] != T_FILE : (a[i] != T_SQL || s->q)) return 0; if (o == T_I) s->u = 1; else s->q = 1; i++; } while (i < n && !opt(a[i]));
    }
    return 1;
}
static void prop_is(LibmsiSummaryInfo *si, int p, int t, const char *dflt)
{
    const char *g = libmsi_summary_info_get_string(si, p, NULL), *w = t < 0 ? dflt : tok[t];
    CHECK(w ? g && !strcmp(g, w) : !g, "the summary is as it was or as set");
}
static St s; static int ok, n;
static const char idt[] = "k\tv\ni2\tS8\nu\tk\n5\tab\n";
static void after(int st);
static void t_exited(int st) { after(st); sym_end(); }
static void args(void)
{
    int a[MAXN], i; char *av[MAXN + 3]; n = 1 + sym_choose(MAXN); memset(&s, 0, sizeof s); s.sub = s.aut = s.tmp = s.uuid = -1;
    env_put("/x.idt", env_mem_file(idt, sizeof idt - 1));
    if (!NEW) { LibmsiDatabase *d = db_create("/a.msi"); must(d, "CREATE TABLE `t` (`k` INT NOT NULL PRIMARY KEY `k`)"); must(d, "INSERT INTO `t` (`k`) VALUES (3)"); CHECK(commit(d), "commit"); g_object_unref(d); }
    for (i = 0; i < n; i++) { a[i] = sym_choose(NT); size_t l = strlen(tok[a[i]]) + 1; av[2 + i] = malloc(l); memcpy(av[2 + i], tok[a[i]], l); }
    av[0] = "msibuild"; av[1] = "/a.msi"; av[2 + n] = NULL;
    if (NEW && opt(a[0]) && sym_bool()) { av[1] = av[2]; av[2] = "/a.msi"; }
    St before = s; ok = expect(&s, a, n); if (!ok) s = before;
    after(tool_main(n + 2, av));
}
static void after(int st)
{
    int i; CHECK((st == 0) == ok, "status 0 exactly if every action was understood and done");
    LibmsiDatabase *d = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(d != NULL, "a package afterwards");
    CHECK(n_rows(d, "SELECT * FROM `_Tables`", NULL) == !NEW + s.u + s.q, "exactly the tables asked for"); Cell w[2] = { c_int(3) };
    if (!NEW) CHECK(rows_are(d, "SELECT * FROM `t`", NULL, 1, 1, w), "what was there is kept");
    if (s.u) { w[0] = c_int(5); w[1] = c_str("ab"); CHECK(rows_are(d, "SELECT * FROM `u`", NULL, 1, 2, w), "the imported rows"); }
    if (s.q) CHECK(n_rows(d, "SELECT * FROM `q`", NULL) == 0, "the table of the query");
    int ns = 0; for (i = 0; i < NT; i++) if (s.stream[i]) { ns++; LibmsiRecord *r = libmsi_record_new(1); libmsi_record_set_string(r, 1, tok[i]); LibmsiQuery *q = q_new(d, "SELECT `Data` FROM `_Streams` WHERE `Name` = ?"); CHECK(q_exec(q, r), "query"); g_object_unref(r); r = libmsi_query_fetch(q, NULL); CHECK(r != NULL, "the stream is there"); GInputStream *in = libmsi_record_get_stream(r, 1); char b[64]; gsize got = 0; CHECK(in && g_input_stream_read_all(in, b, 64, &got, NULL, NULL) && got == sizeof idt - 1 && !memcmp(b, idt, got), "with the bytes of the file"); g_object_unref(in); g_object_unref(r); g_object_unref(q); }
    CHECK(n_rows(d, "SELECT `Name` FROM `_Streams`", NULL) == ns + (NEW || s.sub >= 0), "exactly the streams asked for");
    LibmsiSummaryInfo *si = libmsi_summary_info_new(d, 0, NULL); CHECK(si != NULL, "summary");
    prop_is(si, LIBMSI_PROPERTY_SUBJECT, s.sub, NULL); prop_is(si, LIBMSI_PROPERTY_AUTHOR, s.aut, NULL); prop_is(si, LIBMSI_PROPERTY_TEMPLATE, s.tmp, NEW ? ";1033" : NULL); prop_is(si, LIBMSI_PROPERTY_UUID, s.uuid, NEW ? "{5AB70192-EBC4-4977-A3EE-2D0CD2CB1EE4}" : NULL);
    prop_is(si, LIBMSI_PROPERTY_TITLE, -1, NEW ? "Installation Database" : NULL); g_object_unref(si);
    WITNESS_IF(ok && n == MAXN, "done"); WITNESS_IF(!ok, "refused"); g_object_unref(d);
}
void h_args(void) { args(); }
void h_new(void) { args(); }
