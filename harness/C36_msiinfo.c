// msiinfo prints what the package holds.
//@ run h_extract engine=msym lib=all workers=6 timeout=300 covers="streams of 0..3 or 4095..4099 bytes with any content, one extracted out of two or a missing one, from a missing package, any of the writes failing: exactly the bytes and status 0, or a nonzero status"
//@ run h_list engine=msym lib=all workers=6 timeout=300 covers="a package of any 0..2 of 2 streams and 0..2 of 2 tables with names of any two letters: streams and tables print exactly these"
//@ run h_suminfo engine=msym lib=all workers=6 timeout=300 covers="summary information with any 3 of 6 properties, a string with any character, integers: exactly their lines"
//@ run h_args engine=msym lib=all workers=6 timeout=300 covers="every command line of 0..4 words out of the 5 subcommands, an unknown one, a package, a missing one, a stream and a table: nonzero status unless it is complete and names what is there"
#include "tools.h"
#include "tools/msiinfo.c"
#undef main
#undef fprintf
#undef printf
#undef exit
static int refusable, want_ok; static char exp_[8300]; static size_t exp_n;
static void after(int st)
{
    CHECK((st == 0) == want_ok, "status 0 exactly if the package was read and everything printed");
    if (want_ok && exp_n != (size_t)-1) CHECK(env_out_len == exp_n && !memcmp(env_out, exp_, exp_n), "exactly what the package holds is printed");
    WITNESS_IF(want_ok, "printed"); WITNESS_IF(!want_ok || !refusable, "refused");
}
static void t_exited(int st) { after(st); sym_end(); }
static void put_(const char *s) { while (*s) exp_[exp_n++] = *s++; }
static void line(const char *s) { put_(s); put_("\n"); }
static void stream(LibmsiDatabase *db, const char *name, const void *d, unsigned n)
{ LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, name); env_put("/d", env_mem_file(d, n)); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load"); CHECK(ex(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", r), "insert"); g_object_unref(r); }
static int nth;
static int fails(int op, const char *w) { return op == OP_FD_WRITE && nth-- == 0; }
void h_extract(void)
{
    refusable = 1;
    static const char *const nm[] = { "one", "Two", "none" }; unsigned i, k = sym_choose(3), big = sym_bool(), n = big ? 4095 + sym_choose(5) : sym_choose(4), miss = sym_choose(8) == 7; char *d = malloc(n + 1);
    for (i = 0; i < n; i++) d[i] = i < 3 || i >= 4094 ? sym_u8() : (char)i;
    LibmsiDatabase *db = db_create("/a.msi"); stream(db, nm[0], k == 0 ? d : "other", k == 0 ? n : 5); stream(db, nm[1], k == 1 ? d : "ot", k == 1 ? n : 2); must(db, "CREATE TABLE `none` (`a` INT NOT NULL PRIMARY KEY `a`)"); must(db, "INSERT INTO `none` (`a`) VALUES (1)"); CHECK(commit(db), "commit"); g_object_unref(db);
    char *av[] = { "msiinfo", "extract", miss ? "/none" : "/a.msi", (char *)nm[k], NULL }; nth = sym_choose(3) - 1; int w = nth; unsigned writes = (n + 4095) / 4096; env_out_fd = 1; env_out_len = 0;
    want_ok = !miss && k < 2 && (w < 0 || w >= (int)writes); memcpy(exp_, d, n); exp_n = n; env_fail = fails; int st = tool_main(4, av); env_fail = NULL; WITNESS_IF(big && want_ok, "a large one"); after(st);
}
void h_list(void)
{
    char s[2][3], t[2][3], q[100]; int ns = sym_choose(3), nt = sym_choose(3), what = sym_bool(), i; LibmsiDatabase *db = db_create("/a.msi");
    for (i = 0; i < ns; i++) { sym_text(s[i], 2, 'a', 'z'); if (i) ASSUME(strcmp(s[0], s[1])); stream(db, s[i], "x", 1); }
    for (i = 0; i < nt; i++) { sym_text(t[i], 2, 'a', 'z'); if (i) ASSUME(strcmp(t[0], t[1])); char *p = q; const char *a = "CREATE TABLE `", *b = "` (`a` INT NOT NULL PRIMARY KEY `a`)"; while (*a) *p++ = *a++; *p++ = t[i][0]; *p++ = t[i][1]; while (*b) *p++ = *b++; *p = 0; must(db, q); }
    CHECK(commit(db), "commit"); g_object_unref(db);
    char *av[] = { "msiinfo", what ? "tables" : "streams", "/a.msi", NULL }; env_out_len = 0; want_ok = 1; exp_n = -1; int st = tool_main(3, av), n = what ? nt : ns, used[2] = { 0 }; CHECK(st == 0, "status 0");
    const char *h = "_SummaryInformation\n_ForceCodepage\n"; size_t o = what ? strlen(h) : 0; CHECK(env_out_len == o + 3 * n && !memcmp(env_out, h, o), "as many lines as there are");
    for (i = 0; i < n; i++) { int f = 0; const char *l = env_out + o + 3 * i; CHECK(l[2] == '\n', "one name per line"); for (int j = 0; j < n && !f; j++) { const char *x = what ? t[j] : s[j]; if (!used[j] && l[0] == x[0] && l[1] == x[1]) { used[j] = 1; f = 1; } } CHECK(f, "exactly the names"); }
    after(st); WITNESS_IF(n == 2, "two");
}
void h_suminfo(void)
{
    static const struct { int p; const char *n; } pr[6] = { { 2, "Title" }, { 3, "Subject" }, { 9, "Revision number (UUID)" }, { 14, "Version" }, { 15, "Source" }, { 19, "Security" } };
    LibmsiDatabase *db = db_create("/a.msi"); GError *e = NULL; LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 9, &e); exp_n = 0; char v[3]; unsigned skip = sym_choose(4), i; unsigned char c = sym_u8(); ASSUME(c && c < 128);
    static const int nums[] = { 0, 200, -1, 2147483647 }; static const char *const txt[] = { "0 (0)", "200 (c8)", "-1 (ffffffff)", "2147483647 (7fffffff)" };
    for (i = 0; i < 6; i++) {
        if (i % 4 == skip) continue; put_(pr[i].n); put_(": ");
        if (i < 3) { v[0] = 'A' + i; v[1] = i == 1 ? c : 0; v[2] = 0; CHECK(libmsi_summary_info_set_string(si, pr[i].p, v, &e), "set"); line(v); }
        else { int x = (i + skip) % 4; CHECK(libmsi_summary_info_set_int(si, pr[i].p, nums[x], &e), "set"); line(txt[x]); }
    }
    CHECK(libmsi_summary_info_persist(si, &e), "persist"); g_object_unref(si); CHECK(commit(db), "commit"); g_object_unref(db);
    char *av[] = { "msiinfo", "suminfo", "/a.msi", NULL }; env_out_len = 0; want_ok = 1; after(tool_main(3, av));
}
void h_args(void)
{
    refusable = 1;
    static const char *const w[] = { "extract", "streams", "tables", "suminfo", "export", "what", "/a.msi", "/none", "one", "t" }; unsigned n = sym_choose(5), a[4] = { 99, 99, 99, 99 }, i; char *av[6] = { "msiinfo" };
    LibmsiDatabase *db = db_create("/a.msi"); GError *e = NULL; stream(db, "one", "x", 1); must(db, "CREATE TABLE `t` (`a` INT NOT NULL PRIMARY KEY `a`)"); LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 9, &e); CHECK(libmsi_summary_info_set_string(si, 2, "x", &e) && libmsi_summary_info_persist(si, &e), "persist"); g_object_unref(si); CHECK(commit(db), "commit"); g_object_unref(db);
    for (i = 0; i < n; i++) { a[i] = sym_choose(10); av[i + 1] = (char *)w[a[i]]; }
    want_ok = a[1] == 6 && ((n == 2 && a[0] >= 1 && a[0] <= 3) || (n == 3 && ((a[0] == 0 && a[2] == 8) || (a[0] == 4 && a[2] == 9)))); exp_n = -1; env_out_len = 0; env_out_fd = 1; after(tool_main(n + 1, av));
}
