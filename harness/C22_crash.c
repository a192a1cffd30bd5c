// Whenever the process dies, the path of a database holds the complete old or the complete new content.
//@ run h_crash engine=msym lib=all workers=4 timeout=300 covers="every point right before and right after every change to a file, from opening through modification, commit, another modification and close with or without a second commit; modes transact, create (over no file and over an existing one), direct, output path; any values"
//@ run h_crash_fault engine=msym lib=all workers=6 timeout=300 covers="the same for one commit in which any single file operation fails"
#include "commit.h"
static struct { Node *n; int after; } log_[64]; static int nlog; static const char *db_path; static Node *contents[4]; static int ncontents;
/* what a process starting now would find */
static void crash(int op, const char *w)
{
    committed_point(op, w);
    if (nlog == 64) abort();
    log_[nlog].n = env_file(db_path); nlog++;
}
static void allow(Node *n) { contents[ncontents++] = clone(n); }
static void judge(void)
{
    env_point = NULL;
    for (int i = 0; i < nlog; i++) { int ok = 0; for (int k = 0; k < ncontents; k++) ok |= same_or_none(contents[k], log_[i].n); CHECK(ok, "at every moment the path holds a complete committed content"); }
}
void h_crash(void)
{
    int mode = sym_choose(5), over = mode == 4, second = sym_bool(); Vals v; if (over) { mode = M_CREATE; Vals o; LibmsiDatabase *x = db_create("/a.msi"); must(x, "CREATE TABLE `Z` (`A` SHORT PRIMARY KEY `A`)"); CHECK(commit(x), "commit"); g_object_unref(x); }
    Node *first = clone(env_file("/a.msi"));
    LibmsiDatabase *db = start(mode, &v); db_path = "/a.msi"; env_point = crash; nlog = 0; ncontents = 0;
    if (mode == M_CREATE) { contents[ncontents++] = first; } else allow(env_file(db_path));
    change(db, &v); CHECK(commit(db), "commit"); allow(env_file(db_path)); complete(result_path(mode), &v);
    must(db, "DROP TABLE `U`"); must(db, "DELETE FROM `_Streams` WHERE `Name` = 'new'");
    if (second) { CHECK(commit(db), "commit"); allow(env_file(db_path)); }
    g_object_unref(db);
    CHECK(same_or_none(contents[ncontents - 1], env_file(db_path)), "in the end it holds the last committed content"); WITNESS("end");
    judge();
}
static int target, seen;
static int fail(int op, const char *w) { if (op == OP_FD_WRITE || op == OP_CONVERT || op == OP_OPEN_READ) return 0; return seen++ == target; }
void h_crash_fault(void)
{
    int mode = sym_choose(4); Vals v;
    LibmsiDatabase *db = start(mode, &v); db_path = "/a.msi"; env_point = crash; nlog = 0; ncontents = 0;
    allow(env_file(db_path)); change(db, &v);
    target = sym_choose(80); seen = 0; env_fail = fail; commit(db); env_fail = NULL;
    if (!before_commit) { allow(env_file(db_path)); complete(result_path(mode), &v); WITNESS("arrived"); } else WITNESS("failed");
    g_object_unref(db); judge();
}
