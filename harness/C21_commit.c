// A commit that cannot write reports failure, keeps the old file, and can be repeated.  A crash leaves the old or the new file.  (Shared by C22.)
//@ run h_fault engine=msym lib=all workers=6 timeout=300 covers="a database with tables, a stream and a nested storage, modified (any values): every single failing operation (stream creation, write, close of a stream, close of the file, rename, read) during commit, in modes transact, create, direct and with an output path; then the commit is repeated"
//@ run h_fault2 engine=msym lib=all workers=6 timeout=300 covers="the same with two failing operations: one in the commit, one in its repetition (transact)"
//@ run h_unusable engine=msym lib=all workers=2 timeout=300 covers="every file operation failing from the n-th on, through commit and final close, every n up to the last"
#include "commit.h"
static int target, seen, fired, stay;
static int fail(int op, const char *w)
{
    if (op == OP_OPEN_READ || op == OP_OPEN_WRITE || op == OP_FD_WRITE || op == OP_CONVERT || op == OP_UNLINK) return 0;
    if (op == OP_READ && strcmp(w, "data")) return 0;
    int hit = stay ? seen >= target : seen == target; seen++; if (hit) fired = 1; return hit;
}
static void arm(int n) { target = n; seen = fired = 0; env_fail = fail; }
#define MAXOP 60
void h_fault(void)
{
    int mode = sym_choose(4); Vals v; LibmsiDatabase *db = start(mode, &v); Node *old = clone(env_file(result_path(mode)));
    change(db, &v);
    arm(sym_choose(MAXOP)); gboolean ok = commit(db); int f = fired && before_commit; env_fail = NULL;
    CHECK(ok || fired, "a commit in which nothing fails succeeds");
    if (f) {
        CHECK(!ok, "a commit in which an operation fails reports it");
        CHECK(same_or_none(old, env_file(result_path(mode))), "and leaves the committed content alone"); WITNESS("failed");
        if (sym_bool()) { g_object_unref(db); CHECK(same_or_none(old, env_file(result_path(mode))), "closing keeps it"); return; }
        CHECK(commit(db), "it can be repeated"); 
    }
    complete(result_path(mode), &v); g_object_unref(db); complete(result_path(mode), &v);
    WITNESS("complete");
}
void h_fault2(void)
{
    Vals v; LibmsiDatabase *db = start(0, &v); Node *old = clone(env_file("/a.msi"));
    change(db, &v);
    arm(7 + 8 * sym_choose(5)); gboolean ok = commit(db); int f = fired && before_commit; env_fail = NULL; if (!f) { g_object_unref(db); return; }
    CHECK(!ok, "reported"); before_commit = 1;
    arm(sym_choose(MAXOP)); ok = commit(db); f = fired && before_commit; env_fail = NULL;
    CHECK(ok || fired, "a commit in which nothing fails succeeds");
    if (f) { CHECK(!ok, "reported again"); CHECK(same_or_none(old, env_file("/a.msi")), "kept again"); CHECK(commit(db), "repeated again"); WITNESS("twice"); }
    complete("/a.msi", &v); g_object_unref(db); complete("/a.msi", &v); WITNESS("complete");
}
void h_unusable(void)
{
    Vals v; LibmsiDatabase *db = start(0, &v); Node *old = clone(env_file("/a.msi"));
    change(db, &v); stay = 1;
    arm(sym_choose(MAXOP)); gboolean ok = commit(db); int f = fired && before_commit;
    g_object_unref(db); env_fail = NULL;
    CHECK(ok == !f || (ok == 0 && fired), "success is reported exactly if the data reached the file");
    if (f) { CHECK(same_or_none(old, env_file("/a.msi")), "the committed content is kept"); WITNESS("kept"); } else { complete("/a.msi", &v); WITNESS("complete"); }
}
