// wixl's preprocessor replaces exactly the variable references of a text.
//@ run h_refs engine=msym lib=gen:wixl/util.c workers=6 timeout=300 covers="texts of 0..3 pieces out of any character but $, $$, $, $x, references to 2 defined variables (values of any 2 characters), to one redefined, one undefined again, one never defined, to the environment, to sys.BUILDARCH, CURRENTDIR, SOURCEFILEPATH, of an unknown kind, without a kind and without an end: the text with exactly the references replaced, or an error"
//@ run h_any engine=msym lib=gen:wixl/util.c workers=6 timeout=300 covers="texts of 0..5 arbitrary characters, with or without $(var.A) in front: the same"
//@ assume the C which valac makes of the Vala sources is what is built; <?if?> conditions (GScanner) and <?include?>, <?foreach?> are outside
#include "sym.h"
#include <glib.h>
#include <gio/gio.h>
static const char *x_getenv(const char *n) { return strcmp(n, "HOME") ? NULL : "/h"; }
#define g_getenv x_getenv
#define g_get_current_dir() g_strdup("/cwd")
static char *x_file_get_path(void *f) { return g_strdup(*(char *)f == 'd' ? "/src" : "/src/a.wxs"); }
static char *x_file_get_basename(void *f) { return g_strdup("a.wxs"); }
static char dirobj[] = "d", fileobj[] = "f";
#define g_file_get_path x_file_get_path
#define g_file_get_basename x_file_get_basename
#define g_file_get_parent(f) ((GFile *)dirobj)
#undef g_object_unref
#define g_object_unref(o) x_unref(o)
static void x_unref(void *o) { if (o != (void *)dirobj && o != (void *)fileobj) (g_object_unref)(o); }
#include "wixl/preprocessor.c"
#undef g_object_unref
gchar *wixl_arch_to_string(WixlArch a) { return g_strdup("x64"); }
static WixlPreprocessor *pp;
static char va[3], vb[3];
static void setup(void)
{
    GHashTable *g = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free);
    for (int i = 0; i < 2; i++) { va[i] = sym_u8(); vb[i] = sym_u8(); ASSUME(va[i] && vb[i]); }
    g_hash_table_insert(g, g_strdup("A"), g_strdup(va)); pp = wixl_preprocessor_new(g, NULL, 0);
    wixl_preprocessor_define_variable(pp, "B.C", vb); wixl_preprocessor_define_variable(pp, "R", "old"); wixl_preprocessor_define_variable(pp, "R", "new");
    wixl_preprocessor_define_variable(pp, "U", "gone"); wixl_preprocessor_undefine_variable(pp, "U");
}
static const char *const PIECE[18] = { "", "$$", "$", "$x", "$(var.A)", "$(var.B.C)", "$(var.R)", "$(var.U)", "$(var.a)", "$(env.HOME)", "$(env.NONE)", "$(sys.BUILDARCH)", "$(sys.CURRENTDIR)", "$(sys.SOURCEFILEPATH)", "$(sys.OTHER)", "$(foo.A)", "$(A)", "$(var.A" };
/* A dollar before a reference, and one of several in a row, stand for themselves but for one of them. NULL: refused. */
static const char *expand(const char *in, char *o)
{
    const char *const ref[][2] = { { "(var.A)", va }, { "(var.B.C)", vb }, { "(var.R)", "new" }, { "(env.HOME)", "/h" }, { "(sys.BUILDARCH)", "x64" }, { "(sys.CURRENTDIR)", "/cwd" }, { "(sys.SOURCEFILEPATH)", "/src/a.wxs" } };
    char *const out = o;
    while (*in) {
        int k = 0; if (*in != '$') { *o++ = *in++; continue; }
        while (*in == '$') in++, k++;
        for (int i = 0; i < k - 1; i++) *o++ = '$';
        if (*in == '(') {
            unsigned i; for (i = 0; i < 7 && strncmp(in, ref[i][0], strlen(ref[i][0])); i++);
            if (i == 7) return NULL;
            strcpy(o, ref[i][1]); o += strlen(o); in += strlen(ref[i][0]);
        } else if (k == 1) *o++ = '$';
    }
    *o = 0; return out;
}
static void same(const char *in)
{
    char out[64]; GError *e = NULL; const char *want = expand(in, out); gchar *r = wixl_preprocessor_eval(pp, in, (GFile *)fileobj, &e);
    CHECK((r == NULL) == (e != NULL), "failure comes with an error");
    if (want) CHECK(r && !strcmp(r, want), "exactly the references are replaced"); else CHECK(e != NULL, "a reference that means nothing is an error");
    WITNESS_IF(want != NULL, "replaced"); WITNESS_IF(!want, "refused"); g_free(r); if (e) g_error_free(e);
}
void h_refs(void)
{
    char in[64] = ""; int n = sym_choose(4); setup();
    for (int i = 0; i < n; i++) {
        int k = sym_choose(18); char *o = in + strlen(in);
        if (k) strcpy(o, PIECE[k]); else { o[0] = sym_u8(); o[1] = 0; ASSUME(o[0] && o[0] != '$'); }
        if (k == 17) break;
    }
    same(in);
}
void h_any(void)
{
    char in[24] = ""; int n = sym_choose(6), ref = sym_bool(); setup(); if (ref) strcpy(in, "$(var.A)");
    char *p = in + strlen(in); for (int i = 0; i < n; i++) { p[i] = sym_u8(); ASSUME(p[i]); } p[n] = 0;
    same(in);
}
