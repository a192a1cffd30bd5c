// msiextract puts every file where its Component's Directory and the directories above it say.
//@ run h_paths engine=msym lib=all workers=6 timeout=300 covers="tables of 3 directories (a root with no parent or itself as parent, named SourceDir or .; two below it or below each other, children first or last), 3 components, one in each, 1..2 files in any component; names short|long or long only, with one of them 1..2 characters, any of 1..127 but | and /; ProgramFilesFolder: the paths listed, in order"
//@ run h_main engine=msym lib=all workers=4 timeout=200 covers="msiextract -l of 1..2 packages lists the files of each; a missing package is a failure"
//@ run h_bad engine=msym lib=all workers=4 timeout=200 covers="a component without a directory, a file without a component, directories in a loop of 1..3: refused with an error"
//@ run h_cab engine=msym lib=all workers=4 timeout=300 covers="cabinet inside the package: exactly its bytes (0..3 any bytes) are unpacked to the directory asked for, members in any order, each under the path of its File row, an unlisted member under its own name; media without a cabinet skipped; a cabinet that is not there is a failure"
//@ run h_ext engine=msym lib=all workers=4 timeout=200 covers="cabinet beside the package, the directory listing 3 entries in any case, files or directories: the file that matches without case"
//@ assume the C which valac makes of msiextract.vala is what is built; gcab itself (decompression, writing the files) is a stand-in that checks what it is given; names are ASCII; a / inside a name and the target:source form of DefaultDir are outside
#include "tools.h"
#undef fprintf
#include <gio/gio.h>
#include <libgcab.h>
#include <config.h>
#include <glib/gi18n-lib.h>
static int x_fprintf(FILE *fp, const char *f, ...) { if (fp != (FILE *)1) return 0; va_list ap; va_start(ap, f); char *s = g_strdup_vprintf(f, ap); va_end(ap); t_out(s, strlen(s)); g_free(s); return 0; }
static char *x_str(void *rec) { return libmsi_record_get_string((LibmsiRecord *)rec, 1); }
static void *x_obj(const char *s) { LibmsiRecord *r = libmsi_record_new(1); if (!libmsi_record_set_string(r, 1, s)) abort(); return r; }
static GFile *x_file_new_for_path(const char *p) { return x_obj(p); }
static char *x_file_get_path(GFile *f) { return x_str(f); }
static GFile *x_file_get_parent(GFile *f) { char *s = x_str(f), *e = s + strlen(s); while (e > s && e[-1] != '/') e--; if (e > s + 1) e--; *e = 0; GFile *g = x_obj(s); g_free(s); return g; }
static GFile *x_file_get_child(GFile *f, const char *n) { char *s = x_str(f), *t = g_build_filename(s, n, NULL); GFile *g = x_obj(t); g_free(s); g_free(t); return g; }
static struct { const char *name; int dir; } ent[4]; static int n_ent, at_ent; static char *read_path;
static void *x_enumerate(GFile *f, const char *a, int fl, void *c, GError **e) { at_ent = 0; return x_obj("enum"); }
static void *x_next(void *en, void *c, GError **e) { return at_ent < n_ent ? x_obj(ent[at_ent++].name) : NULL; }
static int x_type(void *i) { return ent[at_ent - 1].dir ? G_FILE_TYPE_DIRECTORY : G_FILE_TYPE_REGULAR; }
static const char *x_name(void *i) { return ent[at_ent - 1].name; }
static void *x_read(GFile *f, void *c, GError **e)
{
    g_free(read_path); read_path = x_str(f);
    for (int i = 0; i < n_ent; i++) if (!ent[i].dir && !strncmp(read_path, "/d/", 3) && !strcmp(read_path + 3, ent[i].name)) return x_obj(read_path);
    *e = g_error_new(g_quark_from_string("file"), 1, "no file"); return NULL;
}
/* gcab */
static const char *members[3]; static int n_members, n_loaded, n_extracted, cur; static const uint8_t *cab_bytes; static int cab_len; static char *set_name; static GFile *to; static char *got[3];
GCabCabinet *gcab_cabinet_new(void) { return x_obj("cab"); }
gboolean gcab_cabinet_load(GCabCabinet *c, GInputStream *in, GCancellable *ca, GError **e)
{
    n_loaded++; CHECK(in != NULL, "a cabinet is given to load"); if (!cab_bytes) return TRUE;
    uint8_t b[8]; gsize n = 99; CHECK(g_input_stream_read_all(in, b, 8, &n, NULL, NULL) && n == (gsize)cab_len && !memcmp(b, cab_bytes, cab_len), "the bytes of the embedded cabinet"); return TRUE;
}
gboolean gcab_cabinet_extract_simple(GCabCabinet *c, GFile *path, GCabFileCallback cb, gpointer data, GCancellable *ca, GError **e)
{
    char *s = x_str(path); CHECK(!strcmp(s, "/out"), "unpacked into the directory asked for"); g_free(s); n_extracted++;
    for (cur = 0; cur < n_members; cur++) { set_name = NULL; CHECK(cb((GCabFile *)c, data), "no member is skipped"); got[cur] = set_name; } return TRUE;
}
const gchar *gcab_file_get_name(GCabFile *f) { return members[cur]; }
void gcab_file_set_extract_name(GCabFile *f, const gchar *n) { g_free(set_name); set_name = g_strdup(n); }
static void *x_opt_new(const char *s) { return NULL; }
static const char *opt_files[3]; static int opt_list; static const char *opt_dir;
#define bindtextdomain(a, b) NULL
#define bind_textdomain_codeset(a, b) NULL
#define textdomain(a) NULL
#define g_set_application_name(a) ((void)0)
#define g_option_context_new(s) NULL
#define g_option_context_set_help_enabled(a, b) ((void)0)
#define g_option_context_add_main_entries(a, b, c) ((void)0)
#define g_option_context_get_help(a, b, c) NULL
#define g_option_context_free(a) ((void)0)
static gboolean x_parse(void *c, int *argc, gchar ***argv, GError **e);
#define g_option_context_parse x_parse
#define g_get_current_dir() g_strdup("/out")
#undef g_warning
#define g_warning(...) ((void)0)
#undef g_critical
#define g_critical(...) ((void)0)
#define g_dgettext(d, s) (s)
#define g_file_new_for_path x_file_new_for_path
#define g_file_get_path x_file_get_path
#define g_file_get_parent x_file_get_parent
#define g_file_get_child x_file_get_child
#define g_file_enumerate_children(a, b, c, d, e) x_enumerate(a, b, c, d, e)
#define g_file_enumerator_next_file x_next
#define g_file_info_get_file_type x_type
#define g_file_info_get_name x_name
#define g_file_read x_read
#undef stdout
#undef stderr
#define stdout ((FILE *)1)
#define stderr ((FILE *)2)
#undef fprintf
#define fprintf x_fprintf
#include "msiextract.c"
#undef main
#undef stdout
#undef stderr
#undef fprintf
#undef printf
#undef exit
#define stderr stderr
static gboolean x_parse(void *c, int *argc, gchar ***argv, GError **e)
{ int n = 0; while (opt_files[n]) n++; files = n ? g_new0(gchar *, n + 1) : NULL; for (int i = 0; i < n; i++) files[i] = g_strdup(opt_files[i]); list_only = opt_list; directory = opt_dir ? g_strdup(opt_dir) : NULL; return TRUE; }
static void (*at_exit_)(int);
static void t_exited(int st) { if (at_exit_) at_exit_(st); else CHECK(0, "ends by itself"); }
static void ins(LibmsiDatabase *db, const char *sql, unsigned n, const char **v)
{ LibmsiRecord *r = libmsi_record_new(n); for (unsigned i = 0; i < n; i++) if (v[i]) CHECK(libmsi_record_set_string(r, i + 1, v[i]), "set"); CHECK(ex(db, sql, r), "insert"); g_object_unref(r); }
static void dir(LibmsiDatabase *db, const char *id, const char *par, const char *name) { const char *v[3] = { id, par, name }; ins(db, "INSERT INTO `Directory` (`Directory`,`Directory_Parent`,`DefaultDir`) VALUES (?,?,?)", 3, v); }
static void comp(LibmsiDatabase *db, const char *id, const char *d) { const char *v[3] = { id, "{guid}", d }; ins(db, "INSERT INTO `Component` (`Component`,`ComponentId`,`Directory_`) VALUES (?,?,?)", 3, v); }
static void file(LibmsiDatabase *db, const char *id, const char *c, const char *name) { const char *v[3] = { id, c, name }; ins(db, "INSERT INTO `File` (`File`,`Component_`,`FileName`,`FileSize`) VALUES (?,?,?,0)", 3, v); }
static LibmsiDatabase *package(const char *path)
{
    LibmsiDatabase *db = db_create(path);
    must(db, "CREATE TABLE `Directory` (`Directory` CHAR(72) NOT NULL, `Directory_Parent` CHAR(72), `DefaultDir` CHAR(255) NOT NULL LOCALIZABLE PRIMARY KEY `Directory`)");
    must(db, "CREATE TABLE `Component` (`Component` CHAR(72) NOT NULL, `ComponentId` CHAR(38), `Directory_` CHAR(72) NOT NULL, `Attributes` INT PRIMARY KEY `Component`)");
    must(db, "CREATE TABLE `File` (`File` CHAR(72) NOT NULL, `Component_` CHAR(72) NOT NULL, `FileName` CHAR(255) NOT NULL LOCALIZABLE, `FileSize` LONG NOT NULL PRIMARY KEY `File`)");
    must(db, "CREATE TABLE `Media` (`DiskId` INT NOT NULL, `LastSequence` LONG NOT NULL, `DiskPrompt` CHAR(64), `Cabinet` CHAR(255) PRIMARY KEY `DiskId`)");
    return db;
}
static char *cat(const char *a, const char *b) { char *s = malloc(strlen(a) + strlen(b) + 1); strcpy(s, a); strcat(s, b); return s; }
/* a name as it stands in the table (out) and the long one it stands for */
static const char *any_name(int hole, const char *fixed, const char **lng)
{
    char *l; int sh = hole ? 1 : sym_choose(2);
    if (hole) { unsigned n = 1 + sym_choose(2), at = sym_choose(n); l = malloc(4); for (unsigned i = 0; i < n; i++) if (i == at) { unsigned char c = sym_u8(); ASSUME(c && c < 128 && c != '|' && c != '/'); l[i] = c; } else l[i] = 'q'; l[n] = 0; sh = sym_choose(2); }
    else l = cat(fixed, "");
    *lng = l; return sh ? cat("SHORT~1|", l) : l;
}
static const char *join(const char *d, const char *n) { if (!*d) return n; if (!*n) return d; char *s = cat(d, "/"); return cat(s, n); }
static int is_root_name(const char *s) { return !strcmp(s, ".") || !strcmp(s, "SourceDir"); }
static const char *want_out;
static void listed(int st) { CHECK(st == 0, "success"); CHECK(env_out_len == strlen(want_out) && !memcmp(env_out, want_out, env_out_len), "every file is listed under its directory"); WITNESS("listed"); }
static const char *path_of[3];      /* T A B */
static void dirs(LibmsiDatabase *db, int hole)
{
    const char *an, *al, *bn, *bl, *aid = sym_bool() ? "ProgramFilesFolder" : "A"; int pa = sym_choose(2), pb = sym_choose(3), rev = hole ? hole == 1 : sym_bool(), root = hole ? hole == 2 : sym_bool();
    an = any_name(hole == 1, "App", &al); bn = hole == 2 ? any_name(1, 0, &bl) : (bl = "lib x"); if (hole != 2) bn = "LIB|lib x";
    if (!strcmp(aid, "ProgramFilesFolder")) al = "Program Files";
    path_of[0] = ""; path_of[1] = is_root_name(al) ? "" : al;
    const char *up = pb == 2 ? path_of[1] : ""; path_of[2] = is_root_name(bl) ? up : join(up, bl);
    if (rev) dir(db, "B", pb == 0 ? NULL : pb == 1 ? "T" : aid, bn);
    dir(db, aid, pa ? "T" : NULL, an); dir(db, "T", root ? "T" : NULL, root ? "SourceDir" : ".");
    if (!rev) dir(db, "B", pb == 0 ? NULL : pb == 1 ? "T" : aid, bn);
    comp(db, "cA", aid); comp(db, "cT", "T"); comp(db, "cB", "B");
}
static const char *cname[3] = { "cT", "cA", "cB" };
void h_paths(void)
{
    LibmsiDatabase *db = package("/d/a.msi"); GError *e = NULL; const char *fl[2]; char *w = ""; int hole = sym_choose(4), n = hole ? 1 : 1 + sym_bool();
    dirs(db, hole);
    for (int i = 0; i < n; i++) { int c = hole == 1 ? 1 + sym_bool() : hole ? 2 : sym_choose(3); const char *f = any_name(hole == 3, i ? "g.txt" : "f.exe", &fl[i]); file(db, i ? "F2" : "F1", cname[c], f); w = cat(cat(w, join(path_of[c], fl[i])), "\n"); }
    CHECK(commit(db), "commit"); g_object_unref(db);
    want_out = w; env_out_len = 0; list_only = TRUE; at_exit_ = listed; extract("/d/a.msi", &e); CHECK(!e, "a well-formed package is read"); listed(0);
}
static const char *miss;
static void main_done(int st)
{
    CHECK((st != 0) == (miss != NULL), "status 0 exactly if every package could be read"); if (miss) { WITNESS("refused"); return; }
    CHECK(env_out_len == strlen(want_out) && !memcmp(env_out, want_out, env_out_len), "the files of every package"); WITNESS("all listed");
}
void h_main(void)
{
    int n = 1 + sym_bool(), bad = sym_choose(3); LibmsiDatabase *db = package("/d/a.msi"); dir(db, "T", NULL, "SourceDir"); comp(db, "c", "T"); file(db, "F1", "c", "one"); CHECK(commit(db), "commit"); g_object_unref(db);
    if (n == 2) { db = package("/d/b.msi"); dir(db, "T", NULL, "Dir"); comp(db, "c", "T"); file(db, "F1", "c", "X|two"); CHECK(commit(db), "commit"); g_object_unref(db); }
    opt_files[0] = "/d/a.msi"; opt_files[1] = n == 2 ? "/d/b.msi" : NULL; if (bad == 1) opt_files[n - 1] = "/d/no.msi", miss = "no"; if (bad == 2) opt_files[0] = NULL, miss = "none";
    want_out = n == 2 ? "one\nDir/two\n" : "one\n"; opt_list = 1; env_out_len = 0; at_exit_ = main_done; char *av[2] = { "msiextract", NULL };
    main_done(_vala_main(av, 1));
}
void h_bad(void)
{
    int k = sym_choose(4); LibmsiDatabase *db = package("/d/a.msi"); GError *e = NULL; at_exit_ = NULL; env_out_len = 0; list_only = TRUE;
    dir(db, "T", NULL, "SourceDir"); dir(db, "A", k < 2 ? "T" : "B", sym_bool() ? "." : "app"); dir(db, "B", k == 3 ? "C" : "A", "lib"); dir(db, "C", "A", ".");
    comp(db, "cB", k == 0 ? "missing" : "B"); file(db, "F1", k == 1 ? "missing" : "cB", "f"); CHECK(commit(db), "commit"); g_object_unref(db);
    extract("/d/a.msi", &e); CHECK(e != NULL, "a file whose place is not defined is reported"); WITNESS_IF(k == 3, "refused"); g_error_free(e);
}
static void cab_done(int st) { CHECK(0, "ends by itself"); }
void h_cab(void)
{
    uint8_t d[3]; int n = sym_choose(4), bad = sym_bool(), ord = sym_bool(), extra = sym_bool(), skip = sym_choose(3); sym_fill(d, n); GError *e = NULL;
    LibmsiDatabase *db = package("/d/a.msi"); dir(db, "T", NULL, "SourceDir"); dir(db, "A", "T", "APP~1|My App"); comp(db, "cA", "A"); comp(db, "cT", "T"); file(db, "F1", "cA", "F~1|file one"); file(db, "F2", "cT", "two");
    env_put("/cab", env_mem_file(d, n)); LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, "c.cab"); CHECK(libmsi_record_load_stream(r, 2, "/cab"), "load"); CHECK(ex(db, "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", r), "insert"); g_object_unref(r);
    if (skip == 1) must(db, "INSERT INTO `Media` (`DiskId`,`LastSequence`) VALUES (1,0)");
    must(db, bad ? "INSERT INTO `Media` (`DiskId`,`LastSequence`,`Cabinet`) VALUES (2,2,'#d.cab')" : "INSERT INTO `Media` (`DiskId`,`LastSequence`,`Cabinet`) VALUES (2,2,'#c.cab')");
    if (skip == 2) must(db, "INSERT INTO `Media` (`DiskId`,`LastSequence`,`Cabinet`) VALUES (3,0,'')");
    CHECK(commit(db), "commit"); g_object_unref(db);
    members[0] = ord ? "F2" : "F1"; members[1] = ord ? "F1" : "F2"; members[2] = "stray"; n_members = 2 + extra; cab_bytes = d; cab_len = n; directory = "/out"; list_only = FALSE; at_exit_ = cab_done;
    extract("/d/a.msi", &e);
    if (bad) { CHECK(e && !n_extracted, "a cabinet that is not in the package is reported"); WITNESS("missing"); }
    else {
        CHECK(!e && n_loaded == 1 && n_extracted == 1, "the cabinet is unpacked once");
        CHECK(got[ord] && !strcmp(got[ord], "My App/file one") && got[!ord] && !strcmp(got[!ord], "two"), "each member goes to the path of its File row"); if (extra) CHECK(got[2] && !strcmp(got[2], "stray"), "an unlisted member keeps its name");
        CHECK(env_out_len == strlen(ord ? "two\nMy App/file one\n" : "My App/file one\ntwo\n") + (extra ? 6 : 0), "and the paths are printed"); WITNESS_IF(skip, "unpacked");
    }
    if (e) g_error_free(e);
}
void h_ext(void)
{
    static const char *nm[4] = { "data.cab", "DATA.CAB", "data.cab2", "Data.Cab" }; GError *e = NULL; int hit = -1;
    LibmsiDatabase *db = package("/d/a.msi"); dir(db, "T", NULL, "SourceDir"); must(db, "INSERT INTO `Media` (`DiskId`,`LastSequence`,`Cabinet`) VALUES (2,2,'DaTA.cab')"); CHECK(commit(db), "commit"); g_object_unref(db);
    n_ent = 3; int used = 0; for (int i = 0; i < 3; i++) { int k = sym_choose(4); ASSUME(!(used >> k & 1)); used |= 1 << k; ent[i].name = nm[k]; ent[i].dir = sym_bool(); if (hit < 0 && !ent[i].dir && k != 2) hit = i; }
    directory = "/out"; list_only = FALSE; at_exit_ = cab_done; n_members = 0; cab_bytes = NULL;
    extract("/d/a.msi", &e);
    if (hit >= 0) { int ok = 0; for (int i = 0; i < 3; i++) if (!ent[i].dir && strcmp(ent[i].name, "data.cab2") && read_path && !strncmp(read_path, "/d/", 3) && !strcmp(read_path + 3, ent[i].name)) ok = 1; CHECK(!e && ok && n_loaded == 1 && n_extracted == 1, "the file of that name in any case, beside the package"); WITNESS("found"); }
    else { CHECK(e && !n_extracted, "no such cabinet is reported"); WITNESS("not found"); }
    if (e) g_error_free(e);
}
