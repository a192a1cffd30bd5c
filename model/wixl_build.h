/* Support for harnesses that run wixl's builder (the C valac makes of builder.vala, included by the harness) on a source given
 * as the tree libxml2 would make of it. Files, cabinets and libxml2 itself are stand-ins; the tables are real. */
#ifndef WIXL_H_MODEL
#define WIXL_H_MODEL
#include <stdarg.h>
/* the source */
static xmlNode *w_node(int type, const char *name, const char *content)
{ xmlNode *n = calloc(1, sizeof *n); n->type = type; n->name = (const xmlChar *)name; n->content = (xmlChar *)content; return n; }
static void w_add(xmlNode *p, xmlNode *n) { xmlNode **l = &p->children; while (*l) l = &(*l)->next; *l = n; n->parent = p; }
static void w_attr(xmlNode *n, const char *name, const char *value)
{
    if (!value) return;
    xmlAttr *a = calloc(1, sizeof *a), **l = &n->properties; a->type = XML_ATTRIBUTE_NODE; a->name = (const xmlChar *)name;
    if (*value) a->children = w_node(XML_TEXT_NODE, "text", value);
    while (*l) l = &(*l)->next; *l = a;
}
/* an element with attributes (name, value)..., NULL; a value NULL: the attribute is not there */
static xmlNode *el(xmlNode *p, const char *name, ...)
{
    xmlNode *n = w_node(XML_ELEMENT_NODE, name, NULL); va_list ap; va_start(ap, name);
    for (const char *a; (a = va_arg(ap, const char *));) w_attr(n, a, va_arg(ap, const char *));
    va_end(ap); if (p) w_add(p, n); return n;
}
static xmlNode *w_text(xmlNode *p, const char *s) { xmlNode *n = w_node(XML_TEXT_NODE, "text", s); w_add(p, n); return n; }
/* files: a name and bytes */
typedef struct { const char *name; const uint8_t *b; int n; } WFile;
static WFile w_files[4]; static int w_nfiles;
static void *w_obj(const char *s) { LibmsiRecord *r = libmsi_record_new(1); if (!libmsi_record_set_string(r, 1, s)) abort(); return r; }
static char *w_name(void *o) { return libmsi_record_get_string((LibmsiRecord *)o, 1); }
static WFile *w_find(void *o)
{ char *s = w_name(o), *t = s[0] == '.' && s[1] == '/' ? s + 2 : s; WFile *f = NULL; for (int i = 0; i < w_nfiles; i++) if (!strcmp(w_files[i].name, t)) f = &w_files[i]; g_free(s); return f; }
GFile *g_file_new_for_path(const char *p) { return w_obj(p); }
char *g_file_get_path(GFile *f) { return w_name(f); }
GFile *g_file_get_child(GFile *f, const char *n) { char *s = w_name(f), *t = g_build_filename(s, n, NULL); GFile *g = w_obj(t); g_free(s); g_free(t); return g; }
GFile *g_file_new_build_filename(const gchar *a, ...) { return w_obj(a); }
GFileInfo *g_file_query_info(GFile *f, const char *a, GFileQueryInfoFlags fl, GCancellable *c, GError **e)
{ if (w_find(f)) return (GFileInfo *)g_object_ref(f); *e = g_error_new(g_io_error_quark(), G_IO_ERROR_NOT_FOUND, "no file"); return NULL; }
goffset g_file_info_get_size(GFileInfo *i) { return w_find(i)->n; }
/* a source file */
static void w_file(const char *name, const void *b, int n)
{ char t[32]; w_files[w_nfiles++] = (WFile){ name, b, n }; strcpy(t, "./"); strcat(t, name); env_put(t, env_mem_file(b, n)); }
GFileInputStream *g_file_read(GFile *f, GCancellable *c, GError **e)
{ char *s = w_name(f); LibmsiRecord *r = libmsi_record_new(1); CHECK(w_find(f) != NULL, "only a file that exists is read"); CHECK(libmsi_record_load_stream(r, 1, s), "(model) a stream"); g_free(s); return (GFileInputStream *)libmsi_record_get_stream(r, 1); }
/* cabinets: the members and where they were written */
typedef struct { char *name; WFile *f; } WMember;
static struct { WMember m[4]; int n; } w_folder[3]; static int w_nfolders, w_written;
GCabFolder *gcab_folder_new(gint c) { w_nfolders++; return w_obj("folder"); }
GCabFile *gcab_file_new_with_file(const gchar *n, GFile *f) { LibmsiRecord *r = libmsi_record_new(2); libmsi_record_set_string(r, 1, n); char *s = w_name(f); libmsi_record_set_string(r, 2, s); g_free(s); return (GCabFile *)r; }
gboolean gcab_folder_add_file(GCabFolder *c, GCabFile *f, gboolean rec, GCancellable *ca, GError **e)
{
    char *s = libmsi_record_get_string((LibmsiRecord *)f, 2); WMember *m = &w_folder[w_nfolders - 1].m[w_folder[w_nfolders - 1].n++]; void *o = w_obj(s);
    m->name = w_name(f); m->f = w_find(o); g_free(s); g_object_unref(o); return TRUE;
}
GCabCabinet *gcab_cabinet_new(void) { return w_obj("cab"); }
gboolean gcab_cabinet_add_folder(GCabCabinet *c, GCabFolder *f, GError **e) { return TRUE; }
static uint8_t w_cab[3];
GOutputStream *g_memory_output_stream_new(gpointer d, gsize n, GReallocFunc r, GDestroyNotify f) { return w_obj("mem"); }
gboolean gcab_cabinet_write(GCabCabinet *c, GOutputStream *o, GCabFileCallback cb, GFileProgressCallback p, gpointer u, GCancellable *ca, GError **e) { w_written++; w_cab[0] = 'c'; w_cab[1] = '0' + w_nfolders; w_cab[2] = 0; return TRUE; }
gpointer g_memory_output_stream_get_data(GMemoryOutputStream *o) { return w_cab; }
gsize g_memory_output_stream_get_data_size(GMemoryOutputStream *o) { return 2; }
GInputStream *g_memory_input_stream_new_from_data(const void *d, gssize n, GDestroyNotify f)
{
    char *t = malloc(n); memcpy(t, d, n); env_put("/w.cab", env_mem_file((uint8_t *)t, n)); LibmsiRecord *r = libmsi_record_new(1); CHECK(libmsi_record_load_stream(r, 1, "/w.cab"), "(model) a stream"); free(t);
    return libmsi_record_get_stream(r, 1);
}
/* the rest */
gchar *g_uuid_string_random(void) { return g_strdup("01234567-89ab-cdef-0123-456789abcdef"); }
gint64 g_get_real_time(void) { return 1000000; }
void xmlFreeDoc(xmlDocPtr d) { }
int xmlDocFormatDump(FILE *f, xmlDocPtr d, int fmt) { return 0; }
WixlPreprocessor *wixl_preprocessor_new(GHashTable *v, GList *d, WixlArch a) { return w_obj("pp"); }
xmlDoc *wixl_preprocessor_preprocess(WixlPreprocessor *p, const gchar *data, GFile *f, GError **e) { return calloc(1, sizeof(xmlDoc)); }
/* a row of a harness's expectation; strings of any length; SKIP: not looked at */
typedef struct { int kind, i; const char *s; } Wv;
#define WI(x) ((Wv){ 1, (x), NULL })
#define WS(x) w_str(x)
#define WN ((Wv){ 0, 0, NULL })
#define WSKIP ((Wv){ 3, 0, NULL })
static Wv w_str(const char *s) { return s && *s ? (Wv){ 2, 0, s } : WN; }
static int w_cell(LibmsiRecord *r, unsigned f, Wv v)
{
    if (v.kind == 3) return 1;
    if (v.kind == 0) return libmsi_record_is_null(r, f);
    if (libmsi_record_is_null(r, f)) return 0;
    if (v.kind == 1) return libmsi_record_get_int(r, f) == v.i;
    gchar *s = libmsi_record_get_string(r, f); int same = s && !strcmp(s, v.s); g_free(s); return same;
}
/* the rows of a table wixl filled, as stored in a package, are exactly these, in any order */
static LibmsiDatabase *w_store(void *table)
{ GError *e = NULL; LibmsiDatabase *db = db_create("w.msi"); wixl_msi_table_create((WixlMsiTable *)table, db, &e); CHECK(!e, "the table is created and filled"); return db; }
static int w_rows(LibmsiDatabase *db, const char *sql, int nrow, int ncol, const Wv *want)
{
    LibmsiQuery *q = q_new(db, sql); LibmsiRecord *r; GError *e = NULL; int n = 0, ok = 1; char used[16] = { 0 };
    CHECK(q_exec(q, NULL), "a valid query executes");
    while ((r = libmsi_query_fetch(q, &e))) {
        int hit = -1;
        for (int i = 0; i < nrow && hit < 0; i++) { if (used[i]) continue; int m = 1; for (int c = 0; c < ncol && m; c++) m = w_cell(r, c + 1, want[i * ncol + c]); if (m) hit = i; }
        if (hit < 0) ok = 0; else used[hit] = 1;
        n++; g_object_unref(r);
    }
    CHECK(!e, "the end of the rows is not an error"); g_object_unref(q); return ok && n == nrow;
}
static int w_table(void *table, const char *sql, int nrow, int ncol, const Wv *want)
{ LibmsiDatabase *db = w_store(table); int ok = w_rows(db, sql, nrow, ncol, want); g_object_unref(db); return ok; }
/* a package from a source */
static xmlNode *w_product(xmlNode **root)
{
    *root = el(NULL, "Wix", NULL);
    return el(*root, "Product", "Id", "*", "Name", "N", "Version", "2.0", "Manufacturer", "M", "Language", "1033", "UpgradeCode", "11111111-2222-3333-4444-555555555555", NULL);
}
static void w_why(GError *e)
{
#ifndef MSYM
    fprintf(stderr, "%s\n", e->message);
#endif
}
static WixlMsiDatabase *w_build(xmlNode *root, WixlArch arch, int ui)
{
    GError *e = NULL; xmlDoc *d = calloc(1, sizeof *d); WixlExtension ext[1] = { 0 }; d->children = root;
    WixlWixBuilder *b = wixl_wix_builder_new(NULL, 0, arch, ui ? ext : NULL, ui, "/ext"); CHECK(b != NULL, "a builder");
    wixl_wix_builder_load_doc(b, d, &e); if (e) { w_why(e); g_error_free(e); return NULL; }
    WixlMsiDatabase *db = wixl_wix_builder_build(b, &e); if (e) { w_why(e); CHECK(!db, "an error comes without a package"); g_error_free(e); return NULL; }
    return db;
}
#endif
