/* Model of libgsf, the file system, and code page conversion (see env.h). */
#include "env.h"
#include <gio/gio.h>
#include <unistd.h>
#include <errno.h>

int env_open_inputs, env_nfiles, env_convs_open;
int (*env_fail)(int op, const char *what);
void (*env_point)(int op, const char *what);
#define FAILS(op, w) (env_fail && env_fail(op, w))
#define POINT(op, w) do { if (env_point) env_point(op, w); } while (0)

static struct { char *path; Node *n; } files[12];

static char *dupstr(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
Node *env_node(const char *name, int dir) { Node *n = calloc(1, sizeof *n); n->name = name ? dupstr(name) : NULL; n->dir = dir; return n; }
void env_data(Node *n, const void *d, size_t len) { n->data = len ? malloc(len) : NULL; if (len) memcpy(n->data, d, len); n->len = len; }
Node *env_mem_file(const void *d, size_t len) { Node *n = env_node(NULL, 0); env_data(n, d, len); return n; }
Node *env_file(const char *path) { for (int i = 0; i < env_nfiles; i++) if (files[i].n && !strcmp(files[i].path, path)) return files[i].n; return NULL; }
void env_put(const char *path, Node *n)
{
    for (int i = 0; i < env_nfiles; i++) if (!strcmp(files[i].path, path)) { files[i].n = n; return; }
    if (env_nfiles == 12) abort();
    files[env_nfiles].path = dupstr(path); files[env_nfiles++].n = n;
}
Node *env_kid(Node *d, const char *name) { for (int i = 0; i < d->n; i++) if (!strcmp(d->kid[i]->name, name)) return d->kid[i]; return NULL; }
void env_add(Node *d, Node *k) { if (d->n == 24) abort(); d->kid[d->n++] = k; }
int env_same(Node *a, Node *b)
{
    if (a == b) return 1;
    if (!a || !b || a->dir != b->dir) return 0;
    if (!a->dir) return a->len == b->len && (!a->len || memcmp(a->data, b->data, a->len) == 0);
    if (a->n != b->n || memcmp(a->clsid, b->clsid, 16)) return 0;
    for (int i = 0; i < a->n; i++) { Node *k = env_kid(b, a->kid[i]->name); if (!k || !env_same(a->kid[i], k)) return 0; }
    return 1;
}
int unlink(const char *path)
{
    if (FAILS(OP_UNLINK, path)) { errno = EACCES; return -1; }
    if (!env_file(path)) { errno = ENOENT; return -1; }
    POINT(OP_UNLINK, path);
    env_put(path, NULL);
    POINT(OP_UNLINK, path);
    return 0;
}
int rename(const char *a, const char *b)
{
    Node *n = env_file(a);
    if (FAILS(OP_RENAME, a)) { errno = EACCES; return -1; }
    if (!n) { errno = ENOENT; return -1; }
    POINT(OP_RENAME, a);
    env_put(b, n); if (strcmp(a, b)) env_put(a, NULL);
    POINT(OP_RENAME, a);
    return 0;
}
int g_rename(const char *a, const char *b) { return rename(a, b); }
int g_unlink(const char *a) { return unlink(a); }
int g_remove(const char *a) { return unlink(a); }

/* ---------------------------------------------------------------- inputs */
typedef struct { GObject g; Node *n; gint64 off; int need_free; guint8 *mem; gint64 size; char *name; int plain; } MIn;
static void min_fini(GObject *o)
{
    MIn *m = (MIn *)o; env_open_inputs--;
    if (m->n && --m->n->refs == 0 && m->need_free) { free(m->n->data); free(m->n); }
    free(m->name);
}
static void min_ci(gpointer k, gpointer d) { ((GObjectClass *)k)->finalize = min_fini; }
GType gsf_input_get_type(void)
{ static GType t; if (!t) t = g_type_register_static_simple(G_TYPE_OBJECT, "GsfInput", sizeof(GObjectClass), (GClassInitFunc)min_ci, sizeof(MIn), NULL, 0); return t; }
GType gsf_infile_get_type(void)
{ static GType t; if (!t) t = g_type_register_static_simple(gsf_input_get_type(), "GsfInfile", sizeof(GObjectClass), NULL, sizeof(MIn), NULL, 0); return t; }
GType gsf_infile_msole_get_type(void) { return gsf_infile_get_type(); }
gpointer model_alloc(GType t);
static MIn *new_in(GType t, Node *n, const char *name)
{ MIn *m = model_alloc(t); m->n = n; n->refs++; m->name = name ? dupstr(name) : NULL; m->size = n->dir ? 0 : n->len; env_open_inputs++; return m; }

GsfInput *gsf_input_memory_new(guint8 const *buf, gsf_off_t len, gboolean needs_free)
{
    Node *n = env_node(NULL, 0); n->data = (guint8 *)buf; n->len = len;
    MIn *m = new_in(gsf_input_get_type(), n, NULL); m->need_free = needs_free;
    return (GsfInput *)m;
}
GsfInput *env_input(const void *d, size_t len)
{ guint8 *p = malloc(len ? len : 1); if (len) memcpy(p, d, len); return gsf_input_memory_new(p, len, TRUE); }
GsfInput *gsf_input_stdio_new(const char *path, GError **err)
{
    Node *n = env_file(path);
    if (FAILS(OP_OPEN_READ, path) || !n) { if (err) *err = g_error_new_literal(1, 1, "open"); return NULL; }
    return (GsfInput *)new_in(gsf_input_get_type(), n, path);
}
/* an OLE container as a plain file's content: the magic and an index */
static Node *blobs[16]; static unsigned nblobs; static const uint8_t ole_magic[8] = { 0xd0, 0xcf, 0x11, 0xe0, 0xa1, 0xb1, 0x1a, 0xe1 };
Node *env_ole_blob(Node *dir)
{ uint8_t b[16] = { 0 }; if (nblobs == 16) abort(); memcpy(b, ole_magic, 8); b[8] = nblobs; blobs[nblobs++] = dir; return env_mem_file(b, 16); }
GsfInfile *gsf_infile_msole_new(GsfInput *src, GError **err)
{
    MIn *s = (MIn *)src;
    if (!s->n->dir && s->n->len == 16 && !memcmp(s->n->data, ole_magic, 8) && s->n->data[8] < nblobs)
        return (GsfInfile *)new_in(gsf_infile_get_type(), blobs[s->n->data[8]], s->name);
    if (!s->n->dir) { if (err) *err = g_error_new_literal(1, 2, "not OLE"); return NULL; }
    return (GsfInfile *)new_in(gsf_infile_get_type(), s->n, s->name);
}
gboolean gsf_infile_msole_get_class_id(const GsfInfileMSOle *o, guint8 *res) { memcpy(res, ((MIn *)o)->n->clsid, 16); return TRUE; }
int gsf_infile_num_children(GsfInfile *f) { if (!f) return -1; MIn *m = (MIn *)f; return m->n->dir ? m->n->n : -1; }
char const *gsf_infile_name_by_index(GsfInfile *f, int i) { if (!f) return NULL; MIn *m = (MIn *)f; return i >= 0 && i < m->n->n ? m->n->kid[i]->name : NULL; }
GsfInput *gsf_infile_child_by_index(GsfInfile *f, int i)
{ if (!f) return NULL; MIn *m = (MIn *)f; if (i < 0 || i >= m->n->n || FAILS(OP_READ, "child")) return NULL; return (GsfInput *)new_in(gsf_infile_get_type(), m->n->kid[i], m->n->kid[i]->name); }
GsfInput *gsf_infile_child_by_name(GsfInfile *f, char const *name)
{ if (!f) return NULL; Node *k = env_kid(((MIn *)f)->n, name); if (!k || FAILS(OP_READ, "child")) return NULL; return (GsfInput *)new_in(gsf_infile_get_type(), k, k->name); }
GsfInput *gsf_input_dup(GsfInput *in, GError **err)
{
    MIn *m = (MIn *)in;
    if (FAILS(OP_READ, "dup")) return NULL;
    MIn *d = new_in(m->g.g_type_instance.g_class->g_type, m->n, m->name); d->off = m->off; d->need_free = m->need_free;
    return (GsfInput *)d;
}
char const *gsf_input_name(GsfInput *in) { return in ? ((MIn *)in)->name : NULL; }
gsf_off_t gsf_input_size(GsfInput *in) { return in ? ((MIn *)in)->size : -1; }
gsf_off_t gsf_input_tell(GsfInput *in) { return in ? ((MIn *)in)->off : 0; }
gsf_off_t gsf_input_remaining(GsfInput *in) { return in ? ((MIn *)in)->size - ((MIn *)in)->off : 0; }
gboolean gsf_input_eof(GsfInput *in) { return in ? ((MIn *)in)->off >= ((MIn *)in)->size : TRUE; }
gboolean gsf_input_seek(GsfInput *in, gsf_off_t off, GSeekType w)
{
    MIn *m = (MIn *)in; gint64 pos = off;
    if (!in) return TRUE;
    if (w == G_SEEK_CUR) pos += m->off; else if (w == G_SEEK_END) pos += m->size; else if (w != G_SEEK_SET) return TRUE;
    if (pos < 0 || pos > m->size) return TRUE;
    m->off = pos;
    return FALSE;
}
guint8 const *gsf_input_read(GsfInput *in, size_t n, guint8 *buf)
{
    MIn *m = (MIn *)in; gint64 np;
    if (!in) return NULL;
    np = m->off + (gint64)n;
    if (np <= m->off || np > m->size) return NULL;
    if (FAILS(OP_READ, "data")) return NULL;
    const guint8 *r = m->n->data + m->off;
    if (buf) { memcpy(buf, r, n); r = buf; }
    m->off = np;
    return r;
}

/* ---------------------------------------------------------------- outputs */
typedef struct { GObject g; char *path; Node *n; Node *root; int closed; size_t off; int is_root, is_dir, is_stdio; GObject *sink; int failed; } MOut;
gboolean gsf_output_close(GsfOutput *o);
static void mout_fini(GObject *o) { MOut *m = (MOut *)o; if (!m->closed) gsf_output_close((GsfOutput *)o); if (m->sink) g_object_unref(m->sink); free(m->path); }
static void mout_ci(gpointer k, gpointer d) { ((GObjectClass *)k)->finalize = mout_fini; }
GType gsf_output_get_type(void)
{ static GType t; if (!t) t = g_type_register_static_simple(G_TYPE_OBJECT, "GsfOutput", sizeof(GObjectClass), (GClassInitFunc)mout_ci, sizeof(MOut), NULL, 0); return t; }
GType gsf_outfile_get_type(void) { return gsf_output_get_type(); }
GType gsf_outfile_msole_get_type(void) { return gsf_output_get_type(); }
/* libgsf writes to a temporary file and renames it over the target on close */
GsfOutput *gsf_output_stdio_new(char const *path, GError **err)
{
    if (FAILS(OP_OPEN_WRITE, path)) return NULL;
    MOut *m = model_alloc(gsf_output_get_type()); m->path = dupstr(path); m->is_stdio = 1; m->n = env_node(NULL, 0);
    return (GsfOutput *)m;
}
GsfOutfile *gsf_outfile_msole_new(GsfOutput *sink)
{
    MOut *m = model_alloc(gsf_output_get_type()); m->is_root = m->is_dir = 1; m->n = env_node(NULL, 1);
    m->sink = (GObject *)sink; (g_object_ref)(sink);
    return (GsfOutfile *)m;
}
gboolean gsf_outfile_msole_set_class_id(GsfOutfileMSOle *o, guint8 const *id) { memcpy(((MOut *)o)->n->clsid, id, 16); return TRUE; }
GsfOutput *gsf_outfile_new_child(GsfOutfile *o, char const *name, gboolean is_dir)
{
    MOut *p = (MOut *)o;
    if (!o || FAILS(OP_NEW_CHILD, name)) return NULL;
    MOut *m = model_alloc(gsf_output_get_type()); m->is_dir = is_dir; m->n = env_node(name, is_dir);
    env_add(p->n, m->n);
    return (GsfOutput *)m;
}
gboolean gsf_output_seek(GsfOutput *o, gsf_off_t off, GSeekType w) { MOut *m = (MOut *)o; if (!o) return FALSE; m->off = w == G_SEEK_END ? m->n->len + off : w == G_SEEK_CUR ? m->off + off : off; return TRUE; }
gboolean gsf_output_write(GsfOutput *o, size_t n, guint8 const *d)
{
    MOut *m = (MOut *)o;
    if (!o) return FALSE;
    if (n == 0) return TRUE;
    if (!d || m->closed || m->is_dir) return FALSE;
    if (FAILS(OP_WRITE, m->n->name)) return FALSE;
    if (m->off + n > m->n->len) {
        guint8 *p = calloc(1, m->off + n);
        if (m->n->len) memcpy(p, m->n->data, m->n->len);
        free(m->n->data); m->n->data = p; m->n->len = m->off + n;
    }
    memcpy(m->n->data + m->off, d, n);
    m->off += n;
    return TRUE;
}
gboolean gsf_output_close(GsfOutput *o)
{
    MOut *m = (MOut *)o;
    if (!o || m->closed) return FALSE;
    if (m->is_root) {
        MOut *s = (MOut *)m->sink;
        m->closed = 1; s->closed = 1;
        if (FAILS(OP_CLOSE_FILE, s->path)) return FALSE;     /* the target is left alone */
        POINT(OP_CLOSE_FILE, s->path);
        env_put(s->path, m->n);
        POINT(OP_CLOSE_FILE, s->path);
        return TRUE;
    }
    m->closed = 1;
    if (m->is_stdio) {
        if (FAILS(OP_CLOSE_FILE, m->path)) return FALSE;
        POINT(OP_CLOSE_FILE, m->path); env_put(m->path, m->n); POINT(OP_CLOSE_FILE, m->path); return TRUE;
    }
    return !FAILS(OP_CLOSE_STREAM, m->n->name);
}
gboolean gsf_input_copy(GsfInput *in, GsfOutput *out)
{
    gint64 rem;
    while ((rem = gsf_input_remaining(in)) > 0) {
        size_t n = rem < 4096 ? rem : 4096; const guint8 *b = gsf_input_read(in, n, NULL);
        if (!b || !gsf_output_write(out, n, b)) return FALSE;
    }
    return TRUE;
}

/* ---------------------------------------------------------------- code pages
 * 65001 is UTF-8 (validated); every other code page is modelled as ISO 8859-1. */
int gsf_msole_iconv_win_codepage(void) { return 1252; }
GIConv gsf_msole_iconv_open_for_import(int cp) { env_convs_open++; return (GIConv)(gsize)(cp == 65001 ? 1 : 2); }
GIConv gsf_msole_iconv_open_codepage_for_export(int cp) { env_convs_open++; return (GIConv)(gsize)(cp == 65001 ? 1 : 3); }
gint g_iconv_close(GIConv c) { env_convs_open--; return 0; }
static int u8len(const unsigned char *s, size_t n)
{
    unsigned c = s[0];
    if (c < 0x80) return 1;
    if (c < 0xc2) return 0;
    if (c < 0xe0) return n >= 2 && (s[1] & 0xc0) == 0x80 ? 2 : 0;
    if (c < 0xf0) { if (n < 3 || (s[1] & 0xc0) != 0x80 || (s[2] & 0xc0) != 0x80) return 0; unsigned v = (c & 15) << 12 | (s[1] & 63) << 6; return v >= 0x800 && !(v >= 0xd800 && v < 0xe000) ? 3 : 0; }
    if (c < 0xf5) { if (n < 4 || (s[1] & 0xc0) != 0x80 || (s[2] & 0xc0) != 0x80 || (s[3] & 0xc0) != 0x80) return 0; unsigned v = (c & 7) << 18 | (s[1] & 63) << 12; return v >= 0x10000 && v < 0x110000 ? 4 : 0; }
    return 0;
}
gchar *g_convert_with_iconv(const gchar *str, gssize len, GIConv c, gsize *br, gsize *bw, GError **err)
{
    size_t n = len < 0 ? strlen(str) : (size_t)len, k = 0; const unsigned char *s = (const unsigned char *)str;
    char *o = malloc(n * 2 + 1);
    for (size_t i = 0; i < n;) {
        if ((gsize)c == 2) {
            if (s[i] < 0x80) o[k++] = s[i]; else { o[k++] = 0xc0 | s[i] >> 6; o[k++] = 0x80 | (s[i] & 63); }
            i++;
        } else {
            int l = u8len(s + i, n - i);
            if (!l) goto bad;
            if ((gsize)c == 1) for (int j = 0; j < l; j++) o[k++] = s[i + j];
            else if (l == 1) o[k++] = s[i];
            else if (l == 2 && s[i] < 0xc4) o[k++] = (s[i] & 3) << 6 | (s[i + 1] & 63);
            else goto bad;
            i += l;
        }
    }
    if (FAILS(OP_CONVERT, "")) goto bad;
    o[k] = 0;
    if (br) *br = n;
    if (bw) *bw = k;
    return o;
bad:
    free(o);
    if (br) *br = 0;
    if (bw) *bw = 0;
    if (err) *err = g_error_new_literal(1, 1, "conversion");
    return NULL;
}

/* ---------------------------------------------------------------- files seen through gio / fds */
gboolean g_file_get_contents(const gchar *path, gchar **data, gsize *len, GError **err)
{
    Node *n = env_file(path);
    *data = NULL; if (len) *len = 0;
    if (!n || FAILS(OP_OPEN_READ, path)) { if (err) *err = g_error_new_literal(1, 1, "read"); return FALSE; }
    char *p = malloc(n->len + 1); if (n->len) memcpy(p, n->data, n->len); p[n->len] = 0;
    *data = p; if (len) *len = n->len;
    return TRUE;
}
char env_out[16384]; size_t env_out_len; int env_out_fd = 77;
#ifdef MSYM
ssize_t write(int fd, const void *b, size_t n)
{
    if (FAILS(OP_FD_WRITE, "")) return -1;
    if (fd == env_out_fd) { if (env_out_len + n > sizeof env_out) abort(); memcpy(env_out + env_out_len, b, n); env_out_len += n; }
    return n;
}
#else
#include <sys/syscall.h>
ssize_t write(int fd, const void *b, size_t n)
{
    if (fd != env_out_fd) return syscall(SYS_write, fd, b, n);
    if (FAILS(OP_FD_WRITE, "")) return -1;
    if (env_out_len + n > sizeof env_out) abort();
    memcpy(env_out + env_out_len, b, n); env_out_len += n;
    return n;
}
#endif
typedef struct { GObject g; char *path; } MFile;
static void mfile_fini(GObject *o) { free(((MFile *)o)->path); }
static void mfile_ci(gpointer k, gpointer d) { ((GObjectClass *)k)->finalize = mfile_fini; }
static GType mfile_type(void) { static GType t; if (!t) t = g_type_register_static_simple(G_TYPE_OBJECT, "MFile", sizeof(GObjectClass), (GClassInitFunc)mfile_ci, sizeof(MFile), NULL, 0); return t; }
GFile *g_file_new_for_path(const char *p) { MFile *f = model_alloc(mfile_type()); f->path = dupstr(p); return (GFile *)f; }
GFile *g_file_get_child(GFile *d, const char *n)
{ const char *p = ((MFile *)d)->path; size_t a = strlen(p), b = strlen(n); MFile *f = model_alloc(mfile_type()); f->path = malloc(a + b + 2); memcpy(f->path, p, a); f->path[a] = '/'; memcpy(f->path + a + 1, n, b + 1); return (GFile *)f; }
gboolean g_file_make_directory_with_parents(GFile *f, GCancellable *c, GError **err) { return TRUE; }
GFileOutputStream *g_file_replace(GFile *f, const char *etag, gboolean b, GFileCreateFlags fl, GCancellable *c, GError **err)
{ if (FAILS(OP_OPEN_WRITE, ((MFile *)f)->path)) return NULL; return (GFileOutputStream *)g_file_new_for_path(((MFile *)f)->path); }
gssize g_output_stream_splice(GOutputStream *out, GInputStream *in, GOutputStreamSpliceFlags fl, GCancellable *c, GError **err)
{
    guint8 *b = malloc(4096); gsize n = 0;
    if (!g_input_stream_read_all(in, b, 4096, &n, c, err)) { free(b); return -1; }
    Node *k = env_mem_file(b, n); free(b);
    env_put(((MFile *)out)->path, k);
    return n;
}
GQuark g_io_error_quark(void) { return 2; }
#ifdef MSYM
typedef struct { gint64 t; } MDate;
GDateTime *g_date_time_new_from_unix_local(gint64 t) { MDate *d = malloc(sizeof *d); d->t = t; return (GDateTime *)d; }
void g_date_time_unref(GDateTime *d) { free(d); }
/* "%Y/%m/%d %H:%M:%S", UTC */
gchar *g_date_time_format(GDateTime *gd, const gchar *f)
{
    gint64 t = ((MDate *)gd)->t, days = t / 86400, rem = t % 86400; if (rem < 0) { rem += 86400; days--; }
    gint64 z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
    gint64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    gint64 d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
    return g_strdup_printf("%ld/%02ld/%02ld %02ld:%02ld:%02ld", (long)y, (long)m, (long)d, (long)(rem / 3600), (long)(rem / 60 % 60), (long)(rem % 60));
}
#endif
