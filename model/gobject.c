/* A minimal GObject, used both by the symbolic engines and by the native
 * replay: types are registered through the same G_DEFINE_TYPE code as in the
 * real build, objects are allocated, constructed, ref-counted and finalized.
 * Objects whose class pointer is NULL are the harnesses' stand-ins for libgsf
 * objects: their references are counted and they are never freed.  */
#include "sym.h"
#include <glib.h>
#include <glib-object.h>
#include <gio/gio.h>
#include <stdarg.h>

#ifdef __CPROVER__
#define MTYPES 6
#else
#define MTYPES 320
#endif
struct mprop { const char *name; guint id; int kind; struct mprop *next; };
struct mtype { gpointer ivt[2]; GType parent; const char *name; guint class_size; GClassInitFunc ci; guint inst_size; GInstanceInitFunc ii; GObjectClass *klass; struct mprop *props;
               GType itype[2]; GInterfaceInitFunc iinit[2]; GBaseInitFunc bi; guint priv; int fund; const GEnumValue *ev; };
static struct mtype mtypes[MTYPES];
static unsigned n_mtypes;
static GObjectClass mbase;
struct mspec { GParamSpec base; const char *name; int kind; };
enum { K_UINT, K_INT, K_STRING, K_OBJECT, K_FLAGS };

static void mbase_finalize(GObject *o) { }
static void mbase_constructed(GObject *o) { }

#define MT(i) ((GType)(((i) + 200) << 2))
#define MI(t) (((t) >> 2) - 200)
#define ISM(t) ((t) >= MT(0) && (t) < MT(MTYPES))

GType g_type_register_static_simple(GType parent, const gchar *name, guint cs, GClassInitFunc ci,
                                    guint is, GInstanceInitFunc ii, GTypeFlags f)
{
    unsigned i = n_mtypes++;
    mtypes[i].parent = parent; mtypes[i].name = name;
    mtypes[i].class_size = cs; mtypes[i].ci = ci; mtypes[i].inst_size = is; mtypes[i].ii = ii;
    return MT(i);
}
void g_type_add_interface_static(GType t, GType i, const GInterfaceInfo *info)
{
    struct mtype *m = &mtypes[MI(t)]; int k = m->itype[0] ? 1 : 0;
    if (!i) return;
    m->itype[k] = i; m->iinit[k] = info->interface_init;
}
void g_type_class_adjust_private_offset(gpointer k, gint *off) { }
#ifdef __CPROVER__
gint g_type_add_instance_private(GType t, gsize s) { return 0; }
#else
/* private data lies before the instance, as in GObject */
gint g_type_add_instance_private(GType t, gsize s) { struct mtype *m = &mtypes[MI(t)]; m->priv += (s + 15) & ~(gsize)15; return -(gint)m->priv; }
GType g_type_register_static(GType parent, const gchar *name, const GTypeInfo *i, GTypeFlags f)
{
    GType t = g_type_register_static_simple(parent, name, i->class_size, i->class_init, i->instance_size, i->instance_init, f);
    mtypes[MI(t)].bi = i->base_init; if (ISM(parent)) { mtypes[MI(t)].priv = mtypes[MI(parent)].priv; mtypes[MI(t)].fund = mtypes[MI(parent)].fund; } return t;
}
GType g_type_fundamental_next(void) { return 0; }
GType g_type_register_fundamental(GType id, const gchar *name, const GTypeInfo *i, const GTypeFundamentalInfo *fi, GTypeFlags f)
{ GType t = g_type_register_static(0, name, i, f); mtypes[MI(t)].fund = 1; return t; }
#endif
static gpointer model_class(GType t);
#ifndef __CPROVER__
static GObject *base_constructor(GType t, guint n, GObjectConstructParam *p);
#endif
gpointer g_type_class_peek_parent(gpointer k)
{
    mbase.finalize = mbase_finalize;
    mbase.constructed = mbase_constructed;
#ifndef __CPROVER__
    mbase.constructor = base_constructor;
#endif
    GType t = ((GTypeClass *)k)->g_type;
    if (ISM(t) && ISM(mtypes[MI(t)].parent)) return model_class(mtypes[MI(t)].parent);
    return &mbase;
}
void g_object_class_install_property(GObjectClass *k, guint id, GParamSpec *ps)
{
    if (!ps) return;
    struct mtype *m = &mtypes[MI(k->g_type_class.g_type)]; struct mspec *s = (struct mspec *)ps;
#ifndef __CPROVER__
    struct mprop *p = calloc(1, sizeof *p);
    p->name = s->name; p->id = id; p->kind = s->kind; p->next = m->props; m->props = p;
#endif
}
#ifndef __CPROVER__
/* the property of a type or of one of its parents, and the class that has it */
static gpointer model_class(GType t);
static struct mprop *find_prop(GType t, const char *name, GObjectClass **k)
{
    for (; ISM(t); t = mtypes[MI(t)].parent)
        for (struct mprop *p = mtypes[MI(t)].props; p; p = p->next) if (!strcmp(p->name, name)) { *k = model_class(t); return p; }
    return NULL;
}
#endif
static GParamSpec *spec(const char *n, int kind)
{
#ifdef __CPROVER__
    return NULL;
#else
    struct mspec *s = calloc(1, sizeof *s); s->name = n; s->kind = kind; return &s->base;
#endif
}
GParamSpec *g_param_spec_uint(const gchar *n, const gchar *k, const gchar *b, guint mi, guint ma, guint d, GParamFlags f) { return spec(n, K_UINT); }
GParamSpec *g_param_spec_int(const gchar *n, const gchar *k, const gchar *b, gint mi, gint ma, gint d, GParamFlags f) { return spec(n, K_INT); }
GParamSpec *g_param_spec_string(const gchar *n, const gchar *k, const gchar *b, const gchar *d, GParamFlags f) { return spec(n, K_STRING); }
GParamSpec *g_param_spec_object(const gchar *n, const gchar *k, const gchar *b, GType t, GParamFlags f) { return spec(n, K_OBJECT); }
GParamSpec *g_param_spec_flags(const gchar *n, const gchar *k, const gchar *b, GType t, guint d, GParamFlags f) { return spec(n, K_FLAGS); }
guint g_value_get_uint(const GValue *v) { return v->data[0].v_uint; }
gint g_value_get_int(const GValue *v) { return v->data[0].v_int; }
guint g_value_get_flags(const GValue *v) { return v->data[0].v_uint; }
const gchar *g_value_get_string(const GValue *v) { return v->data[0].v_pointer; }
gpointer g_value_get_object(const GValue *v) { return v->data[0].v_pointer; }
gpointer (g_object_ref)(gpointer o);
gchar *g_value_dup_string(const GValue *v)
{
    const char *s = v->data[0].v_pointer; if (!s) return NULL;
    size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p;
}
gpointer g_value_dup_object(const GValue *v) { return v->data[0].v_pointer ? (g_object_ref)(v->data[0].v_pointer) : NULL; }
void g_value_set_uint(GValue *v, guint x) { v->data[0].v_uint = x; }
void g_value_set_flags(GValue *v, guint x) { v->data[0].v_uint = x; }
void g_value_set_string(GValue *v, const gchar *s) { v->data[0].v_pointer = (gpointer)s; }
void g_value_set_object(GValue *v, gpointer o) { v->data[0].v_pointer = o; }
const gchar *g_type_name(GType t) { return ISM(t) ? mtypes[MI(t)].name : "?"; }

#ifndef __CPROVER__
gpointer model_alloc(GType t);
static GObject *base_constructor(GType t, guint n, GObjectConstructParam *p) { return model_alloc(t); }
#endif
static gpointer model_class(GType t)
{
    struct mtype *m = &mtypes[MI(t)];
    if (!m->klass) {
        m->klass = calloc(1, m->class_size);
        if (ISM(m->parent)) memcpy(m->klass, model_class(m->parent), mtypes[MI(m->parent)].class_size);
        else if (!m->fund) { m->klass->finalize = mbase_finalize; m->klass->constructed = mbase_constructed; }
        m->klass->g_type_class.g_type = t;
#ifndef __CPROVER__
        for (GType a = t; ISM(a); a = mtypes[MI(a)].parent) if (mtypes[MI(a)].bi) mtypes[MI(a)].bi(m->klass);
        if (!m->fund && !ISM(m->parent)) m->klass->constructor = base_constructor;
#endif
        if (m->ci) m->ci(m->klass, NULL);
    }
    return m->klass;
}
static void init_chain(GType t, GObject *o)
{
    struct mtype *m = &mtypes[MI(t)];
    if (ISM(m->parent)) init_chain(m->parent, o);
    if (m->ii) m->ii((GTypeInstance *)o, o->g_type_instance.g_class);
}
gpointer model_alloc(GType t)
{
    struct mtype *m = &mtypes[MI(t)];
    GObject *o = (GObject *)((char *)calloc(1, m->inst_size + m->priv) + m->priv);
    o->g_type_instance.g_class = model_class(t);
    o->ref_count = 1;
    init_chain(t, o);
    return o;
}
void model_set_uint(gpointer o, guint id, guint val)
{
    GValue v; memset(&v, 0, sizeof v); v.data[0].v_uint = val;
    G_OBJECT_CLASS(((GObject *)o)->g_type_instance.g_class)->set_property(o, id, &v, NULL);
}
void model_set_ptr(gpointer o, guint id, gpointer val)
{
    GValue v; memset(&v, 0, sizeof v); v.data[0].v_pointer = val;
    G_OBJECT_CLASS(((GObject *)o)->g_type_instance.g_class)->set_property(o, id, &v, NULL);
}
void model_constructed(gpointer o)
{ G_OBJECT_CLASS(((GObject *)o)->g_type_instance.g_class)->constructed(o); }
#ifndef __CPROVER__
gpointer g_object_new(GType t, const gchar *first, ...)
{
    GObjectClass *k = model_class(t); GObject *o = k->constructor ? k->constructor(t, 0, NULL) : model_alloc(t);
    va_list ap; va_start(ap, first);
    for (const char *n = first; n; n = va_arg(ap, const char *)) {
        GValue v; GObjectClass *pk = NULL; struct mprop *p = find_prop(t, n, &pk);
        if (!p) abort();
        memset(&v, 0, sizeof v);
        if (p->kind == K_STRING || p->kind == K_OBJECT) v.data[0].v_pointer = va_arg(ap, gpointer); else v.data[0].v_uint = va_arg(ap, guint);
        pk->set_property(o, p->id, &v, NULL);
    }
    va_end(ap);
    if (((GObjectClass *)o->g_type_instance.g_class)->constructed) model_constructed(o);
    return o;
}
void g_object_get(gpointer o, const gchar *first, ...)
{
    va_list ap; va_start(ap, first);
    for (const char *n = first; n; n = va_arg(ap, const char *)) {
        GValue v; memset(&v, 0, sizeof v); GObjectClass *pk = NULL;
        struct mprop *p = find_prop(((GObject *)o)->g_type_instance.g_class->g_type, n, &pk);
        if (!p) abort();
        pk->get_property(o, p->id, &v, NULL);
        if (p->kind == K_STRING) *va_arg(ap, gchar **) = g_value_dup_string(&v);
        else if (p->kind == K_OBJECT) *va_arg(ap, gpointer *) = g_value_dup_object(&v);
        else *va_arg(ap, guint *) = v.data[0].v_uint;
    }
    va_end(ap);
}
struct mdata { const char *key; gpointer data; GDestroyNotify d; struct mdata *next; };
void g_object_set_data_full(GObject *o, const gchar *key, gpointer data, GDestroyNotify d)
{
    struct mdata *x = malloc(sizeof *x); x->key = key; x->data = data; x->d = d; x->next = (struct mdata *)o->qdata; o->qdata = (GData *)x;
}
gpointer g_object_get_data(GObject *o, const gchar *key)
{
    for (struct mdata *x = (struct mdata *)o->qdata; x; x = x->next) if (!strcmp(x->key, key)) return x->data;
    return NULL;
}
static void free_data(GObject *o)
{
    for (struct mdata *x = (struct mdata *)o->qdata, *n; x; x = n) { n = x->next; if (x->d) x->d(x->data); free(x); }
}
/* gio base types */
GType g_input_stream_get_type(void)
{
    static GType t;
    if (!t) t = g_type_register_static_simple(G_TYPE_OBJECT, "GInputStream", sizeof(GInputStreamClass), NULL, sizeof(GInputStream), NULL, 0);
    return t;
}
GType g_seekable_get_type(void) { return 804; }
static gpointer model_iface(gpointer o, GType i)
{
    for (GType t = ((GObject *)o)->g_type_instance.g_class->g_type; ISM(t); t = mtypes[MI(t)].parent)
        for (int k = 0; k < 2; k++) if (mtypes[MI(t)].itype[k] == i) {
            if (!mtypes[MI(t)].ivt[k]) { mtypes[MI(t)].ivt[k] = calloc(1, sizeof(GSeekableIface)); mtypes[MI(t)].iinit[k](mtypes[MI(t)].ivt[k], NULL); }
            return mtypes[MI(t)].ivt[k];
        }
    return NULL;
}
gboolean g_seekable_seek(GSeekable *s, goffset off, GSeekType w, GCancellable *c, GError **err)
{ return ((GSeekableIface *)model_iface(s, 804))->seek(s, off, w, c, err); }
goffset g_seekable_tell(GSeekable *s) { return ((GSeekableIface *)model_iface(s, 804))->tell(s); }
gboolean g_seekable_can_seek(GSeekable *s) { return ((GSeekableIface *)model_iface(s, 804))->can_seek(s); }
gssize g_input_stream_skip(GInputStream *in, gsize count, GCancellable *c, GError **err)
{ return count ? ((GInputStreamClass *)((GObject *)in)->g_type_instance.g_class)->skip(in, count, c, err) : 0; }
gboolean g_input_stream_close(GInputStream *in, GCancellable *c, GError **err)
{ return ((GInputStreamClass *)((GObject *)in)->g_type_instance.g_class)->close_fn(in, c, err); }
GType g_cancellable_get_type(void) { return 808; }
gboolean g_input_stream_read_all(GInputStream *in, void *buf, gsize count, gsize *nread, GCancellable *c, GError **err)
{
    GInputStreamClass *k = (GInputStreamClass *)((GObject *)in)->g_type_instance.g_class; gsize n = 0;
    while (n < count) {
        gssize r = k->read_fn(in, (char *)buf + n, count - n, c, err);
        if (r < 0) { if (nread) *nread = n; return FALSE; }
        if (r == 0) break;
        n += r;
    }
    if (nread) *nread = n;
    return TRUE;
}
gssize g_input_stream_read(GInputStream *in, void *buf, gsize count, GCancellable *c, GError **err)
{ return count ? ((GInputStreamClass *)((GObject *)in)->g_type_instance.g_class)->read_fn(in, buf, count, c, err) : 0; }
#else
#define free_data(o) ((void)0)
#endif

gpointer (g_object_ref)(gpointer o)
{ if (o) ((GObject *)o)->ref_count++; return o; }
void g_object_unref(gpointer o)
{
    GObject *g = o;
    if (!g) return;
    if (!g->g_type_instance.g_class) { g->ref_count--; return; }
    if (--g->ref_count == 0) {
        ((GObjectClass *)g->g_type_instance.g_class)->finalize(g);
        free_data(g);
        free((char *)g - mtypes[MI(g->g_type_instance.g_class->g_type)].priv);
    }
}
GTypeInstance *g_type_check_instance_cast(GTypeInstance *i, GType t) { return i; }
GTypeClass *g_type_check_class_cast(GTypeClass *c, GType t) { return c; }
gboolean g_type_check_instance_is_a(GTypeInstance *i, GType t)
{
    if (!i || !i->g_class) return FALSE;
    GType k = i->g_class->g_type;
    while (ISM(k)) { if (k == t || mtypes[MI(k)].itype[0] == t || mtypes[MI(k)].itype[1] == t) return TRUE; k = mtypes[MI(k)].parent; }
    return FALSE;
}
gboolean g_type_check_instance(GTypeInstance *i) { return i != NULL; }
gboolean g_type_check_instance_is_fundamentally_a(GTypeInstance *i, GType t) { return i != NULL; }
#ifdef __CPROVER__
GType g_enum_register_static(const gchar *n, const GEnumValue *v) { return 400; }
#else
GType g_enum_register_static(const gchar *n, const GEnumValue *v)
{ GType t = g_type_register_static_simple(0, n, sizeof(GEnumClass), NULL, 0, NULL, 0); mtypes[MI(t)].fund = 1; mtypes[MI(t)].ev = v; return t; }
gpointer (g_type_class_ref)(GType t)
{
    gpointer k = model_class(t); const GEnumValue *v = mtypes[MI(t)].ev; if (!v) return k;
    GEnumClass *e = k; e->values = (GEnumValue *)v; e->n_values = 0; while (v[e->n_values].value_name) e->n_values++; return e;
}
void (g_type_class_unref)(gpointer k) { }
GEnumValue *g_enum_get_value_by_nick(GEnumClass *k, const gchar *nick) { for (guint i = 0; i < k->n_values; i++) if (!strcmp(k->values[i].value_nick, nick)) return &k->values[i]; return NULL; }
GEnumValue *g_enum_get_value(GEnumClass *k, gint v) { for (guint i = 0; i < k->n_values; i++) if (k->values[i].value == v) return &k->values[i]; return NULL; }
GTypeInstance *g_type_create_instance(GType t)
{
    struct mtype *m = &mtypes[MI(t)]; GObject *o = (GObject *)((char *)calloc(1, m->inst_size + m->priv) + m->priv);
    o->g_type_instance.g_class = model_class(t); init_chain(t, o); return (GTypeInstance *)o;
}
void g_type_free_instance(GTypeInstance *i) { free((char *)i - mtypes[MI(i->g_class->g_type)].priv); }
void g_signal_handlers_destroy(gpointer o) { }
void g_object_notify_by_pspec(GObject *o, GParamSpec *p) { }
/* properties by name and GValues; data[1] of a string value says whether it is its own */
GParamSpec *g_param_spec_gtype(const gchar *n, const gchar *k, const gchar *b, GType t, GParamFlags f) { return spec(n, K_UINT); }
GParamSpec *g_param_spec_pointer(const gchar *n, const gchar *k, const gchar *b, GParamFlags f) { return spec(n, K_OBJECT); }
GValue *g_value_init(GValue *v, GType t) { memset(v, 0, sizeof *v); v->g_type = t; return v; }
void g_value_take_string(GValue *v, gchar *s) { v->data[0].v_pointer = s; v->data[1].v_int = 1; }
void g_value_unset(GValue *v) { if (v->data[1].v_int) free(v->data[0].v_pointer); memset(v, 0, sizeof *v); }
void g_value_set_int(GValue *v, gint x) { v->data[0].v_int = x; }
void g_value_set_uint64(GValue *v, guint64 x) { v->data[0].v_uint64 = x; }
guint64 g_value_get_uint64(const GValue *v) { return v->data[0].v_uint64; }
void g_value_set_pointer(GValue *v, gpointer x) { v->data[0].v_pointer = x; }
gpointer g_value_get_pointer(const GValue *v) { return v->data[0].v_pointer; }
void g_value_set_gtype(GValue *v, GType x) { v->data[0].v_ulong = x; }
GType g_value_get_gtype(const GValue *v) { return v->data[0].v_ulong; }
gboolean g_type_check_value_holds(const GValue *v, GType t) { return v && v->g_type == t; }
gboolean g_type_check_value(const GValue *v) { return v && v->g_type; }
void g_object_set_property(GObject *o, const gchar *name, const GValue *v)
{
    GObjectClass *k = NULL; struct mprop *p = find_prop(o->g_type_instance.g_class->g_type, name, &k);
    if (p && p->kind == K_STRING) k->set_property(o, p->id, v, NULL);    /* else GObject warns and goes on */
}
void g_value_register_transform_func(GType a, GType b, GValueTransform f) { }
gboolean (g_type_is_a)(GType t, GType is)
{ for (; ISM(t); t = mtypes[MI(t)].parent) if (t == is || mtypes[MI(t)].itype[0] == is || mtypes[MI(t)].itype[1] == is) return TRUE; return t == is; }
gpointer g_type_interface_peek(gpointer k, GType i) { GTypeInstance o; GObject *p = (GObject *)&o; o.g_class = k; return model_iface(p, i); }
GType g_initially_unowned_get_type(void) { return 812; }
gpointer (g_object_ref_sink)(gpointer o) { return (g_object_ref)(o); }
gpointer g_type_interface_peek_parent(gpointer i) { return NULL; }
#endif
GType g_flags_register_static(const gchar *n, const GFlagsValue *v) { return 404; }
