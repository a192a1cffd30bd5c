// Summary properties survive persist, commit and reopen, in the documented layout.
//@ run h_persist engine=msym lib=all workers=6 timeout=500 covers="every choice of up to 3 properties out of all settable ones, every integer and time, strings of 0..5 arbitrary bytes, on a new database or replacing an older summary; persist or save to another database, commit, reopen"
//@ run h_full engine=msym lib=all workers=4 timeout=300 covers="all 18 settable properties set at once, every integer and time, strings of 0..4 bytes, in ascending and descending order"
#include "db.h"
static const uint8_t fmtid[16] = { 0xe0, 0x85, 0x9f, 0xf2, 0xf9, 0x4f, 0x68, 0x10, 0xab, 0x91, 0x08, 0x00, 0x2b, 0x27, 0xb3, 0xd9 };
static int kind_of(int p)
{ return p == 1 || (p >= 14 && p <= 16) || p == 19 ? LIBMSI_PROPERTY_TYPE_INT : p >= 10 && p <= 13 ? LIBMSI_PROPERTY_TYPE_FILETIME : (p >= 2 && p <= 9) || p == 18 ? LIBMSI_PROPERTY_TYPE_STRING : LIBMSI_PROPERTY_TYPE_EMPTY; }
static uint32_t r32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
typedef struct { int kind; int i; uint64_t t; char s[6]; } V;
static V pick(int p, unsigned sl)
{
    V v; memset(&v, 0, sizeof v); v.kind = kind_of(p);
    if (v.kind == LIBMSI_PROPERTY_TYPE_INT) { v.i = (int)sym_u32(); if (p == 1) v.i &= 0xffff; }
    if (v.kind == LIBMSI_PROPERTY_TYPE_FILETIME) v.t = sym_u64();
    if (v.kind == LIBMSI_PROPERTY_TYPE_STRING) sym_text(v.s, sl, 1, 255);
    return v;
}
static void set(LibmsiSummaryInfo *si, int p, const V *v)
{
    GError *e = NULL; gboolean ok = v->kind == LIBMSI_PROPERTY_TYPE_INT ? libmsi_summary_info_set_int(si, p, v->i, &e) : v->kind == LIBMSI_PROPERTY_TYPE_STRING ? libmsi_summary_info_set_string(si, p, v->s, &e) : libmsi_summary_info_set_filetime(si, p, v->t, &e);
    CHECK(ok && !e, "setting a property");
}
static void same(LibmsiSummaryInfo *si, const V *w)
{
    for (int p = 0; p < 20; p++) {
        CHECK(libmsi_summary_info_get_property_type(si, p, NULL) == (LibmsiPropertyType)w[p].kind, "exactly the properties set");
        if (w[p].kind == LIBMSI_PROPERTY_TYPE_INT) CHECK(libmsi_summary_info_get_int(si, p, NULL) == w[p].i, "integer");
        if (w[p].kind == LIBMSI_PROPERTY_TYPE_STRING) CHECK(!strcmp(libmsi_summary_info_get_string(si, p, NULL), w[p].s), "string");
        if (w[p].kind == LIBMSI_PROPERTY_TYPE_FILETIME) CHECK(libmsi_summary_info_get_filetime(si, p, NULL) == w[p].t, "time");
    }
}
/* the stream in the file, by an independent reader */
static void layout(const char *path, const V *w)
{
    Node *n = env_kid(env_file(path), "\5SummaryInformation"); CHECK(n != NULL, "the stream exists");
    const uint8_t *d = n->data; CHECK(n->len >= 56 && d[0] == 0xfe && d[1] == 0xff && r32(d + 24) == 1 && !memcmp(d + 28, fmtid, 16), "header");
    uint32_t o = r32(d + 44), sz, cnt, k, want = 0; CHECK(o == 48, "section follows"); d += o; sz = r32(d); cnt = r32(d + 4);
    for (int p = 0; p < 20; p++) if (w[p].kind) want++;
    CHECK(cnt == want && o + sz == n->len && sz >= 8 + 8 * cnt, "counts and size");
    uint32_t end = 8 + 8 * cnt;
    for (k = 0; k < cnt; k++) {
        uint32_t id = r32(d + 8 + 8 * k), at = r32(d + 12 + 8 * k), l; CHECK(id < 20 && w[id].kind, "a property set");
        CHECK(at == end && at % 4 == 0 && at + 8 <= sz, "values are aligned, in order, within the section and do not overlap");
        const uint8_t *v = d + at; int ty = r32(v);
        if (w[id].kind == LIBMSI_PROPERTY_TYPE_INT) { CHECK(ty == (id == 1 ? 2 : 3) && (id == 1 ? (int)(r32(v + 4) & 0xffff) : (int)r32(v + 4)) == w[id].i, "integer value"); end = at + 8; }
        if (w[id].kind == LIBMSI_PROPERTY_TYPE_FILETIME) { CHECK(ty == 64 && at + 12 <= sz && (r32(v + 4) | (uint64_t)r32(v + 8) << 32) == w[id].t, "time value"); end = at + 12; }
        if (w[id].kind == LIBMSI_PROPERTY_TYPE_STRING) { l = r32(v + 4); CHECK(ty == 30 && l == strlen(w[id].s) + 1 && at + 8 + l <= sz && !memcmp(v + 8, w[id].s, l), "string value"); end = (at + 8 + l + 3) & ~3u; }
    }
    CHECK(end == sz, "the section ends with its last value");
}
static void finish(LibmsiSummaryInfo *si, LibmsiDatabase *db, int save, const V *w)
{
    GError *e = NULL; LibmsiDatabase *to = db; const char *path = "/a.msi";
    if (save) { to = db_create("/b.msi"); path = "/b.msi"; CHECK(libmsi_summary_info_save(si, to, &e) && !e, "save"); }
    else CHECK(libmsi_summary_info_persist(si, &e) && !e, "persist");
    same(si, w); g_object_unref(si);
    si = libmsi_summary_info_new(to, 0, &e); CHECK(si && !e, "summary"); same(si, w); g_object_unref(si);
    CHECK(commit(to), "commit");
    si = libmsi_summary_info_new(to, 0, &e); CHECK(si && !e, "summary"); same(si, w); g_object_unref(si);
    if (save) g_object_unref(to);
    g_object_unref(db);
    layout(path, w);
    db = db_open(path, LIBMSI_DB_FLAGS_READONLY); si = libmsi_summary_info_new(db, 0, &e); CHECK(si && !e, "summary"); same(si, w); g_object_unref(si); g_object_unref(db);
    WITNESS("end");
}
void h_persist(void)
{
    static const int ps[] = { 1, 2, 4, 9, 10, 13, 14, 16, 18, 19 };
    V w[20]; memset(w, 0, sizeof w); LibmsiDatabase *db = db_create("/a.msi"); GError *e = NULL;
    LibmsiSummaryInfo *si;
    if (sym_bool()) {
        si = libmsi_summary_info_new(db, 2, NULL); V o = pick(2, 2), q = pick(15, 0); set(si, 2, &o); set(si, 15, &q);
        CHECK(libmsi_summary_info_persist(si, &e), "persist"); g_object_unref(si); w[2] = o; w[15] = q;
        if (sym_bool()) CHECK(commit(db), "commit");
    }
    si = libmsi_summary_info_new(db, 3, NULL);
    unsigned n = sym_choose(3), at = 0;
    for (unsigned k = 0; k <= n && at < 10; k++) { at += sym_choose(4); if (at >= 10) break; w[ps[at]] = pick(ps[at], k == 0 ? sym_choose(6) : 2); set(si, ps[at], &w[ps[at]]); at++; }
    finish(si, db, sym_bool(), w);
}
void h_full(void)
{
    V w[20]; memset(w, 0, sizeof w); LibmsiDatabase *db = db_create("/a.msi"); int down = sym_bool();
    LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 18, NULL); unsigned sl = sym_choose(5);
    for (int k = 0; k < 20; k++) { int p = down ? 19 - k : k; if (kind_of(p) == LIBMSI_PROPERTY_TYPE_EMPTY) continue; w[p] = pick(p, sl); set(si, p, &w[p]); }
    finish(si, db, 0, w);
}
