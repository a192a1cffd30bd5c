// Any summary-information stream can be opened safely; a well-formed one is read exactly.
//@ run h_bytes engine=msym lib=all workers=4 timeout=300 covers="every stream of arbitrary bytes of length 0..2, 4, 27, 28, 31, 43, 44, 47, 48, 52, 56; the section at any offset that leaves less than 8 bytes, at 44, or at 48"
//@ run h_section engine=msym lib=all workers=6 timeout=300 covers="well-formed header; every section size, one property of every id at every offset, then 12 arbitrary bytes, in a stream of exactly that size"
//@ run h_pair engine=msym lib=all workers=6 timeout=300 covers="well-formed header; two properties (every id of every kind) whose values overlap at every pair of offsets, over 12 bytes: a type of any kind, a length or value 0..9, arbitrary content"
//@ run h_twice engine=msym lib=all workers=4 timeout=400 covers="the same property given twice, with every pair of value types, every value bytes"
//@ run h_counts engine=msym lib=all workers=4 timeout=300 covers="well-formed header; every property count and section size over a 24-byte section, a 12-byte section, and an empty one"
//@ run h_exact engine=msym lib=all workers=4 timeout=300 covers="well-formed streams of 3 properties, one of each kind: every id of the kind, every value, strings of 0..3 arbitrary bytes, values in any order and with gaps, sections after a gap"
#include "db.h"
static const uint8_t fmtid[16] = { 0xe0, 0x85, 0x9f, 0xf2, 0xf9, 0x4f, 0x68, 0x10, 0xab, 0x91, 0x08, 0x00, 0x2b, 0x27, 0xb3, 0xd9 };
static int kind_of(int p)
{ return p == 1 || (p >= 14 && p <= 16) || p == 19 ? LIBMSI_PROPERTY_TYPE_INT : p >= 10 && p <= 13 ? LIBMSI_PROPERTY_TYPE_FILETIME : (p >= 2 && p <= 9) || p == 18 ? LIBMSI_PROPERTY_TYPE_STRING : LIBMSI_PROPERTY_TYPE_EMPTY; }
static void w32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static LibmsiSummaryInfo *load(const uint8_t *d, unsigned n)
{
    Fmt f; static const char *const nm[] = { "T" }, *const cn[] = { "A" }; static const unsigned nc[] = { 1 }, ty[] = { 0x2502 };
    fmt_begin(&f, 0, 2); fmt_catalog(&f, 1, nm, nc, cn, ty); { Node *k = env_node("\5SummaryInformation", 0); env_data(k, d, n); env_add(f.root, k); } fmt_end(&f, "/a.msi");
    LibmsiDatabase *db = db_open("/a.msi", LIBMSI_DB_FLAGS_READONLY); CHECK(db != NULL, "opens");
    GError *e = NULL; LibmsiSummaryInfo *si = libmsi_summary_info_new(db, 5, &e); CHECK((si != NULL) == !e, "an error or a summary"); if (e) g_error_free(e);
    g_object_unref(db); return si;
}
/* every property has its kind or is empty, and can be read */
static void sane(LibmsiSummaryInfo *si)
{
    if (!si) return;
    GArray *a = libmsi_summary_info_get_properties(si); unsigned n = 0;
    for (int p = 0; p < 20; p++) {
        GError *e = NULL; int t = libmsi_summary_info_get_property_type(si, p, &e);
        CHECK(!e && (t == LIBMSI_PROPERTY_TYPE_EMPTY || t == kind_of(p)), "a property has its declared type");
        if (t != LIBMSI_PROPERTY_TYPE_EMPTY) n++;
        if (t == LIBMSI_PROPERTY_TYPE_STRING) { const char *s = libmsi_summary_info_get_string(si, p, &e); CHECK(s && !e, "string"); unsigned l = 0; while (s[l]) l++; CHECK(l < 40, "is within the stream"); }
        if (t == LIBMSI_PROPERTY_TYPE_INT) { libmsi_summary_info_get_int(si, p, &e); CHECK(!e, "integer"); }
        if (t == LIBMSI_PROPERTY_TYPE_FILETIME) { libmsi_summary_info_get_filetime(si, p, &e); CHECK(!e, "time"); }
    }
    CHECK(a && a->len == n, "exactly these are listed");
    g_array_unref(a); g_object_unref(si);
}
void h_bytes(void)
{
    static const unsigned len[] = { 0, 1, 2, 4, 27, 28, 31, 43, 44, 47, 48, 52, 56 };
    uint8_t d[80]; unsigned n = len[sym_choose(13)]; sym_fill(d, n);
    if (n >= 48) {
        unsigned how = sym_choose(3);
        if (how == 0) { uint32_t o = d[44] | d[45] << 8 | d[46] << 16 | (uint32_t)d[47] << 24; ASSUME(o > n - 8); }
        else w32(d + 44, how == 1 ? 44 : 48);
    }
    sane(load(d, n)); WITNESS("end");
}
static unsigned head(uint8_t *d, unsigned off)
{ memset(d, 0, off); d[0] = 0xfe; d[1] = 0xff; w32(d + 4, 0x20005); w32(d + 24, 1); memcpy(d + 28, fmtid, 16); w32(d + 44, off); return off; }
void h_section(void)
{
    uint8_t d[100]; unsigned n = head(d, 48);
    sym_fill(d + n, 4); w32(d + n + 4, 1); sym_fill(d + n + 8, 8 + 12);
    sane(load(d, n + 8 + 8 + 12)); WITNESS("end");
}
void h_pair(void)
{
    static const unsigned ty[] = { 2, 3, 30, 64, 31 }; static const unsigned ids[] = { 2, 12, 14, 1, 0 };
    uint8_t d[100]; unsigned n = head(d, 48);
    w32(d + n, 36); w32(d + n + 4, 2); w32(d + n + 8, ids[sym_choose(5)]); w32(d + n + 12, sym_choose(5) * 4 + 16); w32(d + n + 16, ids[sym_choose(5)]); w32(d + n + 20, sym_choose(5) * 4 + 16);
    w32(d + n + 24, ty[sym_choose(5)]); w32(d + n + 28, sym_choose(10)); sym_fill(d + n + 32, 4);
    sane(load(d, n + 36)); WITNESS("end");
}
void h_twice(void)
{
    static const unsigned ty[] = { 2, 3, 30, 64, 31, 0 }; static const unsigned ids[] = { 2, 12, 14, 1 };
    uint8_t d[120]; unsigned n = head(d, 48), id = ids[sym_choose(4)], a = ty[sym_choose(6)], b = ty[sym_choose(6)];
    w32(d + n, 56); w32(d + n + 4, 2); w32(d + n + 8, id); w32(d + n + 12, 24); w32(d + n + 16, id); w32(d + n + 20, 40);
    w32(d + n + 24, a); sym_fill(d + n + 28, 12); w32(d + n + 40, b); sym_fill(d + n + 44, 12);
    if (a == 30) { unsigned l = sym_choose(4); w32(d + n + 28, l); } if (b == 30) { unsigned l = sym_choose(4); w32(d + n + 44, l); }
    sane(load(d, n + 56)); WITNESS("end");
}
void h_counts(void)
{
    static const unsigned len[] = { 0, 4, 8, 12, 24 };
    uint8_t d[80]; unsigned n = head(d, 48), k = len[sym_choose(5)];
    sym_fill(d + n, k < 8 ? k : 8); for (unsigned i = 8; i < k; i++) d[n + i] = 0;
    if (k == 24) { w32(d + n + 8, 14); w32(d + n + 12, 16); w32(d + n + 16, 3); w32(d + n + 20, 200); }
    sane(load(d, n + k)); WITNESS("end");
}
void h_exact(void)
{
    static const int ip[] = { 1, 14, 15, 16, 19 }, sp[] = { 2, 3, 4, 5, 6, 7, 8, 9, 18 }, tp[] = { 10, 11, 12, 13 };
    int pi = ip[sym_choose(5)], ps = sp[sym_choose(9)], pt = tp[sym_choose(4)], order = sym_choose(6), gap = sym_choose(2) * 4, secgap = sym_choose(2) * 8;
    uint8_t d[200]; char s[4]; int iv = sym_u32(); uint64_t tv = sym_u64(); unsigned sl = sym_choose(4); memset(d, 0x5a, sizeof d); sym_text(s, sl, 1, 255);
    if (pi == 1) { iv &= 0x7fff; }
    static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    unsigned n = head(d, 48 + secgap), sec = n, o[3], p = 8 + 24;
    for (int k = 0; k < 3; k++) {
        int w = perm[order][k]; p += gap; o[w] = p; uint8_t *v = d + sec + p;
        if (w == 0) { w32(v, pi == 1 ? 2 : 3); w32(v + 4, iv); p += 8; }
        if (w == 1) { w32(v, 30); w32(v + 4, sl + 1); memset(v + 8, 0, 4); memcpy(v + 8, s, sl); p += 12; }
        if (w == 2) { w32(v, 64); w32(v + 4, tv); w32(v + 8, tv >> 32); p += 12; }
    }
    w32(d + sec, p); w32(d + sec + 4, 3);
    int ids[3] = { pi, ps, pt }, first = sym_choose(3);
    for (int k = 0; k < 3; k++) { int w = (first + k) % 3; w32(d + sec + 8 + 8 * k, ids[w]); w32(d + sec + 12 + 8 * k, o[w]); }
    LibmsiSummaryInfo *si = load(d, sec + p); GError *e = NULL; CHECK(si != NULL, "loads");
    CHECK(libmsi_summary_info_get_int(si, pi, &e) == iv && !e, "integer");
    CHECK(libmsi_summary_info_get_filetime(si, pt, &e) == tv && !e, "time");
    const char *g = libmsi_summary_info_get_string(si, ps, &e); CHECK(g && !e && !strcmp(g, s), "string");
    for (int q = 0; q < 20; q++) CHECK((libmsi_summary_info_get_property_type(si, q, NULL) != LIBMSI_PROPERTY_TYPE_EMPTY) == (q == pi || q == ps || q == pt), "exactly these are set");
    WITNESS("exact"); sane(si);
}
