// A record field holds the last value written to it; conversions are exact.
//@ run h_history engine=msym lib=all workers=6 timeout=400 covers="every history of 3 writes (integer of any value, string of 0..2 arbitrary bytes, NULL string, stream from a file, from another stream, from a missing file, rewind, clear) over fields 0..3 of a 2-field record"
//@ run h_parse engine=msym lib=all workers=4 timeout=300 covers="get_int of every string of up to 4 arbitrary bytes and of every 10- and 11-character decimal numeral"
//@ run h_decimal engine=msym lib=all workers=4 timeout=300 covers="get_string of 13 integers including the limits of 16 and 32 bits"
//@ run h_short engine=msym lib=all workers=2 timeout=300 covers="set_stream asking for more bytes than the stream has: refused, reported, field unchanged; any content up to 3 bytes"
#include "db.h"
enum { F_NULL, F_INT, F_STR, F_STM };
typedef struct { int kind, i; char s[4]; uint8_t d[2]; unsigned n; } F;
/* the value of a decimal numeral, modulo 2^32; 0 if s is none */
static int numeral(const char *s, int *out)
{
    uint32_t v = 0; int neg = s[0] == '-', k = neg;
    if (!s[k]) return 0;
    for (; s[k]; k++) { if (s[k] < '0' || s[k] > '9') return 0; v = v * 10 + (s[k] - '0'); }
    if (neg) v = -v;
    *out = (int)v; return 1;
}
static void is(LibmsiRecord *r, unsigned f, const F *w)
{
    int v = LIBMSI_NULL_INT; GInputStream *in; uint8_t b[4]; gsize got = 9; gchar *s;
    CHECK(libmsi_record_is_null(r, f) == (w->kind == F_NULL), "is_null");
    if (w->kind == F_INT) v = w->i;
    if (w->kind == F_STR) numeral(w->s, &v);
    CHECK(libmsi_record_get_int(r, f) == v, "get_int");
    if (w->kind != F_INT) {
        s = libmsi_record_get_string(r, f);
        if (w->kind == F_STM) CHECK(!s, "a stream is no string"); else CHECK(s && !strcmp(s, w->kind == F_STR ? w->s : ""), "get_string");
        g_free(s);
    }
    in = libmsi_record_get_stream(r, f);
    CHECK((in != NULL) == (w->kind == F_STM), "a field has a stream exactly if one was stored");
    if (in) { CHECK(g_input_stream_read_all(in, b, 4, &got, NULL, NULL) && got == w->n && !memcmp(b, w->d, w->n), "with the bytes stored"); g_object_unref(in); }
}
static GInputStream *some_stream(uint8_t *d, unsigned n)
{
    LibmsiRecord *q = libmsi_record_new(1); sym_fill(d, n); env_put("/e", env_mem_file(d, n));
    CHECK(libmsi_record_load_stream(q, 1, "/e"), "load"); GInputStream *in = libmsi_record_get_stream(q, 1); g_object_unref(q); return in;
}
void h_history(void)
{
    F m[4]; memset(m, 0, sizeof m);
    LibmsiRecord *r = libmsi_record_new(2);
    CHECK(libmsi_record_get_field_count(r) == 2, "field count");
    for (int k = 0; k < 3; k++) {
        int op = sym_choose(8), f = op == 7 ? 0 : sym_choose(4), fits = f <= 2, sfits = f == 1 || f == 2; F w; gboolean ok; GError *e = NULL;
        memset(&w, 0, sizeof w);
        switch (op) {
        case 0: w.kind = F_INT; w.i = (int)sym_u32(); ok = libmsi_record_set_int(r, f, w.i); break;
        case 1: { unsigned n = sym_choose(3); sym_text(w.s, n, 1, 255); w.kind = n ? F_STR : F_NULL; ok = libmsi_record_set_string(r, f, w.s); break; }
        case 2: ok = libmsi_record_set_string(r, f, NULL); break;
        case 3: w.kind = F_STM; w.n = sym_choose(3); sym_fill(w.d, w.n); env_put("/d", env_mem_file(w.d, w.n)); fits = sfits; ok = libmsi_record_load_stream(r, f, "/d"); break;
        case 4: { w.kind = F_STM; w.n = 1 + sym_choose(2); if (!sfits) continue; GInputStream *in = some_stream(w.d, w.n); ok = libmsi_record_set_stream(r, f, in, w.n, NULL, &e); CHECK(!e, "no error"); g_object_unref(in); break; }
        case 5: ok = libmsi_record_load_stream(r, f, "/missing"); CHECK(!ok, "a missing file is refused"); continue;
        case 6: ok = libmsi_record_load_stream(r, f, NULL); CHECK(ok == (sfits && m[f].kind == F_STM), "only a stream can be rewound"); continue;
        case 7: ok = libmsi_record_clear(r); CHECK(ok, "clear"); memset(m, 0, sizeof m); continue;
        }
        CHECK(ok == fits, "a write succeeds exactly for the fields of the record");
        if (fits) m[f] = w;
    }
    for (int f = 0; f < 4; f++) is(r, f, &m[f]);
    WITNESS("end"); g_object_unref(r);
}
void h_parse(void)
{
    char s[16]; int v = LIBMSI_NULL_INT, how = sym_choose(3); unsigned n = sym_choose(5);
    LibmsiRecord *r = libmsi_record_new(1);
    if (how == 0) sym_text(s, n, 1, 255); else { s[0] = '-'; sym_text(s + how - 1, 10, '0', '9'); s[how - 1] = '0' + sym_choose(10); }
    CHECK(libmsi_record_set_string(r, 1, s), "set");
    numeral(s, &v);
    CHECK(libmsi_record_get_int(r, 1) == v, "the integer the text denotes (truncated to 32 bits), or none");
    WITNESS_IF(v != (int)LIBMSI_NULL_INT && how, "long numeral"); g_object_unref(r);
}
void h_decimal(void)
{
    static const int v[] = { 0, 1, -1, 9, 10, -10, 32767, -32767, 65536, 2147483647, -2147483647, 1000000000, 2147483640 };
    static const char *const s[] = { "0", "1", "-1", "9", "10", "-10", "32767", "-32767", "65536", "2147483647", "-2147483647", "1000000000", "2147483640" };
    int k = sym_choose(13); LibmsiRecord *r = libmsi_record_new(1);
    libmsi_record_set_int(r, 1, v[k]); gchar *t = libmsi_record_get_string(r, 1);
    CHECK(t && !strcmp(t, s[k]), "decimal text"); g_free(t);
    libmsi_record_set_string(r, 1, s[k]); CHECK(libmsi_record_get_int(r, 1) == v[k], "and back"); WITNESS("end"); g_object_unref(r);
}
void h_short(void)
{
    uint8_t d[3]; unsigned n = sym_choose(4), want = 1 + sym_choose(5); GError *e = NULL; LibmsiRecord *r = libmsi_record_new(1); F m;
    memset(&m, 0, sizeof m); m.kind = F_INT; m.i = 7; libmsi_record_set_int(r, 1, 7);
    GInputStream *in = some_stream(d, n);
    gboolean ok = libmsi_record_set_stream(r, 1, in, want, NULL, &e);
    CHECK(ok == (want <= n), "set_stream succeeds exactly if the bytes are there");
    CHECK(ok == !e, "and reports failure through its GError"); if (e) g_error_free(e);
    if (ok) { m.kind = F_STM; m.n = want > 2 ? 2 : want; memcpy(m.d, d, m.n); WITNESS("stored");
        if (want == 3) { g_object_unref(in); g_object_unref(r); return; } }
    is(r, 1, &m); g_object_unref(in); g_object_unref(r);
}
