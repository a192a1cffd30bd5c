// A stream obtained from a record yields exactly its bytes under any pattern of reads, skips and seeks.
//@ run h_pattern engine=msym lib=all workers=4 timeout=300 covers="content of 0..3 arbitrary bytes; every sequence of 3 operations out of read (0..4 bytes), skip (0..255 bytes), seek (from start, position or end, every offset below 2^62), then reading the rest; a second stream of the same field"
//@ run h_stored engine=msym lib=all workers=4 timeout=300 covers="stream of a row of _Streams and of an OBJECT column, before and after commit: same sequences of 2 operations"
//@ assume 64-bit wrap-around of an offset inside libgsf (offsets of 2^62 and more) is outside
#include "db.h"
static void drive(GInputStream *in, const uint8_t *d, gint64 n, int steps)
{
    gint64 pos = 0;
    CHECK(G_IS_SEEKABLE(in) && g_seekable_can_seek(G_SEEKABLE(in)), "the stream is seekable");
    for (int k = 0; k < steps; k++) {
        int op = sym_choose(3); GError *e = NULL;
        if (op == 0) {
            unsigned c = sym_choose(5); uint8_t *b = malloc(c + 1), g = sym_u8(); b[c] = g;
            gssize r = g_input_stream_read(in, b, c, NULL, &e);
            gint64 want = c < n - pos ? c : n - pos;
            CHECK(r == want && !e, "a read returns what is asked for and left");
            for (gssize j = 0; j < r; j++) for (gint64 x = 0; x < n; x++) if (x == pos + j) CHECK(b[j] == d[x], "the bytes of the stream in order");
            CHECK(b[c] == g, "a read does not write beyond the count"); free(b); pos += r;
        } else if (op == 1) {
            unsigned c = sym_u8(); gssize r = g_input_stream_skip(in, c, NULL, &e);
            gint64 want = c < n - pos ? c : n - pos;
            CHECK(r == want && !e, "a skip passes over what is asked for and left"); pos += r;
            for (gint64 x = 0; x <= n; x++) if (pos == x) { pos = x; break; }
        } else {
            int w = sym_choose(3); gint64 off = (gint64)sym_u64(), to; ASSUME(off > -(1LL << 62) && off < (1LL << 62));
            to = off + (w == 0 ? pos : w == 1 ? 0 : n);
            gboolean ok = g_seekable_seek(G_SEEKABLE(in), off, w == 0 ? G_SEEK_CUR : w == 1 ? G_SEEK_SET : G_SEEK_END, NULL, &e);
            CHECK(ok == (to >= 0 && to <= n), "a seek succeeds exactly inside the stream");
            CHECK(ok == !e, "a refused seek is reported through its GError"); if (e) g_error_free(e);
            if (ok) for (gint64 x = 0; x <= n; x++) if (to == x) { pos = x; break; }
        }
        CHECK(g_seekable_tell(G_SEEKABLE(in)) == pos, "the position is the number of bytes passed");
    }
    uint8_t b[8]; gsize got = 99;
    CHECK(g_input_stream_read_all(in, b, 8, &got, NULL, NULL) && got == (gsize)(n - pos) && !memcmp(b, d + pos, n - pos), "the rest follows");
    WITNESS_IF(pos > 0 && pos < n, "in the middle");
}
void h_pattern(void)
{
    uint8_t d[3], b[8]; unsigned n = sym_choose(4); gsize got;
    sym_fill(d, n); env_put("/d", env_mem_file(d, n));
    LibmsiRecord *r = libmsi_record_new(2);
    CHECK(libmsi_record_load_stream(r, 2, "/d"), "load");
    GInputStream *a = libmsi_record_get_stream(r, 2), *c = libmsi_record_get_stream(r, 2);
    CHECK(a && c, "the stream of a field can be had repeatedly");
    drive(a, d, n, 3);
    CHECK(g_input_stream_read_all(c, b, 8, &got, NULL, NULL) && got == n && !memcmp(b, d, n), "another stream of the field is not disturbed");
    g_object_unref(c);
    c = libmsi_record_get_stream(r, 2); g_object_unref(r);
    CHECK(g_input_stream_read_all(c, b, 8, &got, NULL, NULL) && got == n && !memcmp(b, d, n), "nor by the end of the record");
    g_object_unref(a); g_object_unref(c);
}
static LibmsiRecord *fetch1(LibmsiDatabase *db, const char *sql)
{ LibmsiQuery *q = q_new(db, sql); CHECK(q_exec(q, NULL), "query"); LibmsiRecord *r = libmsi_query_fetch(q, NULL); g_object_unref(q); CHECK(r != NULL, "row"); return r; }
void h_stored(void)
{
    uint8_t d[3]; unsigned n = 1 + sym_choose(3); int obj = sym_bool(), when = sym_choose(4);
    sym_fill(d, n); env_put("/d", env_mem_file(d, n));
    LibmsiDatabase *db = db_create("/a.msi"); LibmsiRecord *r = libmsi_record_new(2), *f;
    must(db, "CREATE TABLE `Bin` (`Name` CHAR(8) NOT NULL, `Data` OBJECT PRIMARY KEY `Name`)");
    libmsi_record_set_string(r, 1, "x"); CHECK(libmsi_record_load_stream(r, 2, "/d"), "load");
    CHECK(ex(db, obj ? "INSERT INTO `Bin` (`Name`,`Data`) VALUES (?,?)" : "INSERT INTO `_Streams` (`Name`,`Data`) VALUES (?,?)", r), "store");
    if (when == 1) CHECK(commit(db), "commit");
    f = when == 3 ? g_object_ref(r) : fetch1(db, obj ? "SELECT `Name`,`Data` FROM `Bin`" : "SELECT `Name`,`Data` FROM `_Streams` WHERE `Name` = 'x'");
    if (when >= 2) CHECK(commit(db), "commit");   /* the field was fetched, or written, before */
    GInputStream *in = libmsi_record_get_stream(f, 2); CHECK(in != NULL, "the stream of the field");
    drive(in, d, n, 2);
    g_object_unref(in); g_object_unref(f); g_object_unref(r); g_object_unref(db);
}
