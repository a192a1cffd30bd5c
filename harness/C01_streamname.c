//@ run h_stream unwind=22 defs="-DNLEN=6 -DSYM_ALLOC_END=32" covers="encode_streamname(false)/decode_streamname, all valid UTF-8 names of up to 6 bytes"
//@ run h_table unwind=26 defs="-DNLEN=6 -DSYM_ALLOC_END=96" covers="encode_streamname(true)/decode_streamname, all valid UTF-8 table names of up to 6 bytes"
//@ assume names are well-formed UTF-8 without the reserved code points U+3800..U+4840
#include "sym.h"
#include "libmsi/table.c"
/* Valid UTF-8, no code point in the reserved range U+3800..U+4840.  The name is
 * built code point by code point so that every string of <= N bytes of that
 * form is covered. */
static bool valid_name(const uint8_t *s, unsigned n)
{
    /* n bytes of buffer, s[n-1] == 0; checks well-formed UTF-8 up to the NUL */
    unsigned need = 0, cp = 0, min = 0;
    for (unsigned i = 0; i < n; i++) {
        uint8_t c = s[i];
        if (need) {
            if ((c & 0xc0) != 0x80) return false;
            cp = cp << 6 | (c & 63);
            if (--need == 0) {
                if (cp < min || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) return false;
                if (cp >= 0x3800 && cp <= 0x4840) return false;
            }
        } else if (c == 0) return true;
        else if (c < 0x80) ;
        else if ((c & 0xe0) == 0xc0) { need = 1; cp = c & 31; min = 0x80; }
        else if ((c & 0xf0) == 0xe0) { need = 2; cp = c & 15; min = 0x800; }
        else if ((c & 0xf8) == 0xf0) { need = 3; cp = c & 7; min = 0x10000; }
        else return false;
    }
    return false;
}
static char *sym_name(unsigned n)
{
    char *s = malloc(n + 1);
    sym_fill(s, n);
    s[n] = 0;
    ASSUME(valid_name((uint8_t *)s, n + 1));
    return s;
}
#ifndef NLEN
#define NLEN 6
#endif
void h_stream(void)
{
    char *s = sym_name(NLEN);
    char *e = encode_streamname(false, s);
    CHECK(e != NULL, "every stream name can be encoded");
    char *d = decode_streamname(e);
    CHECK(strcmp(d, s) == 0, "decoding an encoded stream name gives the name back");
    CHECK((uint8_t)e[0] != 0xe4 || (uint8_t)e[1] != 0xa1 || (uint8_t)e[2] != 0x80, "a plain stream never carries the table prefix");
    WITNESS("stream name round trip done");
    WITNESS_IF(strlen(s) == NLEN, "longest name");
}
void h_table(void)
{
    char *s = sym_name(NLEN);
    char *e = encode_streamname(true, s);
    CHECK(e != NULL, "every short table name can be encoded");
    CHECK((uint8_t)e[0] == 0xe4 && (uint8_t)e[1] == 0xa1 && (uint8_t)e[2] == 0x80, "a table stream carries the table prefix");
    char *d = decode_streamname(e + 3);
    CHECK(strcmp(d, s) == 0, "decoding an encoded table name gives the name back");
    WITNESS("table name round trip done");
}
