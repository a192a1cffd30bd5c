// Summary-information accessors enforce types and the update limit.
//@ run h_access engine=msym lib=all workers=6 timeout=500 covers="every history of 3 set operations (integer, string, time, with any value) over 8 property ids (of every type, none and out of range), update limits 0..2, then every getter of every property"
#include "db.h"
static int kind_of(int p)
{ return p == 1 || (p >= 14 && p <= 16) || p == 19 ? LIBMSI_PROPERTY_TYPE_INT : p >= 10 && p <= 13 ? LIBMSI_PROPERTY_TYPE_FILETIME : (p >= 2 && p <= 9) || p == 18 ? LIBMSI_PROPERTY_TYPE_STRING : LIBMSI_PROPERTY_TYPE_EMPTY; }
static const int ids[] = { 1, 2, 12, 14, 18, 0, 17, 20 };
void h_access(void)
{
    struct { int kind, i; uint64_t t; char s[4]; } m[8]; memset(m, 0, sizeof m);
    unsigned left = sym_choose(3); LibmsiSummaryInfo *si = libmsi_summary_info_new(NULL, left, NULL); CHECK(si != NULL, "a summary without database");
    for (int k = 0; k < 3; k++) {
        int x = sym_choose(8), op = 1 + sym_choose(3), p = ids[x]; GError *e = NULL; gboolean ok; int iv = 0; uint64_t tv = 0; char s[4] = "";
        if (op == LIBMSI_PROPERTY_TYPE_INT) { iv = (int)sym_u32(); ok = libmsi_summary_info_set_int(si, p, iv, &e); }
        else if (op == LIBMSI_PROPERTY_TYPE_STRING) { sym_text(s, k & 1, 1, 255); ok = libmsi_summary_info_set_string(si, p, s, &e); }
        else { tv = sym_u64(); ok = libmsi_summary_info_set_filetime(si, p, tv, &e); }
        int want = kind_of(p) == op && (m[x].kind || left > 0);
        CHECK(ok == want, "a property is set exactly if it has that type and the limit allows it");
        CHECK(ok == !e, "a refusal is reported through its GError"); if (e) g_error_free(e);
        if (ok) { if (!m[x].kind) left--; m[x].kind = op; m[x].i = iv; m[x].t = tv; memcpy(m[x].s, s, 4); WITNESS("set"); }
    }
    for (int x = 0; x < 8; x++) {
        int p = ids[x]; GError *e = NULL; int t = libmsi_summary_info_get_property_type(si, p, &e);
        CHECK((p >= 20) == (e != NULL) && t == m[x].kind, "the type of a property"); g_clear_error(&e);
        int iv = libmsi_summary_info_get_int(si, p, &e);
        CHECK(m[x].kind == LIBMSI_PROPERTY_TYPE_INT ? iv == m[x].i && !e : iv == -1 && e, "get_int"); g_clear_error(&e);
        uint64_t tv = libmsi_summary_info_get_filetime(si, p, &e);
        CHECK(m[x].kind == LIBMSI_PROPERTY_TYPE_FILETIME ? tv == m[x].t && !e : tv == 0 && e, "get_filetime"); g_clear_error(&e);
        const char *s = libmsi_summary_info_get_string(si, p, &e);
        CHECK(m[x].kind == LIBMSI_PROPERTY_TYPE_STRING ? s && !strcmp(s, m[x].s) && !e : !s && e, "get_string"); g_clear_error(&e);
    }
    GError *e = NULL; CHECK(!libmsi_summary_info_persist(si, &e) && e, "nothing to persist to is an error"); g_clear_error(&e);
    WITNESS("end"); g_object_unref(si);
}
