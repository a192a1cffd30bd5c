// wixl packs every file of an installed component once and describes it where the installer looks for it.
//@ run h_pack engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="two components with three files, each in no, one or two features, one with a version or a companion: cabinet members and their bytes, File rows and sequence, hashes, Media, embedded cabinet"
//@ run h_bad engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="a missing source file, a companion that is not there or that is a key path are errors"
#include "db.h"
GFile *w_file_new_for_path(const char *); GFile *w_file_get_child(GFile *, const char *); char *w_file_get_path(GFile *);
#define g_file_new_for_path w_file_new_for_path
#define g_file_get_child w_file_get_child
#define g_file_get_path w_file_get_path
#include "wixl/builder.c"
#include "wixl_build.h"
static void md5(WFile *f, gint h[4])
{ GChecksum *c = g_checksum_new(G_CHECKSUM_MD5); gsize n = 16; g_checksum_update(c, f->b, f->n); g_checksum_get_digest(c, (guint8 *)h, &n); g_checksum_free(c); }
void h_pack(void)
{
    static const uint8_t b[4] = { 200, 3, 0, 77 }; xmlNode *root, *p = w_product(&root), *d, *c1, *c2, *g; int in1 = sym_choose(3), in2 = sym_choose(3), tmpl = sym_bool(), emb = sym_choose(3), ver = sym_choose(3), prompt = sym_bool(), tail = sym_bool(), grp = sym_bool(); GError *e = NULL; char nm1[8] = "?ng.txt", cab[8] = "?x.cab", hcab[9] = "#";
    nm1[0] = sym_u8(); cab[0] = sym_u8(); ASSUME(nm1[0] > 0 && nm1[0] < 127 && cab[0] > 0 && cab[0] < 127 && cab[0] != '#'); if (in1 || ver || prompt) ASSUME(nm1[0] == 'q' && cab[0] == 'r');
    strcat(hcab, cab);
    w_file("a", b, 1); w_file("bb", b, 4); w_file("c", "xyz", tail ? 0 : 3);
    d = el(p, "Directory", "Id", "TARGETDIR", "Name", "SourceDir", NULL);
    c1 = el(d, "Component", "Id", "C1", "Guid", "aaaaaaaa-0000-0000-0000-000000000001", NULL); c2 = el(d, "Component", "Id", "C2", "Guid", "aaaaaaaa-0000-0000-0000-000000000002", NULL);
    el(c1, "RegistryValue", "Id", "R1", "Root", "HKLM", "Key", "K", "Type", "string", "Value", "v", "KeyPath", "yes", NULL);
    el(c1, "File", "Id", "F1", "Name", tail ? nm1 : NULL, "Source", "a", "DefaultVersion", ver == 1 ? "1.0" : NULL, "CompanionFile", ver == 2 ? "F3" : NULL, NULL);
    el(c2, "File", "Id", "F2", "Name", "bb", NULL); el(c1, "File", "Id", "F3", "Name", "c", "DiskId", tail ? "1" : NULL, NULL);
    if (tmpl) el(p, "MediaTemplate", "EmbedCab", emb == 0 ? NULL : emb == 1 ? "yes" : "no", NULL);
    else el(p, "Media", "Id", "1", "Cabinet", cab, "DiskPrompt", prompt ? "CD" : NULL, "EmbedCab", emb == 0 ? NULL : emb == 1 ? "yes" : "no", NULL);
    g = el(p, "Feature", "Id", "FA", NULL); if (in1) el(g, "ComponentRef", "Id", "C1", NULL);
    if (in2) { if (grp) { xmlNode *fr = el(root, "Fragment", NULL), *cg = el(fr, "ComponentGroup", "Id", "G", NULL); el(cg, "ComponentRef", "Id", "C2", NULL); el(g, "ComponentGroupRef", "Id", "G", NULL); } else el(g, "ComponentRef", "Id", "C2", NULL); }
    g = el(p, "Feature", "Id", "FB", NULL); if (in1 == 2) el(g, "ComponentRef", "Id", "C1", NULL); if (in2 == 2) el(g, "ComponentRef", "Id", "C2", NULL);
    WixlMsiDatabase *db = w_build(root, 0, 0); CHECK(db != NULL, "the package is built");
    int packed = (in1 ? 2 : 0) + (in2 ? 1 : 0); CHECK(w_nfolders == 1 && w_folder[0].n == packed, "each file of an installed component is packed once, and no other");
    static const char *ID[3] = { "F1", "F2", "F3" }; int at[3] = { 0 };
    for (int i = 0; i < packed; i++) { int k; for (k = 0; k < 3 && strcmp(w_folder[0].m[i].name, ID[k]); k++); CHECK(k < 3 && !at[k], "a member is named after its file"); at[k] = i + 1; CHECK(w_folder[0].m[i].f == &w_files[k], "a member has its source's bytes"); }
    CHECK(!at[0] == !in1 && !at[2] == !in1 && !at[1] == !in2, "exactly the installed files are packed");
    Wv fr[24] = { WS("F1"), WS("C1"), WS(tail ? nm1 : "a"), WI(1), WS(ver == 0 ? "" : ver == 1 ? "1.0" : "F3"), WN, WI(512), at[0] ? WI(at[0]) : WSKIP,
        WS("F2"), WS("C2"), WS("bb"), WI(4), WN, WN, WI(512), at[1] ? WI(at[1]) : WSKIP, WS("F3"), WS("C1"), WS("c"), WI(tail ? 0 : 3), WN, WN, WI(512), at[2] ? WI(at[2]) : WSKIP };
    CHECK(w_table(db->table_file, "SELECT `File`, `Component_`, `FileName`, `FileSize`, `Version`, `Language`, `Attributes`, `Sequence` FROM `File`", 3, 8, fr), "each file is one row, numbered as in the cabinet");
    Wv hr[18]; int n = 0; for (int k = 0; k < 3; k++) if (at[k] && !(k == 0 && ver)) { gint h[4]; md5(&w_files[k], h); hr[n++] = WS(ID[k]); hr[n++] = WI(0); for (int j = 0; j < 4; j++) hr[n++] = WI(h[j]); }
    CHECK(w_table(db->table_file_hash, "SELECT `File_`, `Options`, `HashPart1`, `HashPart2`, `HashPart3`, `HashPart4` FROM `MsiFileHash`", n / 6, 6, hr), "an installed file without a version has its hash");
    Wv mr[4] = { WI(1), WI(packed), WS(!tmpl && prompt ? "CD" : ""), WS(tmpl ? (emb == 1 ? "#cab1.cab" : "cab1.cab") : emb == 1 ? hcab : cab) };
    CHECK(w_table(db->table_media, "SELECT `DiskId`, `LastSequence`, `DiskPrompt`, `Cabinet` FROM `Media`", 1, 4, mr), "the medium's row");
    LibmsiDatabase *m = w_store(db->table_streams); LibmsiQuery *q = q_new(m, "SELECT `Name`, `Data` FROM `_Streams`"); CHECK(q_exec(q, NULL), "a valid query executes");
    LibmsiRecord *r = libmsi_query_fetch(q, &e); CHECK((r != NULL) == (emb == 1), "the cabinet is in the package exactly if it is embedded");
    if (r) {
        uint8_t got[4]; gchar *nm = libmsi_record_get_string(r, 1); CHECK(!strcmp(nm, tmpl ? "cab1.cab" : cab), "the cabinet has the medium's name"); GInputStream *s = libmsi_record_get_stream(r, 2);
        CHECK(s && g_input_stream_read(s, got, 4, NULL, NULL) == 2 && got[0] == 'c' && got[1] == '1', "the embedded cabinet is the one that was made"); WITNESS("embedded");
    }
    WITNESS("packed"); WITNESS_IF(packed == 3 && in1 == 2, "in two features");
}
void h_bad(void)
{
    xmlNode *root, *p = w_product(&root), *d, *c; int kind = sym_choose(4), key = sym_bool(), reg = sym_bool(); const char *comp = kind == 1 ? "F9" : kind == 2 ? "F2" : NULL;
    d = el(p, "Directory", "Id", "TARGETDIR", "Name", "SourceDir", NULL); c = el(d, "Component", "Id", "C1", "Guid", "aaaaaaaa-0000-0000-0000-000000000001", NULL);
    w_file("a", "x", 1); if (kind != 0) w_file("b", "y", 1);
    if (reg) el(c, "RegistryValue", "Id", "R1", "Root", "HKLM", "Key", "K", "Type", "string", "Value", "v", NULL);
    el(c, "File", "Id", "F1", "Name", "a", "CompanionFile", comp, "KeyPath", key ? "yes" : NULL, NULL); el(c, "File", "Id", "F2", "Name", "b", NULL);
    el(p, "Media", "Id", "1", "Cabinet", "x.cab", "EmbedCab", "yes", NULL); if (sym_bool()) el(el(p, "Feature", "Id", "FA", NULL), "ComponentRef", "Id", "C1", NULL);
    WixlMsiDatabase *db = w_build(root, 0, 0);
    int bad = kind == 0 || kind == 1 || (kind == 2 && (key || !reg));
    CHECK(!db == bad, "a missing file and a companion that is missing or a key path are errors, nothing else");
    WITNESS_IF(bad && kind == 2, "companion is a key path"); WITNESS_IF(!bad && kind == 2, "companion");
}
