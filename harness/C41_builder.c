// wixl turns the elements of a source into the rows documented for them.
//@ run h_registry engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="RegistryValue on its own and inside RegistryKey (with and without a key and a root of its own): root, key, name, value prefix by type with any two value characters, component"
//@ run h_component engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="Component attributes, GUID and key path for every architecture, Win64, Permanent and Guid, with file and registry children either of which may be marked the key path"
//@ run h_control engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="ServiceControl: the events of every Start, Stop and Remove, waiting, up to two arguments with any character"
//@ run h_service engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="ServiceInstall: every type, start, error control, interactive, description and dependency list"
//@ run h_custom engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="CustomAction: the type of every kind of action with every Execute, Return and Impersonate"
//@ run h_features engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="Feature: attributes of every combination of options; display of two siblings under a parent; level, parent, title, directory; components by reference and by nested groups"
//@ run h_upgrade engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="MajorUpgrade judged by what an installer does with the rows for an older, the same and a newer installed version; UpgradeVersion attributes"
//@ run h_sequence engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="an action of each of the five sequence elements: a number, before or after another, on exit; its condition as attribute, text with blanks, or none"
//@ run h_misc engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="Property, launch condition, IniFile of every action, RemoveFolder, CreateFolder, RegistrySearch, file associations, shortcuts, directories, icons and binaries: their rows with a symbolic character"
//@ run h_summary engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="Product and Package attributes: the Property rows and the summary information for every architecture"
//@ run h_ui engine=msym lib=all,gen:wixl/msi.c,gen:wixl/wix.c,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="Dialog and Control with any two of their options, tab order of three controls, published events with their conditions and order, control conditions, subscriptions, radio buttons, text styles, texts"
#include "db.h"
GFile *w_file_new_for_path(const char *); GFile *w_file_get_child(GFile *, const char *); char *w_file_get_path(GFile *);
#define g_file_new_for_path w_file_new_for_path
#define g_file_get_child w_file_get_child
#define g_file_get_path w_file_get_path
static gboolean w_get_contents(const gchar *n, gchar **t, gsize *len, GError **e) { *t = g_strdup(""); return TRUE; }
#define g_file_get_contents w_get_contents
#include "wixl/builder.c"
#include "wixl_build.h"
static const char *ROOT[5] = { "HKCR", "HKCU", "HKLM", "HKU", "HKMU" };
static const int ROOTNO[5] = { 0, 1, 2, 3, -1 };
static const char *TYPE[4] = { "string", "integer", "binary", "expandable" }, *PRE[4] = { "", "#", "#x", "#%" };
static const char *yn(int k) { return k == 0 ? NULL : k == 1 ? "yes" : "no"; }
static xmlNode *dir(xmlNode *p) { return el(p, "Directory", "Id", "TARGETDIR", "Name", "SourceDir", NULL); }
static xmlNode *comp(xmlNode *d) { return el(d, "Component", "Id", "C1", "Guid", "aaaaaaaa-0000-0000-0000-000000000001", NULL); }
static WixlMsiDatabase *built(xmlNode *root) { WixlMsiDatabase *db = w_build(root, 0, 0); CHECK(db != NULL, "the package is built"); return db; }
void h_registry(void)
{
    xmlNode *root, *p = w_product(&root), *c, *k; int r = sym_choose(5), ty = sym_choose(4), nested = sym_bool(), own = sym_bool(), sub = nested ? sym_bool() : 1, kr = sym_choose(2); char v[4], want[8];
    v[0] = sym_u8(); v[1] = sym_u8(); v[2] = 0; ASSUME(v[0] > 0 && v[0] < 127 && v[1] > 0 && v[1] < 127);
    if (ty) ASSUME(v[0] != '#');
    c = comp(dir(p)); k = c;
    if (nested) k = el(c, "RegistryKey", "Root", own ? (kr ? "HKCU" : "HKLM") : ROOT[r], "Key", "Soft", NULL);
    el(k, "RegistryValue", "Id", "R1", "Root", nested && !own ? NULL : ROOT[r], "Key", sub ? "Sub" : NULL, "Name", kr ? "n" : NULL, "Type", TYPE[ty], "Value", v, NULL);
    el(c, "RegistryValue", "Root", "HKLM", "Key", "Two", "Type", "string", "Value", "x", NULL);
    WixlMsiDatabase *db = built(root);
    strcpy(want, ty == 0 && v[0] == '#' ? "#" : PRE[ty]); strcat(want, v);
    Wv rows[12] = { WS("R1"), WI(ROOTNO[r]), WS(!sub ? "Soft" : nested ? "Soft\\Sub" : "Sub"), WS(kr ? "n" : ""), WS(want), WS("C1"), WSKIP, WI(2), WS("Two"), WN, WS("x"), WS("C1") };
    CHECK(w_table(db->table_registry, "SELECT `Registry`, `Root`, `Key`, `Name`, `Value`, `Component_` FROM `Registry`", 2, 6, rows), "each registry value is one row");
    WITNESS("registry");
}
void h_component(void)
{
    static const WixlArch ARCH[3] = { WIXL_ARCH_X86, WIXL_ARCH_IA64, WIXL_ARCH_X64 };
    static const char *GUID[4] = { "aaaaaaaa-0000-0000-0000-00000000000f", "{AAAAAAAA-0000-0000-0000-00000000000F}", "", "*" };
    xmlNode *root, *p = w_product(&root), *c; int a = sym_choose(3), w64 = sym_choose(3), perm = sym_choose(3), g = sym_choose(4), order = sym_choose(4), k1 = order < 3 ? sym_choose(3) : 0, k2 = order < 2 ? sym_choose(3) : 0;
    w_file("a", "x", 1);
    c = el(dir(p), "Component", "Id", "C1", "Guid", GUID[g], "Win64", yn(w64), "Permanent", yn(perm), NULL);
    if (order == 0) { el(c, "File", "Id", "F1", "Name", "a", "KeyPath", yn(k1), NULL); el(c, "RegistryValue", "Id", "R1", "Root", "HKLM", "Key", "K", "Type", "string", "Value", "v", "KeyPath", yn(k2), NULL); }
    if (order == 1) { el(c, "RegistryValue", "Id", "R1", "Root", "HKLM", "Key", "K", "Type", "string", "Value", "v", "KeyPath", yn(k1), NULL); el(c, "File", "Id", "F1", "Name", "a", "KeyPath", yn(k2), NULL); }
    if (order == 2) el(c, "File", "Id", "F1", "Name", "a", "KeyPath", yn(k1), NULL);
    WixlMsiDatabase *db = w_build(root, ARCH[a], 0);
    if (k1 == 1 && k2 == 1) { CHECK(!db, "a component has one key path"); WITNESS_IF(1, "two keys"); return; }
    if (g == 3 && order == 3) { CHECK(!db, "a generated GUID needs a key path"); return; }
    CHECK(db != NULL, "the package is built");
    int key = order == 3 ? 0 : order == 2 ? 1 : (k2 == 1) ^ (order == 1) ? 2 : 1, at = (key == 2 ? 4 : 0) | (perm == 1 ? 16 : 0) | (w64 == 1 || (w64 == 0 && a != 0) ? 256 : 0);
    Wv row[5] = { WS("C1"), g == 2 ? WN : g == 3 ? WSKIP : WS(GUID[1]), WS("TARGETDIR"), WI(at), key ? WS(key == 2 ? "R1" : "F1") : WN };
    CHECK(w_table(db->table_component, "SELECT `Component`, `ComponentId`, `Directory_`, `Attributes`, `KeyPath` FROM `Component`", 1, 5, row), "the component's row");
    WITNESS("component"); WITNESS_IF(at == 276, "all three attributes");
}
void h_control(void)
{
    static const char *MODE[4] = { NULL, "install", "uninstall", "both" };
    xmlNode *root, *p = w_product(&root), *s; int st = sym_choose(4), sp = sym_choose(4), rm = sym_choose(4), wait = sym_choose(3), na = sym_choose(3); char v[2] = { 0 }, want[12];
    v[0] = sym_u8(); ASSUME(v[0] > 0 && v[0] < 127);
    s = el(comp(dir(p)), "ServiceControl", "Id", "S1", "Name", "svc", "Start", MODE[st], "Stop", MODE[sp], "Remove", MODE[rm], "Wait", yn(wait), NULL);
    if (st || sp || rm) ASSUME(v[0] == 'q');
    if (na > 0) w_text(el(s, "ServiceArgument", NULL), v);
    if (na > 1) w_text(el(s, "ServiceArgument", NULL), "b");
    if (sym_bool()) el(s->parent, "ServiceControl", "Id", "S2", "Name", "other", NULL);
    WixlMsiDatabase *db = built(root);
    int ev = (st & 1 ? 1 : 0) | (st & 2 ? 16 : 0) | (sp & 1 ? 2 : 0) | (sp & 2 ? 32 : 0) | (rm & 1 ? 8 : 0) | (rm & 2 ? 128 : 0);
    strcpy(want, na ? v : ""); if (na > 1) strcat(want, "[~]b");
    Wv row[12] = { WS("S1"), WS("svc"), WI(ev), WS(want), wait ? WI(wait == 1) : WN, WS("C1"), WS("S2"), WS("other"), WI(0), WN, WN, WS("C1") };
    CHECK(w_table(db->table_service_control, "SELECT `ServiceControl`, `Name`, `Event`, `Arguments`, `Wait`, `Component_` FROM `ServiceControl`", s->next ? 2 : 1, 6, row), "each service control is one row");
    WITNESS("control"); WITNESS_IF(na == 2 && s->next, "arguments do not leak into the next");
}
void h_service(void)
{
    static const char *TY[2] = { "ownProcess", "shareProcess" }, *ST[3] = { "auto", "demand", "disabled" }, *EC[3] = { "ignore", "normal", "critical" };
    xmlNode *root, *p = w_product(&root), *s; int ty = sym_choose(2), st = sym_choose(3), ec = sym_choose(3), in = sym_choose(3), er = sym_choose(3), de = sym_bool(), n = sym_choose(3), g = n ? sym_choose(3) : 0; char d[2] = { 0 }, want[24];
    d[0] = sym_u8(); ASSUME(d[0] > 0 && d[0] < 127);
    if (ty || st || ec || in || er || de) ASSUME(d[0] == 'q');   /* the text of the dependency has nothing to do with them */
    s = el(comp(dir(p)), "ServiceInstall", "Id", "S1", "Name", "svc", "DisplayName", "disp", "Type", TY[ty], "Start", ST[st], "ErrorControl", EC[ec], "Interactive", yn(in), "EraseDescription", yn(er), "Description", de ? "desc" : NULL,
        "Arguments", "args", "Account", "acc", "Password", "pw", "LoadOrderGroup", "grp", NULL);
    if (n > 0) el(s, "ServiceDependency", "Id", d, "Group", yn(g), NULL);
    if (n > 1) el(s, "ServiceDependency", "Id", "two", NULL);
    WixlMsiDatabase *db = built(root);
    want[0] = 0; if (n > 0) { strcat(want, g == 1 ? "+" : ""); strcat(want, d); strcat(want, "[~]"); } if (n > 1) strcat(want, "two[~]"); if (n) strcat(want, "[~]");
    static const int ECV[3] = { 0, 1, 3 };
    Wv row[13] = { WS("S1"), WS("svc"), WS("disp"), WI((ty ? 32 : 16) | (in == 1 ? 256 : 0)), WI(2 + st), WI(ECV[ec]), WS("grp"), WS(want), WS("acc"), WS("pw"), WS("args"), WS("C1"), WS(er == 1 ? "[~]" : de ? "desc" : "") };
    CHECK(w_table(db->table_service_install, "SELECT `ServiceInstall`, `Name`, `DisplayName`, `ServiceType`, `StartType`, `ErrorControl`, `LoadOrderGroup`, `Dependencies`, `StartName`, `Password`, `Arguments`, `Component_`, `Description` FROM `ServiceInstall`", 1, 13, row), "the service's row");
    WITNESS("service"); WITNESS_IF(n == 2 && g == 1, "a group and a service");
}
void h_custom(void)
{
    static const char *EX[8] = { NULL, "immediate", "firstSequence", "oncePerProcess", "secondSequence", "deferred", "rollback", "commit" }, *RE[5] = { NULL, "check", "ignore", "asyncWait", "asyncNoWait" };
    static const int EXV[8] = { 0, 0, 0x100, 0x200, 0x300, 0x400, 0x500, 0x600 }, REV[5] = { 0, 0, 0x40, 0x80, 0xC0 }, KV[5] = { 1, 5, 50, 18, 51 };
    static const char *SRC[5] = { "B", "B", "P", "F1", "P" };
    xmlNode *root, *p = w_product(&root); int k = sym_choose(5), ex = sym_choose(8), re = sym_choose(5), im = sym_choose(3); char v[2] = { 0 };
    if (ex > 4) ASSUME(im != 0);        /* what wixl takes for a missing Impersonate is its own choice */
    v[0] = sym_u8(); ASSUME(v[0] > 0 && v[0] < 127); w_file("a", "x", 1);
    el(comp(dir(p)), "File", "Id", "F1", "Name", "a", NULL); el(p, "Binary", "Id", "B", "SourceFile", "a", NULL);
    el(p, "CustomAction", "Id", "A1", "Execute", EX[ex], "Return", RE[re], "Impersonate", yn(im), "BinaryKey", k < 2 ? "B" : NULL, "DllEntry", k == 0 ? v : NULL, "JScriptCall", k == 1 ? v : NULL,
        "ExeCommand", k == 2 || k == 3 ? v : NULL, "FileKey", k == 3 ? "F1" : NULL, "Property", k == 2 || k == 4 ? "P" : NULL, "Value", k == 4 ? v : NULL, NULL);
    WixlMsiDatabase *db = built(root);
    Wv row[5] = { WS("A1"), WI(KV[k] | EXV[ex] | REV[re] | (ex > 4 && im == 2 ? 0x800 : 0)), WS(SRC[k]), WS(v), WN };
    CHECK(w_table(db->table_custom_action, "SELECT `Action`, `Type`, `Source`, `Target`, `ExtendedType` FROM `CustomAction`", 1, 5, row), "the custom action's row");
    WITNESS("custom action");
}
static int i_of(LibmsiDatabase *db, const char *sql)
{ LibmsiQuery *q = q_new(db, sql); GError *e = NULL; CHECK(q_exec(q, NULL), "a valid query executes"); LibmsiRecord *r = libmsi_query_fetch(q, &e); CHECK(r && !e, "the row is there"); int v = libmsi_record_get_int(r, 1); g_object_unref(r); g_object_unref(q); return v; }
void h_features(void)
{
    static const char *ID[4] = { NULL, "local", "source", "followParent" }, *AD[4] = { NULL, "no", "system", "yes" }, *TD[3] = { NULL, "advertise", "install" }, *AB[3] = { NULL, "allow", "disallow" }, *DI[7] = { NULL, "hidden", "expand", "collapse", "1", "2", "7" };
    int part = sym_choose(3), id = 0, ad = 0, td = 0, ab = 0, d[3] = { 0, 0, 0 }, twice = 0, opt = 0;
    xmlNode *root, *p = w_product(&root), *f1, *f2, *f3, *g, *dd; xmlNode *fr = el(root, "Fragment", NULL);
    if (part == 0) { id = sym_choose(4); ad = sym_choose(4); td = sym_choose(3); ab = sym_choose(3); }
    if (part == 1) for (int i = 0; i < 3; i++) d[i] = sym_choose(i ? 7 : 4);
    if (part == 2) { twice = sym_choose(3); opt = sym_bool(); }
    f1 = el(p, "Feature", "Id", "F1", "Display", DI[d[0]], "Level", opt ? "3" : NULL, "Title", opt ? "t" : NULL, "Description", opt ? "d" : NULL, "ConfigurableDirectory", opt ? "TARGETDIR" : NULL, "InstallDefault", ID[id], "AllowAdvertise", AD[ad], "TypicalDefault", TD[td], "Absent", AB[ab], NULL);
    f2 = el(f1, "Feature", "Id", "F2", "Display", DI[d[1]], NULL); f3 = el(f1, "Feature", "Id", "F3", "Display", DI[d[2]], NULL);
    el(f1, "ComponentRef", "Id", "C1", NULL); el(f2, "ComponentGroupRef", "Id", "G1", NULL);
    if (twice == 1) el(f2, "ComponentRef", "Id", "C1", NULL);
    if (twice == 2) el(f3, "ComponentRef", "Id", "C2", NULL);
    dd = dir(p); comp(dd);
    g = el(fr, "ComponentGroup", "Id", "G1", "Directory", "TARGETDIR", NULL); el(g, "Component", "Id", "C2", "Guid", "aaaaaaaa-0000-0000-0000-000000000002", NULL); el(g, "ComponentGroupRef", "Id", "G2", NULL);
    g = el(fr, "ComponentGroup", "Id", "G2", "Directory", "TARGETDIR", NULL); el(g, "ComponentRef", "Id", "C1", NULL); el(g, "ComponentRef", "Id", "C2", NULL);
    WixlMsiDatabase *db = w_build(root, 0, 0);
    if (ad == 1 && td == 1) { CHECK(!db, "a feature that disallows advertising cannot favour it"); WITNESS_IF(1, "contradiction"); return; }
    CHECK(db != NULL, "the package is built");
    int at = (id == 2 ? 1 : id == 3 ? 2 : 0) | (td == 1 ? 4 : 0) | (ad == 1 ? 8 : ad == 2 ? 32 : 0) | (ab == 2 ? 16 : 0);
    Wv row[21] = { WS("F1"), WN, WS(opt ? "t" : ""), WS(opt ? "d" : ""), WI(opt ? 3 : 1), WS(opt ? "TARGETDIR" : ""), WI(at), WS("F2"), WS("F1"), WN, WN, WI(1), WN, WI(0), WS("F3"), WS("F1"), WN, WN, WI(1), WN, WI(0) };
    LibmsiDatabase *m = w_store(db->table_feature);
    CHECK(w_rows(m, "SELECT `Feature`, `Feature_Parent`, `Title`, `Description`, `Level`, `Directory_`, `Attributes` FROM `Feature`", 3, 7, row), "each feature is one row");
    static const char *SEL[3] = { "SELECT `Display` FROM `Feature` WHERE `Feature`='F1'", "SELECT `Display` FROM `Feature` WHERE `Feature`='F2'", "SELECT `Display` FROM `Feature` WHERE `Feature`='F3'" };
    int v[3]; for (int i = 0; i < 3; i++) {
        v[i] = i_of(m, SEL[i]);
        CHECK(d[i] == 1 ? v[i] == 0 : d[i] == 2 ? v[i] > 0 && (v[i] & 1) : d[i] == 0 || d[i] == 3 ? v[i] > 0 && !(v[i] & 1) : v[i] == (d[i] == 6 ? 7 : d[i] - 3), "hidden is 0, expanded odd, collapsed even, a number itself");
    }
    if (d[1] != 1 && (d[2] == 0 || d[2] == 2 || d[2] == 3)) { CHECK(v[2] > v[1], "siblings are shown in their order"); WITNESS_IF(d[1] == 6, "after a number"); }
    Wv pair[10] = { WS("F1"), WS("C1"), WS("F2"), WS("C1"), WS("F2"), WS("C2"), WS("F3"), WS("C2") };
    CHECK(w_table(db->table_feature_components, "SELECT `Feature_`, `Component_` FROM `FeatureComponents`", twice == 2 ? 4 : 3, 2, pair), "a feature has each component it refers to, once");
    WITNESS("features");
}
static char *s_at(LibmsiRecord *r, unsigned f) { return libmsi_record_is_null(r, f) ? NULL : libmsi_record_get_string(r, f); }
void h_upgrade(void)
{
    xmlNode *root, *p = w_product(&root), *u; int kind = sym_choose(2), down = sym_choose(3), same = sym_choose(3), msg = sym_bool(); GError *e = NULL;
    if (kind == 0) {
        el(p, "MajorUpgrade", "AllowDowngrades", yn(down), "AllowSameVersionUpgrades", yn(same), "DowngradeErrorMessage", msg ? "no way" : NULL, NULL);
        WixlMsiDatabase *db = built(root); LibmsiDatabase *m = w_store(db->table_upgrade); char *prop = NULL, *secure[4]; int nsec = 0, removed[3] = { 0 }, seen[3] = { 0 };
        LibmsiQuery *q = q_new(m, "SELECT `UpgradeCode`, `VersionMin`, `VersionMax`, `Attributes`, `ActionProperty` FROM `Upgrade`"); LibmsiRecord *r;
        CHECK(q_exec(q, NULL), "a valid query executes");
        while ((r = libmsi_query_fetch(q, &e))) {
            char *code = s_at(r, 1), *lo = s_at(r, 2), *hi = s_at(r, 3), *pr = s_at(r, 5); int a = libmsi_record_get_int(r, 4);
            CHECK(!strcmp(code, "{11111111-2222-3333-4444-555555555555}"), "the upgrade code is the product's");
            secure[nsec++] = pr;
            for (int i = 0; i < 3; i++) {
                char v[4] = { '1' + i, '.', '0', 0 }; int cl = lo ? strcmp(v, lo) : 1, ch = hi ? strcmp(v, hi) : -1;
                if ((cl > 0 || (cl == 0 && (a & 256))) && (ch < 0 || (ch == 0 && (a & 512)))) { seen[i] = 1; if (!(a & 2)) removed[i] = 1; if (i == 2) prop = pr; }
            }
            g_object_unref(r);
        }
        CHECK(!e, "the end of the rows is not an error");
        CHECK(removed[0], "an older version is removed");
        CHECK(removed[1] == (same == 1), "the same version is removed exactly if asked");
        CHECK(seen[2] && removed[2] == (down == 1), "a newer version is detected, and removed exactly if downgrades are allowed");
        char cond[64]; strcpy(cond, "NOT "); strcat(cond, prop); Wv lc[2] = { WS(cond), WS("no way") };
        CHECK(w_table(db->table_launch_condition, "SELECT `Condition`, `Description` FROM `LaunchCondition`", msg && down != 1, 2, lc), "a newer version stops the installation with the message");
        LibmsiDatabase *pm = w_store(db->table_property); q = q_new(pm, "SELECT `Value` FROM `Property` WHERE `Property`='SecureCustomProperties'"); CHECK(q_exec(q, NULL), "a valid query executes");
        r = libmsi_query_fetch(q, &e); CHECK(r != NULL, "the properties are secure"); char sv[128]; strcpy(sv, ";"); strcat(sv, s_at(r, 1)); strcat(sv, ";");
        for (int i = 0; i < nsec; i++) { char w[64]; strcpy(w, ";"); strcat(w, secure[i]); strcat(w, ";"); CHECK(strstr(sv, w) != NULL, "the properties are secure"); }
        LibmsiDatabase *sm = w_store(db->table_install_execute_sequence);
        CHECK(i_of(sm, "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='RemoveExistingProducts'") > i_of(sm, "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='InstallValidate'"), "the products are removed after the validation");
        CHECK(i_of(sm, "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='FindRelatedProducts'") > 0, "related products are looked for");
        WITNESS("major upgrade");
    } else {
        int mi = sym_choose(3), ma = sym_choose(3), lo = sym_bool(), hi = sym_bool();
        u = el(p, "Upgrade", "Id", "aaaaaaaa-2222-3333-4444-555555555555", NULL);
        el(u, "UpgradeVersion", "Minimum", lo ? "1.0" : NULL, "Maximum", hi ? "3.0" : NULL, "IncludeMinimum", yn(mi), "IncludeMaximum", yn(ma), "MigrateFeatures", yn(down), "OnlyDetect", yn(same), "Property", "OLD", NULL);
        WixlMsiDatabase *db = w_build(root, 0, 0);
        if (!lo && !hi) { CHECK(!db, "a version range has a bound"); return; }
        CHECK(db != NULL, "the package is built");
        Wv row[5] = { WS("{AAAAAAAA-2222-3333-4444-555555555555}"), WS(lo ? "1.0" : ""), WS(hi ? "3.0" : ""), WI((down == 1 ? 1 : 0) | (same == 1 ? 2 : 0) | (mi != 2 ? 256 : 0) | (ma == 1 ? 512 : 0)), WS("OLD") };
        CHECK(w_table(db->table_upgrade, "SELECT `UpgradeCode`, `VersionMin`, `VersionMax`, `Attributes`, `ActionProperty` FROM `Upgrade`", 1, 5, row), "the upgrade's row");
        WITNESS("upgrade version");
    }
}

void h_sequence(void)
{
    static const char *EL[5] = { "InstallExecuteSequence", "InstallUISequence", "AdminExecuteSequence", "AdminUISequence", "AdvertiseExecuteSequence" };
    static const char *ALL[5] = { "SELECT `Condition`, `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='A1'", "SELECT `Condition`, `Sequence` FROM `InstallUISequence` WHERE `Action`='A1'", "SELECT `Condition`, `Sequence` FROM `AdminExecuteSequence` WHERE `Action`='A1'", "SELECT `Condition`, `Sequence` FROM `AdminUISequence` WHERE `Action`='A1'", "SELECT `Condition`, `Sequence` FROM `AdvtExecuteSequence` WHERE `Action`='A1'" };
    static const char *ONE[5] = { "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='CostFinalize'", "SELECT `Sequence` FROM `InstallUISequence` WHERE `Action`='CostFinalize'", "SELECT `Sequence` FROM `AdminExecuteSequence` WHERE `Action`='CostFinalize'", "SELECT `Sequence` FROM `AdminUISequence` WHERE `Action`='CostFinalize'", "SELECT `Sequence` FROM `AdvtExecuteSequence` WHERE `Action`='CostFinalize'" };
    static const char *EXIT[4] = { "success", "cancel", "error", "suspend" };
    xmlNode *root, *p = w_product(&root), *a; int s = sym_choose(5), how = sym_choose(7), co = sym_choose(3); char num[4] = "100", t[4] = " c ";
    num[0] = sym_u8(); num[1] = sym_u8(); num[2] = sym_u8(); ASSUME(num[0] > '0' && num[0] <= '9'); for (int i = 1; i < 3; i++) ASSUME(num[i] >= '0' && num[i] <= '9');
    t[1] = sym_u8(); ASSUME(t[1] > ' ' && t[1] < 127);
    el(p, "CustomAction", "Id", "A1", "Property", "P", "Value", "v", NULL);
    a = el(el(p, EL[s], NULL), "Custom", "Action", "A1", "Sequence", how == 0 ? num : NULL, "After", how == 1 ? "CostFinalize" : NULL, "Before", how == 2 ? "CostFinalize" : NULL, "OnExit", how > 2 ? EXIT[how - 3] : NULL, "Condition", co == 1 ? t : NULL, NULL);
    if (co == 2) w_text(a, t);
    WixlMsiDatabase *db = built(root);
    LibmsiDatabase *m = w_store(s == 0 ? (void *)db->table_install_execute_sequence : s == 1 ? (void *)db->table_install_ui_sequence : s == 2 ? (void *)db->table_admin_execute_sequence : s == 3 ? (void *)db->table_admin_ui_sequence : (void *)db->table_advt_execute_sequence);
    char c[2] = { t[1], 0 };
    Wv row[2] = { WS(co == 0 ? "" : co == 1 ? t : c), how == 0 ? WI((num[0] - '0') * 100 + (num[1] - '0') * 10 + num[2] - '0') : how > 2 ? WI(2 - how) : WSKIP };
    CHECK(w_rows(m, ALL[s], 1, 2, row), "the action is in the table of its sequence with its condition");
    if (how == 1 || how == 2) {
        LibmsiQuery *q = q_new(m, ALL[s]); GError *e = NULL; CHECK(q_exec(q, NULL), "a valid query executes"); LibmsiRecord *r = libmsi_query_fetch(q, &e); CHECK(r != NULL, "the row is there");
        int v = libmsi_record_get_int(r, 2), o = i_of(m, ONE[s]); CHECK(v > 0 && (how == 1 ? v > o : v < o), "it runs before or after the other"); WITNESS_IF(how == 2, "before");
    }
    WITNESS("sequence");
}
void h_misc(void)
{
    xmlNode *root, *p = w_product(&root), *d = dir(p), *c = comp(d), *k; int part = sym_choose(9); char v[3] = { 0 }; WixlMsiDatabase *db;
    v[0] = sym_u8(); v[1] = sym_u8(); ASSUME(v[0] > ' ' && v[0] < 127 && v[1] > ' ' && v[1] < 127);
    if (part == 0) {
        el(p, "Property", "Id", "PA", "Value", v, NULL); el(p, "Property", "Id", "PB", NULL); db = built(root);
        LibmsiDatabase *m = w_store(db->table_property); Wv row[1] = { WS(v) };
        CHECK(w_rows(m, "SELECT `Value` FROM `Property` WHERE `Property`='PA'", 1, 1, row), "the property's row"); CHECK(w_rows(m, "SELECT `Value` FROM `Property` WHERE `Property`='PB'", 0, 1, row), "a property without a value has no row");
    } else if (part == 1) {
        char t[6] = " \n"; strcat(t, v); strcat(t, " "); w_text(el(p, "Condition", "Message", "no", NULL), t); db = built(root);
        Wv row[2] = { WS(v), WS("no") }; CHECK(w_table(db->table_launch_condition, "SELECT `Condition`, `Description` FROM `LaunchCondition`", 1, 2, row), "the launch condition's row");
        CHECK(i_of(w_store(db->table_install_execute_sequence), "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='LaunchConditions'") > 0, "the conditions are tested");
    } else if (part == 2) {
        static const char *AC[5] = { "addLine", "createLine", "removeLine", "addTag", "removeTag" }; int a = sym_choose(5);
        el(c, "IniFile", "Id", "I1", "Action", AC[a], "Directory", "TARGETDIR", "Key", "k", "Name", "n.ini", "Section", v, "Value", "val", NULL); db = built(root);
        Wv row[8] = { WS("I1"), WS("n.ini"), WS("TARGETDIR"), WS(v), WS("k"), WS("val"), WI(a), WS("C1") }; int rem = a == 2 || a == 4;
        CHECK(w_table(db->table_ini_file, "SELECT `IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_` FROM `IniFile`", !rem, 8, row), "an added line or tag is in IniFile");
        CHECK(w_table(db->table_remove_ini_file, "SELECT `RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_` FROM `RemoveIniFile`", rem, 8, row), "a removed line or tag is in RemoveIniFile");
        CHECK(i_of(w_store(db->table_install_execute_sequence), rem ? "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='RemoveIniValues'" : "SELECT `Sequence` FROM `InstallExecuteSequence` WHERE `Action`='WriteIniValues'") > 0, "the installer acts on it");
    } else if (part == 3) {
        static const char *ON[3] = { "install", "uninstall", "both" }; int o = sym_choose(3), deep = sym_bool(); xmlNode *sub = el(d, "Directory", "Id", "SUB", "Name", v, NULL), *c2 = el(sub, "Component", "Id", "C2", "Guid", "aaaaaaaa-0000-0000-0000-000000000002", NULL);
        el(deep ? c2 : c, "RemoveFolder", "Id", "RF", "On", ON[o], NULL); el(deep ? c2 : c, "CreateFolder", NULL); db = built(root);
        Wv row[5] = { WS("RF"), WS(deep ? "C2" : "C1"), WN, WS(deep ? "SUB" : "TARGETDIR"), WI(o + 1) };
        CHECK(w_table(db->table_remove_file, "SELECT `FileKey`, `Component_`, `FileName`, `DirProperty`, `InstallMode` FROM `RemoveFile`", 1, 5, row), "the folder is removed when asked");
        Wv cf[2] = { WS(deep ? "SUB" : "TARGETDIR"), WS(deep ? "C2" : "C1") }; CHECK(w_table(db->table_create_folder, "SELECT `Directory_`, `Component_` FROM `CreateFolder`", 1, 2, cf), "the folder is created");
        Wv ds[6] = { WS("TARGETDIR"), WN, WS("SourceDir"), WS("SUB"), WS("TARGETDIR"), WS(v) }; CHECK(w_table(db->table_directory, "SELECT `Directory`, `Directory_Parent`, `DefaultDir` FROM `Directory`", 2, 3, ds), "each directory is one row under its parent");
    } else if (part == 4) {
        static const WixlArch ARCH[3] = { WIXL_ARCH_X86, WIXL_ARCH_IA64, WIXL_ARCH_X64 }; static const char *TY[3] = { "directory", "file", "raw" }; int a = sym_choose(3), r = sym_choose(4), t = sym_choose(3), w = sym_choose(3);
        k = el(p, "Property", "Id", "PA", NULL); el(k, "RegistrySearch", "Id", "RS", "Root", ROOT[r], "Key", v, "Name", "n", "Type", TY[t], "Win64", yn(w), NULL); db = w_build(root, ARCH[a], 0); CHECK(db != NULL, "the package is built");
        Wv row[5] = { WS("RS"), WI(r), WS(v), WS("n"), WI(t | (w == 1 || (w == 0 && a) ? 16 : 0)) }, as[2] = { WS("PA"), WS("RS") };
        CHECK(w_table(db->table_reg_locator, "SELECT `Signature_`, `Root`, `Key`, `Name`, `Type` FROM `RegLocator`", 1, 5, row), "the registry search's row"); CHECK(w_table(db->table_app_search, "SELECT `Property`, `Signature_` FROM `AppSearch`", 1, 2, as), "the property is searched");
    } else if (part == 5) {
        k = el(c, "ProgId", "Id", "Prog", "Description", v, NULL); k = el(k, "Extension", "Id", "ext", "ContentType", "t/x", NULL); el(k, "Verb", "Id", "open", "Command", "Open", "TargetFile", "F1", "Argument", "%1", NULL); el(k, "MIME", NULL);
        k->children->next->properties = NULL; w_attr(k->children->next, "ContentType", "t/x"); db = built(root);
        Wv rows[24] = { WI(0), WS("Prog"), WN, WS(v), WI(0), WS(".ext"), WS("Content Type"), WS("t/x"), WI(0), WS(".ext"), WN, WS("Prog"), WI(0), WS("Prog\\shell\\open"), WN, WS("Open"), WI(0), WS("Prog\\shell\\open\\command"), WN, WS("\"[#F1]\" %1"), WI(0), WS("MIME\\Database\\Content Type\\t/x"), WS("Extension"), WS(".ext") };
        CHECK(w_table(db->table_registry, "SELECT `Root`, `Key`, `Name`, `Value` FROM `Registry`", 6, 4, rows), "a file association is written to the registry");
    } else if (part == 6) {
        int infile = sym_bool(), target = sym_bool(), di = infile || sym_bool(), icon = sym_bool(); xmlNode *f; w_file("a", "x", 1);
        f = el(c, "File", "Id", "F1", "Name", "a", NULL); if (icon) el(p, "Icon", "Id", "IC", "SourceFile", "a", NULL);
        el(el(p, "Feature", "Id", "FE", NULL), "ComponentRef", "Id", "C1", NULL);
        el(infile ? f : c, "Shortcut", "Id", "SC", "Directory", di ? "MENU" : NULL, "Name", v, "Target", target ? "[#F1]" : NULL, "Icon", icon ? "IC" : NULL, "IconIndex", icon ? "3" : NULL, "WorkingDirectory", icon ? "WD" : NULL, "Arguments", icon ? "ar" : NULL, "Description", icon ? "de" : NULL, NULL);
        el(el(d, "Directory", "Id", "MENU", "Name", "m", NULL), "Directory", "Id", "WD", "Name", "w", NULL); db = built(root);
        Wv row[10] = { WS("SC"), WS(di ? "MENU" : "TARGETDIR"), WS(v), WS("C1"), WS(target ? "[#F1]" : "FE"), WS(icon ? "ar" : ""), WS(icon ? "de" : ""), WS(icon ? "IC" : ""), icon ? WI(3) : WN, WS(icon ? "WD" : "") };
        CHECK(w_table(db->table_shortcut, "SELECT `Shortcut`, `Directory_`, `Name`, `Component_`, `Target`, `Arguments`, `Description`, `Icon_`, `IconIndex`, `WkDir` FROM `Shortcut`", 1, 10, row), "the shortcut's row");
        WITNESS_IF(!infile && !di, "in the component's directory");
    } else if (part == 7) {
        xmlNode *fr = el(root, "Fragment", NULL), *r = el(fr, "DirectoryRef", "Id", "TARGETDIR", NULL), *s = el(r, "Directory", "Id", "SUB", "Name", v, NULL); el(s, "Component", "Id", "C2", "Guid", "aaaaaaaa-0000-0000-0000-000000000002", NULL); el(s, "Directory", "Id", "SUB2", NULL); db = built(root);
        Wv ds[9] = { WS("TARGETDIR"), WN, WS("SourceDir"), WS("SUB"), WS("TARGETDIR"), WS(v), WS("SUB2"), WS("SUB"), WS(".") }; CHECK(w_table(db->table_directory, "SELECT `Directory`, `Directory_Parent`, `DefaultDir` FROM `Directory`", 3, 3, ds), "directories of a fragment are under the one it refers to");
        Wv cs[4] = { WS("C1"), WS("TARGETDIR"), WS("C2"), WS("SUB") }; CHECK(w_table(db->table_component, "SELECT `Component`, `Directory_` FROM `Component`", 2, 2, cs), "a component is in its directory");
    } else {
        w_file("a", v, 2); el(p, "Icon", "Id", "IC", "SourceFile", "a", NULL); el(p, "Binary", "Id", "BI", "SourceFile", "a", NULL); db = built(root);
        LibmsiDatabase *m = w_store(db->table_binary); LibmsiQuery *q = q_new(m, "SELECT `Name`, `Data` FROM `Binary`"); GError *e = NULL; uint8_t b[4]; CHECK(q_exec(q, NULL), "a valid query executes"); LibmsiRecord *r = libmsi_query_fetch(q, &e); CHECK(r && !e, "the binary's row");
        GInputStream *in = libmsi_record_get_stream(r, 2); CHECK(in != NULL, "a binary has its data"); CHECK(g_input_stream_read(in, b, 4, NULL, NULL) == 2 && b[0] == v[0] && b[1] == v[1], "a binary is its file's bytes");
        Wv row[1] = { WS("IC") }; CHECK(w_table(db->table_icon, "SELECT `Name` FROM `Icon`", 1, 1, row), "the icon's row");
    }
    WITNESS("misc");
}
void wixl_msi_summary_info_save(WixlMsiSummaryInfo *, LibmsiDatabase *, GError **);
static int same_s(LibmsiSummaryInfo *si, LibmsiProperty pr, const char *s) { GError *e = NULL; const gchar *v = (const gchar *)libmsi_summary_info_get_string(si, pr, &e); return v && !strcmp(v, s); }
void h_summary(void)
{
    static const WixlArch ARCH[3] = { WIXL_ARCH_X86, WIXL_ARCH_IA64, WIXL_ARCH_X64 }; static const char *TE[3] = { "Intel;1033", "Intel64;1033", "x64;1033" };
    xmlNode *root = el(NULL, "Wix", NULL), *p; int a = sym_choose(3), cp = sym_bool(), co = sym_bool(), de = sym_bool(), ke = sym_bool(), ve = sym_bool(), sc = sym_choose(3), br = sym_bool(); char v[3] = { 0 };
    v[0] = sym_u8(); v[1] = sym_u8(); ASSUME(v[0] > ' ' && v[0] < 127 && v[1] > ' ' && v[1] < 127);
    p = el(root, "Product", "Id", "aaaaaaaa-1111-3333-4444-555555555555", "Name", v, "Version", "1.2.3", "Manufacturer", "Man", "Language", "1033", "Codepage", cp ? "932" : NULL, "UpgradeCode", br ? "{11111111-2222-3333-4444-555555555555}" : "11111111-2222-3333-4444-555555555555", NULL);
    el(p, "Package", "Comments", co ? "com" : NULL, "Description", de ? "des" : NULL, "Keywords", ke ? "key" : NULL, "InstallerVersion", ve ? "405" : NULL, "InstallScope", sc == 0 ? NULL : sc == 1 ? "perUser" : "perMachine", NULL);
    WixlMsiDatabase *db = w_build(root, ARCH[a], 0); CHECK(db != NULL, "the package is built");
    Wv rows[14] = { WS("Manufacturer"), WS("Man"), WS("ProductLanguage"), WS("1033"), WS("ProductCode"), WS("{AAAAAAAA-1111-3333-4444-555555555555}"), WS("ProductName"), WS(v), WS("ProductVersion"), WS("1.2.3"), WS("UpgradeCode"), WS("{11111111-2222-3333-4444-555555555555}"), WS("ALLUSERS"), WS("1") };
    CHECK(w_table(db->table_property, "SELECT `Property`, `Value` FROM `Property`", sc == 2 ? 7 : 6, 2, rows), "the product's properties");
    GError *e = NULL; LibmsiDatabase *m = db_create("s.msi"); wixl_msi_summary_info_save(db->info, m, &e); CHECK(!e, "the summary is stored");
    LibmsiSummaryInfo *si = libmsi_summary_info_new(m, 0, &e); CHECK(si && !e, "the summary can be read");
    CHECK(libmsi_summary_info_get_int(si, LIBMSI_PROPERTY_CODEPAGE, &e) == (cp ? 932 : 1252), "the code page");
    CHECK(same_s(si, LIBMSI_PROPERTY_AUTHOR, "Man"), "the author is the manufacturer"); CHECK(same_s(si, LIBMSI_PROPERTY_SUBJECT, de ? "des" : v), "the subject is the description or the name");
    if (co) CHECK(same_s(si, LIBMSI_PROPERTY_COMMENTS, "com"), "the comments"); if (ke) CHECK(same_s(si, LIBMSI_PROPERTY_KEYWORDS, "key"), "the keywords");
    CHECK(same_s(si, LIBMSI_PROPERTY_TEMPLATE, TE[a]), "the template names the platform"); CHECK(libmsi_summary_info_get_int(si, LIBMSI_PROPERTY_VERSION, &e) == (ve ? 405 : a ? 200 : 100), "the installer version");
    CHECK(libmsi_summary_info_get_int(si, LIBMSI_PROPERTY_SOURCE, &e) == (sc == 1 ? 10 : 2), "compressed, and without elevation exactly for the user alone"); CHECK(!e, "the properties are there");
    WITNESS("summary");
}

typedef struct { const char *a, *v; int bit; } Opt;
static int opts(xmlNode *n, const Opt *o, int cnt, int *at)
{ int i = sym_choose(cnt + 1), j = sym_choose(cnt + 1); if (j > i || (i < cnt && j == i)) { ASSUME(0); }
  int k[2] = { i, j }; for (int x = 0; x < 2; x++) if (k[x] < cnt) { w_attr(n, o[k[x]].a, o[k[x]].v); *at ^= o[k[x]].bit; } return i < cnt; }
void h_ui(void)
{
    static const Opt DO[10] = { { "Hidden", "yes", 1 }, { "Modeless", "yes", 2 }, { "NoMinimize", "yes", 4 }, { "KeepModeless", "yes", 16 }, { "TrackDiskSpace", "yes", 32 }, { "CustomPalette", "yes", 64 }, { "RightToLeft", "yes", 128 }, { "RightAligned", "yes", 256 }, { "LeftScroll", "yes", 512 }, { "ErrorDialog", "yes", 65536 } };
    static const Opt CO[14] = { { "Disabled", "yes", 2 }, { "Hidden", "yes", 1 }, { "Sunken", "yes", 4 }, { "Indirect", "yes", 8 }, { "Icon", "yes", 0x80000 }, { "NoPrefix", "yes", 0x20000 }, { "Transparent", "yes", 0x10000 }, { "FixedSize", "yes", 0x100000 }, { "ElevationShield", "yes", 0x800000 }, { "IconSize", "16", 0x200000 }, { "Disabled", "no", 0 }, { "Sunken", "no", 0 }, { "Hidden", "no", 0 }, { "Transparent", "no", 0 } };
    static const char *CT[3] = { "PushButton", "Text", "CheckBox" };
    xmlNode *root, *p = w_product(&root), *ui, *dl, *c[3], *x; int part = sym_choose(6), at = 7; char v[2] = { 0 }, t[4] = " ? "; WixlMsiDatabase *db;
    v[0] = sym_u8(); ASSUME(v[0] > ' ' && v[0] < 127); t[1] = v[0];
    dir(p); ui = el(el(root, "Fragment", NULL), "UI", "Id", "U", NULL);
    dl = el(ui, "Dialog", "Id", "D1", "Width", "370", "Height", "270", "Title", part == 0 ? v : NULL, NULL); if (part == 0 && opts(dl, DO, 10, &at)) ASSUME(v[0] == 'q');
    int def = part == 0 ? sym_choose(3) : 0, can = part == 0 ? sym_choose(3) : 0, ty[3] = { 0, 0, 0 }, skip[3] = { 0, 0, 0 };
    if (part == 1) ty[0] = sym_choose(2);
    if (part == 2) for (int i = 0; i < 3; i++) { ty[i] = sym_choose(3); skip[i] = sym_choose(3); if (skip[i]) ASSUME(v[0] == 'q'); }
    for (int i = 0; i < 3; i++) c[i] = el(dl, "Control", "Id", i == 0 ? "A" : i == 1 ? "B" : "C", "Type", CT[ty[i]], "X", "1", "Y", "2", "Width", "3", "Height", "4", "Default", def == i + 1 ? "yes" : NULL, "Cancel", can == i + 1 ? "yes" : NULL, "TabSkip", yn(skip[i]), "Property", ty[i] == 2 ? (i == 0 ? "PA" : i == 1 ? "PB" : "PC") : NULL, "CheckBoxValue", ty[i] == 2 ? v : NULL, NULL);
    if (part == 0) {
        db = w_build(root, 0, 1); CHECK(db != NULL, "the package is built"); static const char *N[4] = { "", "A", "B", "C" };
        Wv row[10] = { WS("D1"), WI(50), WI(50), WI(370), WI(270), WI(at), WS(v), WS("A"), WS(N[def]), WS(N[can]) };
        CHECK(w_table(db->table_dialog, "SELECT `Dialog`, `HCentering`, `VCentering`, `Width`, `Height`, `Attributes`, `Title`, `Control_First`, `Control_Default`, `Control_Cancel` FROM `Dialog`", 1, 10, row), "the dialog's row");
    } else if (part == 1) {
        int ca = 3, tx = sym_choose(3); if (opts(c[0], CO, 14, &ca)) ASSUME(v[0] == 'q'); if (tx == 1) w_attr(c[0], "Text", v); if (tx == 2) w_text(el(c[0], "Text", NULL), t); w_attr(c[0], "Property", "P");
        db = w_build(root, 0, 1); CHECK(db != NULL, "the package is built");
        Wv row[30] = { WS("D1"), WS("A"), WS(CT[ty[0]]), WI(1), WI(2), WI(3), WI(4), ca ? WI(ca) : WSKIP, WS("P"), WS(tx ? v : ""), WS("D1"), WS("B"), WS(CT[0]), WI(1), WI(2), WI(3), WI(4), WI(3), WN, WN, WS("D1"), WS("C"), WS(CT[0]), WI(1), WI(2), WI(3), WI(4), WI(3), WN, WN };
        CHECK(w_table(db->table_control, "SELECT `Dialog_`, `Control`, `Type`, `X`, `Y`, `Width`, `Height`, `Attributes`, `Property`, `Text` FROM `Control`", 3, 10, row), "the control's row");
    } else if (part == 2) {
        db = w_build(root, 0, 1); CHECK(db != NULL, "the package is built"); static const char *N[3] = { "A", "B", "C" }; int tab[3], n = 0; Wv row[6], cb[6]; int nc = 0;
        for (int i = 0; i < 3; i++) if (ty[i] != 1 && skip[i] != 1) tab[n++] = i;
        for (int i = 0; i < 3; i++) { row[2 * i] = WS(N[i]); row[2 * i + 1] = WN; if (ty[i] == 2) { cb[nc++] = WS(i == 0 ? "PA" : i == 1 ? "PB" : "PC"); cb[nc++] = WS(v); } }
        for (int k = 0; k < n && n > 1; k++) row[2 * tab[k] + 1] = WS(N[tab[(k + 1) % n]]);
        CHECK(w_table(db->table_control, "SELECT `Control`, `Control_Next` FROM `Control`", 3, 2, row), "the tab order goes round the controls that take part"); WITNESS_IF(n == 2, "two in tab order");
        CHECK(w_table(db->table_check_box, "SELECT `Property`, `Value` FROM `CheckBox`", nc / 2, 2, cb), "a check box has its value");
    } else if (part == 3) {
        int prop = sym_bool(), val = sym_bool() || !prop, co = sym_choose(3), out = sym_bool(), ord = sym_choose(3); xmlNode *e1;
        e1 = el(out ? ui : c[0], "Publish", "Dialog", out ? "D1" : NULL, "Control", out ? "A" : NULL, "Property", prop ? "P" : NULL, "Event", prop ? NULL : "NewDialog", "Value", val ? v : NULL, "Condition", co == 1 ? v : NULL, "Order", ord > 0 ? "5" : NULL, NULL); if (co == 2) w_text(e1, t);
        el(out ? ui : c[0], "Publish", "Dialog", out ? "D1" : NULL, "Control", out ? "A" : NULL, "Event", "EndDialog", "Value", "Exit", "Order", ord == 2 ? "9" : NULL, NULL);
        db = w_build(root, 0, 1); CHECK(db != NULL, "the package is built"); LibmsiDatabase *m = w_store(db->table_control_event);
        Wv row[12] = { WS("D1"), WS("A"), WS(prop ? "[P]" : "NewDialog"), WS(val ? v : "{}"), WS(co ? v : "1"), ord ? WI(5) : WSKIP, WS("D1"), WS("A"), WS("EndDialog"), WS("Exit"), WS("1"), ord == 2 ? WI(9) : WSKIP };
        CHECK(w_rows(m, "SELECT `Dialog_`, `Control_`, `Event`, `Argument`, `Condition`, `Ordering` FROM `ControlEvent`", 2, 6, row), "each event is one row");
        int o1 = i_of(m, prop ? "SELECT `Ordering` FROM `ControlEvent` WHERE `Event`='[P]'" : "SELECT `Ordering` FROM `ControlEvent` WHERE `Event`='NewDialog'"), o2 = i_of(m, "SELECT `Ordering` FROM `ControlEvent` WHERE `Event`='EndDialog'");
        CHECK(o1 < o2, "events happen in the order they are written in"); WITNESS_IF(co == 2 && out, "condition as text");
    } else if (part == 4) {
        static const char *CA[5] = { "DefaultCondition", "DisableCondition", "EnableCondition", "HideCondition", "ShowCondition" }, *CN[5] = { "Default", "Disable", "Enable", "Hide", "Show" }; int i = sym_choose(5), j = sym_choose(5);
        w_attr(c[0], CA[i], v); w_attr(c[1], CA[j], "X"); el(c[0], "Subscribe", "Event", v, "Attribute", "Progress", NULL); db = w_build(root, 0, 1); CHECK(db != NULL, "the package is built");
        Wv row[8] = { WS("D1"), WS("A"), WS(CN[i]), WS(v), WS("D1"), WS("B"), WS(CN[j]), WS("X") }, sub[4] = { WS("D1"), WS("A"), WS(v), WS("Progress") };
        CHECK(w_table(db->table_control_condition, "SELECT `Dialog_`, `Control_`, `Action`, `Condition` FROM `ControlCondition`", 2, 4, row), "the control's conditions"); CHECK(w_table(db->table_event_mapping, "SELECT `Dialog_`, `Control_`, `Event`, `Attribute` FROM `EventMapping`", 1, 4, sub), "the control's subscription");
    } else {
        int bold = sym_choose(3), it = sym_choose(3), un = sym_choose(3), st = sym_choose(3), col = sym_choose(4);
        el(ui, "TextStyle", "Id", "T1", "FaceName", "Tahoma", "Size", "8", "Bold", yn(bold), "Italic", yn(it), "Underline", yn(un), "Strike", yn(st), "Red", col & 1 ? "200" : NULL, "Green", col & 2 ? "100" : NULL, "Blue", col ? "50" : NULL, NULL);
        el(ui, "UIText", "Id", "K", "Value", v, NULL); x = el(ui, "ProgressText", "Action", "Act", "Template", "tm", NULL); w_text(x, t);
        x = el(c[0], "RadioButtonGroup", "Property", "RP", NULL); el(x, "RadioButton", "Value", "v1", "X", "1", "Y", "2", "Width", "3", "Height", "4", "Text", v, NULL); el(x, "RadioButton", "Value", "v2", "X", "5", "Y", "6", "Width", "7", "Height", "8", "Text", "u", "Help", "h", NULL);
        db = w_build(root, 0, 1); CHECK(db != NULL, "the package is built"); int bits = (bold == 1) | (it == 1) << 1 | (un == 1) << 2 | (st == 1) << 3;
        LibmsiDatabase *m = w_store(db->table_text_style);
        Wv ts[5] = { WS("T1"), WS("Tahoma"), WI(8), col ? WI((col & 1 ? 200 : 0) + (col & 2 ? 100 * 256 : 0) + 50 * 65536) : WN, bits ? WI(bits) : WSKIP }, ut[2] = { WS("K"), WS(v) }, pt[3] = { WS("Act"), WS(v), WS("tm") };
        CHECK(w_rows(m, "SELECT `TextStyle`, `FaceName`, `Size`, `Color`, `StyleBits` FROM `TextStyle`", 1, 5, ts), "the text style's row"); CHECK(w_table(db->table_ui_text, "SELECT `Key`, `Text` FROM `UIText`", 1, 2, ut), "the text's row"); CHECK(w_table(db->table_action_text, "SELECT `Action`, `Description`, `Template` FROM `ActionText`", 1, 3, pt), "the progress text's row");
        Wv rb[18] = { WS("RP"), WI(1), WS("v1"), WI(1), WI(2), WI(3), WI(4), WS(v), WN, WS("RP"), WI(2), WS("v2"), WI(5), WI(6), WI(7), WI(8), WS("u"), WS("h") };
        CHECK(w_table(db->table_radio_button, "SELECT `Property`, `Order`, `Value`, `X`, `Y`, `Width`, `Height`, `Text`, `Help` FROM `RadioButton`", 2, 9, rb), "the radio buttons in their order");
    }
    WITNESS("ui");
}
