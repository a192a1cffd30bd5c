// Each row wixl records is written to the columns of its table which the format documents for it.
//@ run h_ui engine=msym lib=all,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="10 tables of the user interface: 2 rows each, any positive integers, all optional values given, none, or all but one: created, filled and read back by column name"
//@ run h_pkg engine=msym lib=all,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="10 tables of files, features and directories: 2 rows each, any positive integers, all optional values given, none, or all but one: created, filled and read back by column name"
//@ run h_sys engine=msym lib=all,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="9 tables of registry, services, INI files, searches and custom actions: 2 rows each, any positive integers, all optional values given, none, or all but one: created, filled and read back by column name"
//@ run h_other engine=msym lib=all,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="Media with any two-digit disk, Shortcut with its setters, the sequence set on a File, the successor set on a Control"
//@ assume the C which valac makes of the Vala sources is what is built; the texts are fixed and different ones; Icon and Binary (files) and the filling of the rows by the builder are outside
#include "db.h"
#include "wixl/msi.c"
static const char *s[16] = { "k0", "b1", "c2", "d3", "e4", "f5", "g6", "h7", "i8", "j9", "k10", "l11", "m12", "n13" };
static const char *o[16]; static int v[16], *p[16];
/* one symbolic value per integer argument; one choice, which of the optional ones are given: all, none, or all but one */
static void values(const char *kinds)
{
    int n = 0, opt = 0, which;
    for (n = 0; kinds[n]; n++) opt += strchr("oILB", kinds[n]) != NULL;
    which = opt ? sym_choose(opt + 2) : 0; opt = 0;
    for (int i = 0; i < n; i++) {
        int given = 1; char k = kinds[i];
        if (strchr("oILB", k)) { given = which == 0 ? 1 : which == 1 ? 0 : opt != which - 2; opt++; }
        o[i] = given ? s[i] : NULL;
        if (strchr("il", k) || strchr("ILB", k)) { v[i] = k == 'B' ? sym_bool() : strchr("iI", k) ? sym_u16() : (int)sym_u32(); if (k != 'B') ASSUME(v[i] > 0 && (strchr("lL", k) || v[i] < 32768)); p[i] = given ? &v[i] : NULL; }
    }
}
static void stored(WixlMsiTable *t, const char *sql, int nc, const Cell *want)
{
    GError *e = NULL; LibmsiDatabase *db = db_create("t.msi"); wixl_msi_table_create(t, db, &e); CHECK(!e, "the table is created and filled");
    CHECK(rows_are_set(db, sql, NULL, 2, nc, want), "the rows hold what was given, in the columns documented for it"); WITNESS("stored");
    g_object_unref(db);
}
static void t_check_box(void)
{
    WixlMsiTableCheckBox *t = wixl_msi_table_check_box_new(); GError *e = NULL;
    Cell want[4]; values("so");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_check_box_add(t, s[0], o[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = o[1] ? c_str(o[1]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Property`, `Value` FROM `CheckBox`", 2, want);
}
static void t_event_mapping(void)
{
    WixlMsiTableEventMapping *t = wixl_msi_table_event_mapping_new(); GError *e = NULL;
    Cell want[8]; values("ssss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_event_mapping_add(t, s[0], s[1], s[2], s[3], &e); CHECK(!e, "a row is taken");
        want[r * 4 + 0] = c_str(s[0]);
        want[r * 4 + 1] = c_str(s[1]);
        want[r * 4 + 2] = c_str(s[2]);
        want[r * 4 + 3] = c_str(s[3]);
    }
    stored((WixlMsiTable *)t, "SELECT `Dialog_`, `Control_`, `Event`, `Attribute` FROM `EventMapping`", 4, want);
}
static void t_control(void)
{
    WixlMsiTableControl *t = wixl_msi_table_control_new(); GError *e = NULL;
    Cell want[22]; values("sssiiiilosno");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_control_add(t, s[0], s[1], s[2], v[3], v[4], v[5], v[6], v[7], o[8], s[9], NULL, o[11], &e); CHECK(!e, "a row is taken");
        want[r * 11 + 0] = c_str(s[0]);
        want[r * 11 + 1] = c_str(s[1]);
        want[r * 11 + 2] = c_str(s[2]);
        want[r * 11 + 3] = c_int(v[3]);
        want[r * 11 + 4] = c_int(v[4]);
        want[r * 11 + 5] = c_int(v[5]);
        want[r * 11 + 6] = c_int(v[6]);
        want[r * 11 + 7] = c_int(v[7]);
        want[r * 11 + 8] = o[8] ? c_str(o[8]) : c_null();
        want[r * 11 + 9] = c_str(s[9]);
        want[r * 11 + 10] = o[11] ? c_str(o[11]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Dialog_`, `Control`, `Type`, `X`, `Y`, `Width`, `Height`, `Attributes`, `Property`, `Text`, `Help` FROM `Control`", 11, want);
}
static void t_ui_text(void)
{
    WixlMsiTableUIText *t = wixl_msi_table_ui_text_new(); GError *e = NULL;
    Cell want[4]; values("so");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_ui_text_add(t, s[0], o[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = o[1] ? c_str(o[1]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Key`, `Text` FROM `UIText`", 2, want);
}
static void t_text_style(void)
{
    WixlMsiTableTextStyle *t = wixl_msi_table_text_style_new(); GError *e = NULL;
    Cell want[10]; values("ssiLi");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_text_style_add(t, s[0], s[1], v[2], p[3], v[4], &e); CHECK(!e, "a row is taken");
        want[r * 5 + 0] = c_str(s[0]);
        want[r * 5 + 1] = c_str(s[1]);
        want[r * 5 + 2] = c_int(v[2]);
        want[r * 5 + 3] = p[3] ? c_int(*p[3]) : c_null();
        want[r * 5 + 4] = c_int(v[4]);
    }
    stored((WixlMsiTable *)t, "SELECT `TextStyle`, `FaceName`, `Size`, `Color`, `StyleBits` FROM `TextStyle`", 5, want);
}
static void t_dialog(void)
{
    WixlMsiTableDialog *t = wixl_msi_table_dialog_new(); GError *e = NULL;
    Cell want[20]; values("siiiilosoo");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_dialog_add(t, s[0], v[1], v[2], v[3], v[4], v[5], o[6], s[7], o[8], o[9], &e); CHECK(!e, "a row is taken");
        want[r * 10 + 0] = c_str(s[0]);
        want[r * 10 + 1] = c_int(v[1]);
        want[r * 10 + 2] = c_int(v[2]);
        want[r * 10 + 3] = c_int(v[3]);
        want[r * 10 + 4] = c_int(v[4]);
        want[r * 10 + 5] = c_int(v[5]);
        want[r * 10 + 6] = o[6] ? c_str(o[6]) : c_null();
        want[r * 10 + 7] = c_str(s[7]);
        want[r * 10 + 8] = o[8] ? c_str(o[8]) : c_null();
        want[r * 10 + 9] = o[9] ? c_str(o[9]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Dialog`, `HCentering`, `VCentering`, `Width`, `Height`, `Attributes`, `Title`, `Control_First`, `Control_Default`, `Control_Cancel` FROM `Dialog`", 10, want);
}
static void t_control_event(void)
{
    WixlMsiTableControlEvent *t = wixl_msi_table_control_event_new(); GError *e = NULL;
    Cell want[12]; values("ssssoI");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_control_event_add(t, s[0], s[1], s[2], s[3], o[4], p[5], &e); CHECK(!e, "a row is taken");
        want[r * 6 + 0] = c_str(s[0]);
        want[r * 6 + 1] = c_str(s[1]);
        want[r * 6 + 2] = c_str(s[2]);
        want[r * 6 + 3] = c_str(s[3]);
        want[r * 6 + 4] = o[4] ? c_str(o[4]) : c_null();
        want[r * 6 + 5] = p[5] ? c_int(*p[5]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Dialog_`, `Control_`, `Event`, `Argument`, `Condition`, `Ordering` FROM `ControlEvent`", 6, want);
}
static void t_control_condition(void)
{
    WixlMsiTableControlCondition *t = wixl_msi_table_control_condition_new(); GError *e = NULL;
    Cell want[8]; values("ssss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_control_condition_add(t, s[0], s[1], s[2], s[3], &e); CHECK(!e, "a row is taken");
        want[r * 4 + 0] = c_str(s[0]);
        want[r * 4 + 1] = c_str(s[1]);
        want[r * 4 + 2] = c_str(s[2]);
        want[r * 4 + 3] = c_str(s[3]);
    }
    stored((WixlMsiTable *)t, "SELECT `Dialog_`, `Control_`, `Action`, `Condition` FROM `ControlCondition`", 4, want);
}
static void t_radio_button(void)
{
    WixlMsiTableRadioButton *t = wixl_msi_table_radio_button_new(); GError *e = NULL;
    Cell want[18]; values("sisiiiioo");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_radio_button_add(t, s[0], v[1], s[2], v[3], v[4], v[5], v[6], o[7], o[8], &e); CHECK(!e, "a row is taken");
        want[r * 9 + 0] = c_str(s[0]);
        want[r * 9 + 1] = c_int(v[1]);
        want[r * 9 + 2] = c_str(s[2]);
        want[r * 9 + 3] = c_int(v[3]);
        want[r * 9 + 4] = c_int(v[4]);
        want[r * 9 + 5] = c_int(v[5]);
        want[r * 9 + 6] = c_int(v[6]);
        want[r * 9 + 7] = o[7] ? c_str(o[7]) : c_null();
        want[r * 9 + 8] = o[8] ? c_str(o[8]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Property`, `Order`, `Value`, `X`, `Y`, `Width`, `Height`, `Text`, `Help` FROM `RadioButton`", 9, want);
}
static void t_action_text(void)
{
    WixlMsiTableActionText *t = wixl_msi_table_action_text_new(); GError *e = NULL;
    Cell want[6]; values("soo");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_action_text_add(t, s[0], o[1], o[2], &e); CHECK(!e, "a row is taken");
        want[r * 3 + 0] = c_str(s[0]);
        want[r * 3 + 1] = o[1] ? c_str(o[1]) : c_null();
        want[r * 3 + 2] = o[2] ? c_str(o[2]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Action`, `Description`, `Template` FROM `ActionText`", 3, want);
}
static void t_file_hash(void)
{
    WixlMsiTableFileHash *t = wixl_msi_table_file_hash_new(); GError *e = NULL;
    Cell want[12]; values("slllli");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_file_hash_add(t, s[0], v[1], v[2], v[3], v[4], p[5], &e); CHECK(!e, "a row is taken");
        want[r * 6 + 0] = c_str(s[0]);
        want[r * 6 + 1] = c_int(v[1]);
        want[r * 6 + 2] = c_int(v[2]);
        want[r * 6 + 3] = c_int(v[3]);
        want[r * 6 + 4] = c_int(v[4]);
        want[r * 6 + 5] = c_int(v[5]);
    }
    stored((WixlMsiTable *)t, "SELECT `File_`, `HashPart1`, `HashPart2`, `HashPart3`, `HashPart4`, `Options` FROM `MsiFileHash`", 6, want);
}
static void t_file(void)
{
    WixlMsiTableFile *t = wixl_msi_table_file_new(); GError *e = NULL;
    Cell want[14]; values("sssliol");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_file_add(t, s[0], s[1], s[2], v[3], v[4], o[5], v[6], &e); CHECK(!e, "a row is taken");
        want[r * 7 + 0] = c_str(s[0]);
        want[r * 7 + 1] = c_str(s[1]);
        want[r * 7 + 2] = c_str(s[2]);
        want[r * 7 + 3] = c_int(v[3]);
        want[r * 7 + 4] = c_int(v[4]);
        want[r * 7 + 5] = o[5] ? c_str(o[5]) : c_null();
        want[r * 7 + 6] = c_int(v[6]);
    }
    stored((WixlMsiTable *)t, "SELECT `File`, `Component_`, `FileName`, `FileSize`, `Attributes`, `Version`, `Sequence` FROM `File`", 7, want);
}
static void t_upgrade(void)
{
    WixlMsiTableUpgrade *t = wixl_msi_table_upgrade_new(); GError *e = NULL;
    Cell want[10]; values("sosls");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_upgrade_add(t, s[0], o[1], s[2], v[3], s[4], &e); CHECK(!e, "a row is taken");
        want[r * 5 + 0] = c_str(s[0]);
        want[r * 5 + 1] = o[1] ? c_str(o[1]) : c_null();
        want[r * 5 + 2] = c_str(s[2]);
        want[r * 5 + 3] = c_int(v[3]);
        want[r * 5 + 4] = c_str(s[4]);
    }
    stored((WixlMsiTable *)t, "SELECT `UpgradeCode`, `VersionMin`, `VersionMax`, `Attributes`, `ActionProperty` FROM `Upgrade`", 5, want);
}
static void t_launch_condition(void)
{
    WixlMsiTableLaunchCondition *t = wixl_msi_table_launch_condition_new(); GError *e = NULL;
    Cell want[4]; values("ss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_launch_condition_add(t, s[0], s[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = c_str(s[1]);
    }
    stored((WixlMsiTable *)t, "SELECT `Condition`, `Description` FROM `LaunchCondition`", 2, want);
}
static void t_property(void)
{
    WixlMsiTableProperty *t = wixl_msi_table_property_new(); GError *e = NULL;
    Cell want[4]; values("ss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_property_add(t, s[0], s[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = c_str(s[1]);
    }
    stored((WixlMsiTable *)t, "SELECT `Property`, `Value` FROM `Property`", 2, want);
}
static void t_directory(void)
{
    WixlMsiTableDirectory *t = wixl_msi_table_directory_new(); GError *e = NULL;
    Cell want[6]; values("sos");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_directory_add(t, s[0], o[1], s[2], &e); CHECK(!e, "a row is taken");
        want[r * 3 + 0] = c_str(s[0]);
        want[r * 3 + 1] = o[1] ? c_str(o[1]) : c_null();
        want[r * 3 + 2] = c_str(s[2]);
    }
    stored((WixlMsiTable *)t, "SELECT `Directory`, `Directory_Parent`, `DefaultDir` FROM `Directory`", 3, want);
}
static void t_component(void)
{
    WixlMsiTableComponent *t = wixl_msi_table_component_new(); GError *e = NULL;
    Cell want[10]; values("sosio");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_component_add(t, s[0], o[1], s[2], v[3], o[4], &e); CHECK(!e, "a row is taken");
        want[r * 5 + 0] = c_str(s[0]);
        want[r * 5 + 1] = o[1] ? c_str(o[1]) : c_null();
        want[r * 5 + 2] = c_str(s[2]);
        want[r * 5 + 3] = c_int(v[3]);
        want[r * 5 + 4] = o[4] ? c_str(o[4]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Component`, `ComponentId`, `Directory_`, `Attributes`, `KeyPath` FROM `Component`", 5, want);
}
static void t_feature_components(void)
{
    WixlMsiTableFeatureComponents *t = wixl_msi_table_feature_components_new(); GError *e = NULL;
    Cell want[4]; values("ss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_feature_components_add(t, s[0], s[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = c_str(s[1]);
    }
    stored((WixlMsiTable *)t, "SELECT `Feature_`, `Component_` FROM `FeatureComponents`", 2, want);
}
static void t_create_folder(void)
{
    WixlMsiTableCreateFolder *t = wixl_msi_table_create_folder_new(); GError *e = NULL;
    Cell want[4]; values("ss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_create_folder_add(t, s[0], s[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = c_str(s[1]);
    }
    stored((WixlMsiTable *)t, "SELECT `Directory_`, `Component_` FROM `CreateFolder`", 2, want);
}
static void t_feature(void)
{
    WixlMsiTableFeature *t = wixl_msi_table_feature_new(); GError *e = NULL;
    Cell want[16]; values("siiioooo");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_feature_add(t, s[0], v[1], v[2], v[3], o[4], o[5], o[6], o[7], &e); CHECK(!e, "a row is taken");
        want[r * 8 + 0] = c_str(s[0]);
        want[r * 8 + 1] = c_int(v[1]);
        want[r * 8 + 2] = c_int(v[2]);
        want[r * 8 + 3] = c_int(v[3]);
        want[r * 8 + 4] = o[4] ? c_str(o[4]) : c_null();
        want[r * 8 + 5] = o[5] ? c_str(o[5]) : c_null();
        want[r * 8 + 6] = o[6] ? c_str(o[6]) : c_null();
        want[r * 8 + 7] = o[7] ? c_str(o[7]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Feature`, `Display`, `Level`, `Attributes`, `Feature_Parent`, `Title`, `Description`, `Directory_` FROM `Feature`", 8, want);
}
static void t_registry(void)
{
    WixlMsiTableRegistry *t = wixl_msi_table_registry_new(); GError *e = NULL;
    Cell want[12]; values("sissoo");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_registry_add(t, s[0], v[1], s[2], s[3], o[4], o[5], &e); CHECK(!e, "a row is taken");
        want[r * 6 + 0] = c_str(s[0]);
        want[r * 6 + 1] = c_int(v[1]);
        want[r * 6 + 2] = c_str(s[2]);
        want[r * 6 + 3] = c_str(s[3]);
        want[r * 6 + 4] = o[4] ? c_str(o[4]) : c_null();
        want[r * 6 + 5] = o[5] ? c_str(o[5]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Registry`, `Root`, `Key`, `Component_`, `Name`, `Value` FROM `Registry`", 6, want);
}
static void t_remove_file(void)
{
    WixlMsiTableRemoveFile *t = wixl_msi_table_remove_file_new(); GError *e = NULL;
    Cell want[8]; values("sssi");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_remove_file_add(t, s[0], s[1], s[2], v[3], &e); CHECK(!e, "a row is taken");
        want[r * 4 + 0] = c_str(s[0]);
        want[r * 4 + 1] = c_str(s[1]);
        want[r * 4 + 2] = c_str(s[2]);
        want[r * 4 + 3] = c_int(v[3]);
    }
    stored((WixlMsiTable *)t, "SELECT `FileKey`, `Component_`, `DirProperty`, `InstallMode` FROM `RemoveFile`", 4, want);
}
static void t_service_control(void)
{
    WixlMsiTableServiceControl *t = wixl_msi_table_service_control_new(); GError *e = NULL;
    Cell want[12]; values("ssioBs");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_service_control_add(t, s[0], s[1], v[2], o[3], p[4], s[5], &e); CHECK(!e, "a row is taken");
        want[r * 6 + 0] = c_str(s[0]);
        want[r * 6 + 1] = c_str(s[1]);
        want[r * 6 + 2] = c_int(v[2]);
        want[r * 6 + 3] = o[3] ? c_str(o[3]) : c_null();
        want[r * 6 + 4] = p[4] ? c_int(*p[4]) : c_null();
        want[r * 6 + 5] = c_str(s[5]);
    }
    stored((WixlMsiTable *)t, "SELECT `ServiceControl`, `Name`, `Event`, `Arguments`, `Wait`, `Component_` FROM `ServiceControl`", 6, want);
}
static void t_service_install(void)
{
    WixlMsiTableServiceInstall *t = wixl_msi_table_service_install_new(); GError *e = NULL;
    Cell want[26]; values("ssollloossoso");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_service_install_add(t, s[0], s[1], o[2], v[3], v[4], v[5], o[6], o[7], s[8], s[9], o[10], s[11], o[12], &e); CHECK(!e, "a row is taken");
        want[r * 13 + 0] = c_str(s[0]);
        want[r * 13 + 1] = c_str(s[1]);
        want[r * 13 + 2] = o[2] ? c_str(o[2]) : c_null();
        want[r * 13 + 3] = c_int(v[3]);
        want[r * 13 + 4] = c_int(v[4]);
        want[r * 13 + 5] = c_int(v[5]);
        want[r * 13 + 6] = o[6] ? c_str(o[6]) : c_null();
        want[r * 13 + 7] = o[7] ? c_str(o[7]) : c_null();
        want[r * 13 + 8] = c_str(s[8]);
        want[r * 13 + 9] = c_str(s[9]);
        want[r * 13 + 10] = o[10] ? c_str(o[10]) : c_null();
        want[r * 13 + 11] = c_str(s[11]);
        want[r * 13 + 12] = o[12] ? c_str(o[12]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `ServiceInstall`, `Name`, `DisplayName`, `ServiceType`, `StartType`, `ErrorControl`, `LoadOrderGroup`, `Dependencies`, `StartName`, `Password`, `Arguments`, `Component_`, `Description` FROM `ServiceInstall`", 13, want);
}
static void t_app_search(void)
{
    WixlMsiTableAppSearch *t = wixl_msi_table_app_search_new(); GError *e = NULL;
    Cell want[4]; values("ss");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_app_search_add(t, s[0], s[1], &e); CHECK(!e, "a row is taken");
        want[r * 2 + 0] = c_str(s[0]);
        want[r * 2 + 1] = c_str(s[1]);
    }
    stored((WixlMsiTable *)t, "SELECT `Property`, `Signature_` FROM `AppSearch`", 2, want);
}
static void t_custom_action(void)
{
    WixlMsiTableCustomAction *t = wixl_msi_table_custom_action_new(); GError *e = NULL;
    Cell want[10]; values("sissL");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_custom_action_add(t, s[0], v[1], s[2], s[3], p[4], &e); CHECK(!e, "a row is taken");
        want[r * 5 + 0] = c_str(s[0]);
        want[r * 5 + 1] = c_int(v[1]);
        want[r * 5 + 2] = c_str(s[2]);
        want[r * 5 + 3] = c_str(s[3]);
        want[r * 5 + 4] = p[4] ? c_int(*p[4]) : c_null();
    }
    stored((WixlMsiTable *)t, "SELECT `Action`, `Type`, `Source`, `Target`, `ExtendedType` FROM `CustomAction`", 5, want);
}
static void t_reg_locator(void)
{
    WixlMsiTableRegLocator *t = wixl_msi_table_reg_locator_new(); GError *e = NULL;
    Cell want[10]; values("sissi");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_reg_locator_add(t, s[0], v[1], s[2], s[3], v[4], &e); CHECK(!e, "a row is taken");
        want[r * 5 + 0] = c_str(s[0]);
        want[r * 5 + 1] = c_int(v[1]);
        want[r * 5 + 2] = c_str(s[2]);
        want[r * 5 + 3] = c_str(s[3]);
        want[r * 5 + 4] = c_int(v[4]);
    }
    stored((WixlMsiTable *)t, "SELECT `Signature_`, `Root`, `Key`, `Name`, `Type` FROM `RegLocator`", 5, want);
}
static void t_ini_file(void)
{
    WixlMsiTableIniFile *t = wixl_msi_table_ini_file_new(); GError *e = NULL;
    Cell want[16]; values("ssssssis");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_ini_file_add(t, s[0], s[1], s[2], s[3], s[4], s[5], v[6], s[7], &e); CHECK(!e, "a row is taken");
        want[r * 8 + 0] = c_str(s[0]);
        want[r * 8 + 1] = c_str(s[1]);
        want[r * 8 + 2] = c_str(s[2]);
        want[r * 8 + 3] = c_str(s[3]);
        want[r * 8 + 4] = c_str(s[4]);
        want[r * 8 + 5] = c_str(s[5]);
        want[r * 8 + 6] = c_int(v[6]);
        want[r * 8 + 7] = c_str(s[7]);
    }
    stored((WixlMsiTable *)t, "SELECT `IniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_` FROM `IniFile`", 8, want);
}
static void t_remove_ini_file(void)
{
    WixlMsiTableRemoveIniFile *t = wixl_msi_table_remove_ini_file_new(); GError *e = NULL;
    Cell want[16]; values("sssssois");
    for (int r = 0; r < 2; r++) {
        s[0] = r ? "k1" : "k0"; wixl_msi_table_remove_ini_file_add(t, s[0], s[1], s[2], s[3], s[4], o[5], v[6], s[7], &e); CHECK(!e, "a row is taken");
        want[r * 8 + 0] = c_str(s[0]);
        want[r * 8 + 1] = c_str(s[1]);
        want[r * 8 + 2] = c_str(s[2]);
        want[r * 8 + 3] = c_str(s[3]);
        want[r * 8 + 4] = c_str(s[4]);
        want[r * 8 + 5] = o[5] ? c_str(o[5]) : c_null();
        want[r * 8 + 6] = c_int(v[6]);
        want[r * 8 + 7] = c_str(s[7]);
    }
    stored((WixlMsiTable *)t, "SELECT `RemoveIniFile`, `FileName`, `DirProperty`, `Section`, `Key`, `Value`, `Action`, `Component_` FROM `RemoveIniFile`", 8, want);
}
void h_ui(void) { static void (*const f[])(void) = { t_check_box, t_event_mapping, t_control, t_ui_text, t_text_style, t_dialog, t_control_event, t_control_condition, t_radio_button, t_action_text }; f[sym_choose(10)](); }
void h_pkg(void) { static void (*const f[])(void) = { t_file_hash, t_file, t_upgrade, t_launch_condition, t_property, t_directory, t_component, t_feature_components, t_create_folder, t_feature }; f[sym_choose(10)](); }
void h_sys(void) { static void (*const f[])(void) = { t_registry, t_remove_file, t_service_control, t_service_install, t_app_search, t_custom_action, t_reg_locator, t_ini_file, t_remove_ini_file }; f[sym_choose(9)](); }
void h_other(void)
{
    GError *e = NULL; int which = sym_choose(3), n = sym_u16(); ASSUME(n > 0 && n < 32768); LibmsiRecord *r; Cell w[12];
    if (which == 0) {
        WixlMsiTableMedia *t = wixl_msi_table_media_new(); char id[3]; id[0] = sym_u8(); id[1] = sym_u8(); id[2] = 0; ASSUME(id[0] >= '1' && id[0] <= '9' && id[1] >= '0' && id[1] <= '9'); int disk = (id[0] - '0') * 10 + id[1] - '0';
        const char *prompt = sym_bool() ? "prompt" : NULL; r = wixl_msi_table_media_add(t, id, prompt, "cab", &e); CHECK(!e && wixl_msi_table_media_set_last_sequence(t, r, n), "a row is taken");
        LibmsiDatabase *db = db_create("t.msi"); wixl_msi_table_create((WixlMsiTable *)t, db, &e); CHECK(!e, "the table is created and filled");
        w[0] = c_int(disk); w[1] = c_int(n); w[2] = prompt ? c_str(prompt) : c_null(); w[3] = c_str("cab"); w[4] = c_null(); w[5] = c_null();
        CHECK(rows_are(db, "SELECT `DiskId`, `LastSequence`, `DiskPrompt`, `Cabinet`, `VolumeLabel`, `Source` FROM `Media`", NULL, 1, 6, w), "the disk is described"); g_object_unref(db);
    } else if (which == 1) {
        WixlMsiTableShortcut *t = wixl_msi_table_shortcut_new(); int set = sym_choose(4); r = wixl_msi_table_shortcut_add(t, "sc", "dir", "name", "comp", &e); wixl_msi_table_shortcut_set_target(r, "target", &e);
        if (set & 1) { wixl_msi_table_shortcut_set_icon(r, "icon", &e); wixl_msi_table_shortcut_set_icon_index(r, n, &e); wixl_msi_table_shortcut_set_working_dir(r, "wkdir", &e); }
        if (set & 2) { wixl_msi_table_shortcut_set_description(r, "desc", &e); wixl_msi_table_shortcut_set_arguments(r, "args", &e); }
        LibmsiDatabase *db = db_create("t.msi"); wixl_msi_table_create((WixlMsiTable *)t, db, &e); CHECK(!e, "the table is created and filled");
        w[0] = c_str("sc"); w[1] = c_str("dir"); w[2] = c_str("name"); w[3] = c_str("comp"); w[4] = c_str("target"); w[5] = set & 2 ? c_str("args") : c_null(); w[6] = set & 2 ? c_str("desc") : c_null(); w[7] = c_null();
        w[8] = set & 1 ? c_str("icon") : c_null(); w[9] = set & 1 ? c_int(n) : c_null(); w[10] = c_null(); w[11] = set & 1 ? c_str("wkdir") : c_null();
        CHECK(rows_are(db, "SELECT `Shortcut`, `Directory_`, `Name`, `Component_`, `Target`, `Arguments`, `Description`, `Hotkey`, `Icon_`, `IconIndex`, `ShowCmd`, `WkDir` FROM `Shortcut`", NULL, 1, 12, w), "the shortcut is described"); g_object_unref(db);
    } else {
        WixlMsiTableFile *t = wixl_msi_table_file_new(); r = wixl_msi_table_file_add(t, "f", "c", "n", 7, 1, NULL, 1, &e); CHECK(!e && wixl_msi_table_file_set_sequence(r, n), "a row is taken");
        LibmsiDatabase *db = db_create("t.msi"); wixl_msi_table_create((WixlMsiTable *)t, db, &e); CHECK(!e, "the table is created and filled");
        w[0] = c_str("f"); w[1] = c_int(n); w[2] = c_int(7); w[3] = c_int(1); w[4] = c_null();
        CHECK(rows_are(db, "SELECT `File`, `Sequence`, `FileSize`, `Attributes`, `Version` FROM `File`", NULL, 1, 5, w), "the sequence of the file is set"); g_object_unref(db);
        WixlMsiTableControl *c = wixl_msi_table_control_new(); r = wixl_msi_table_control_add(c, "d", "ctl", "ty", 1, 2, 3, 4, 5, NULL, NULL, NULL, NULL, &e); CHECK(!e && wixl_msi_table_control_set_next_control(c, r, "next"), "a row is taken");
        db = db_create("u.msi"); wixl_msi_table_create((WixlMsiTable *)c, db, &e); CHECK(!e, "the table is created and filled");
        w[0] = c_str("ctl"); w[1] = c_str("next"); CHECK(rows_are(db, "SELECT `Control`, `Control_Next` FROM `Control`", NULL, 1, 2, w), "the next control is set"); g_object_unref(db);
    }
    WITNESS_IF(which == 0, "media"); WITNESS_IF(which == 1, "shortcut"); WITNESS_IF(which == 2, "file");
}
