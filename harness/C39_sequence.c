// wixl schedules every action of a sequence table once, where its constraints put it.
//@ run h_orders engine=msym lib=all,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="2 custom actions, each After nothing, one of 3 standard actions or the other custom one, and Before nothing or one of these, every subset of the standard actions added by the builder, both walks of the hash tables: in every schedulable case each action recorded once, standard numbers and conditions kept, After and Before obeyed, every number one that Windows Installer runs"
//@ run h_numbers engine=msym lib=all,gen:wixl/msi-default.c,gen:wixl/util.c workers=7 timeout=300 covers="3 custom actions with any 16-bit numbers but ties, or one of the dialog numbers -1..-4 among them, a fourth without number After or Before one of them: numbers and conditions kept, order obeyed"
//@ assume the C which valac makes of the Vala sources is what is built; cyclic constraints are outside
#include "db.h"
#include "wixl/msi.c"
extern int model_hash_order;
#define ND 3
static const WixlMSIDefaultAction DE[ND] = { WIXL_MSI_DEFAULT_ACTION_AppSearch, WIXL_MSI_DEFAULT_ACTION_StopServices, WIXL_MSI_DEFAULT_ACTION_InstallExecute };
static const char *NAME[6] = { "AppSearch", "StopServices", "InstallExecute", "A1", "B2", "C3" };
static const char *COND[ND] = { NULL, "VersionNT", "NOT Installed" };
static const int SEQ[ND] = { 50, 1900, 6500 };
typedef WixlMsiTableSequenceAction Act;
static WixlMsiTableSequence *tab;
static Act *act(const char *n) { return wixl_msi_table_sequence_get_action(tab, n); }
static int found[6], seq[6];
static char cond[6][16];
static int collect(int n)
{
    int k = 0;
    for (GList *l = ((WixlMsiTable *)tab)->records; l; l = l->next, k++) {
        LibmsiRecord *r = l->data; gchar *s = libmsi_record_get_string(r, 1), *c = libmsi_record_get_string(r, 2); int i;
        for (i = 0; i < n; i++) if (!strcmp(s, NAME[i])) { found[i]++; seq[i] = libmsi_record_get_int(r, 3); strcpy(cond[i], c); }
        g_free(s); g_free(c);
    }
    return k;
}
static void tab_new(void)
{
#ifdef MSYM
    model_hash_order = sym_bool();
#else
    sym_bool();
#endif
    tab = (WixlMsiTableSequence *)wixl_msi_table_install_execute_sequence_new();
}
void h_orders(void)
{
    int after[2], before[2], used[5] = { 0, 0, 0, 1, 1 }, mask, less[5][5], n = 2; GError *e = NULL;
    memset(less, 0, sizeof less);
    for (int i = 0; i < 2; i++) { after[i] = sym_choose(5); before[i] = sym_choose(5); }
    mask = sym_choose(8); tab_new();
    for (int i = 0; i < 2; i++) {    /* 4: nothing; 3: the other one */
        int a = after[i] == 4 ? -1 : after[i] == 3 ? 4 - i : after[i], b = before[i] == 4 ? -1 : before[i] == 3 ? 4 - i : before[i];
        if (a >= 0) { used[a] = 1; less[a][3 + i] = 1; } if (b >= 0) { used[b] = 1; less[3 + i][b] = 1; }
        Act *x = act(NAME[3 + i]); x->condition = g_strdup(NAME[3 + i]);
        if (a >= 0) wixl_msi_table_sequence_action_add_dep(x, act(NAME[a]));
        if (b >= 0) wixl_msi_table_sequence_action_add_dep(act(NAME[b]), x);
    }
    for (int i = 0; i < ND; i++) if (mask >> i & 1) { used[i] = 1; wixl_msi_table_sequence_add_default_action(tab, DE[i]); }
    for (int i = 0; i < ND; i++) for (int j = i + 1; j < ND; j++) less[i][j] = used[i] && used[j];
    for (int k = 0; k < 5; k++) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) if (less[i][k] && less[k][j]) less[i][j] = 1;
    for (int i = 0; i < 5; i++) ASSUME(!less[i][i]);
    wixl_msi_table_sequence_add_sorted_actions(tab, &e); CHECK(!e, "the actions are sorted");
    for (int i = 0; i < ND; i++) n += used[i];
    CHECK(collect(5) == n, "as many records as actions");
    for (int i = 0; i < 5; i++) {
        CHECK(found[i] == used[i], "each action once"); if (!used[i]) continue;
        CHECK(!strcmp(cond[i], i < ND ? COND[i] ? COND[i] : "" : NAME[i]), "conditions are kept");
        if (i < ND) CHECK(seq[i] == SEQ[i], "standard actions keep their number"); else CHECK(seq[i] > 0, "numbers are positive");
        for (int j = 0; j < 5; j++) if (used[j] && less[i][j]) CHECK(seq[i] < seq[j], "After and Before are obeyed");
    }
    WITNESS_IF(mask == 7 && after[0] == 3 && after[1] == 1 && before[0] == 2, "a chain");
}
void h_numbers(void)
{
    int num[3], how, where; GError *e = NULL;
    for (int i = 0; i < 3; i++) { num[i] = (short)sym_u16(); ASSUME(num[i] != -999); for (int j = 0; j < i; j++) ASSUME(num[i] > num[j] + 1 || num[j] > num[i] + 1); ASSUME(num[i] >= -4 && num[i]); }
    tab_new(); how = sym_choose(3); where = sym_choose(3); ASSUME(num[where] > 0 && !(how == 1 && num[where] == 1));
    NAME[0] = "W4"; NAME[1] = "X"; NAME[2] = "Y";
    for (int i = 0; i < 3; i++) { Act *x = act(NAME[i]); x->sequence = num[i]; x->condition = g_strdup(NAME[i]); }
    Act *c = act(NAME[3]); if (how == 0) wixl_msi_table_sequence_action_add_dep(c, act(NAME[where])); if (how == 1) wixl_msi_table_sequence_action_add_dep(act(NAME[where]), c);
    wixl_msi_table_sequence_add_sorted_actions(tab, &e); CHECK(!e, "the actions are sorted");
    CHECK(collect(4) == 4, "as many records as actions");
    for (int i = 0; i < 3; i++) { CHECK(found[i] == 1 && seq[i] == num[i], "numbers are kept"); CHECK(!strcmp(cond[i], NAME[i]), "conditions are kept"); }
    CHECK(found[3] == 1 && seq[3] > 0 && !cond[3][0], "the fourth has a number that is run");
    if (how == 0) CHECK(seq[3] > num[where], "After is obeyed"); if (how == 1) CHECK(seq[3] < num[where], "Before is obeyed");
    WITNESS_IF(how == 1 && num[0] < 0, "dialog number"); WITNESS_IF(how == 0, "after");
}
