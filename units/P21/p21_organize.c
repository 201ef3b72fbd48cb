//@ src display/help/help_organizer.c
//@ drop create_option_entry add_option_to_list find_or_create_group has_entries has_groups free_help_data
//@ desc organize_options: in a table of any length every visible option is listed once, under the group it stands in or in the general list, every positional and every visible subcommand once in its list, in order of definition, and no hidden one
//@ enforce organize_options
//@ fn organize_options 1
//@ loop 0
//@ assigns g_e; g_added; g_want; g_cur; g_looked; g_oom
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && ({i} == 0 || (g_e == {i} - 1 && (g_added == g_want || g_oom)))
//@ inv {l:const char *} == g_cur && ({l:group_info_t *} == (group_info_t *)0 || ({l:group_info_t *} == &g_grp && g_looked))
//@ dec g_n - {i}
//@ trust add_option_to_list: appends one entry for the option (discharged in p21_list); find_or_create_group: the group of that name (discharged in p21_group)
#include "p21.h"
int g_e, g_n, g_added, g_want, g_looked, g_oom; const char *g_cur; argus_option_t *G_t; help_data_t *G_d; group_info_t g_grp;
static int vis(int t, uint32_t f) { return t == TYPE_POSITIONAL || ((t == TYPE_OPTION || t == TYPE_SUBCOMMAND) && !(f & FLAG_HIDDEN)); }
static void next(int i) { g_e = i; g_added = g_oom = 0; g_want = 0; if (i < g_n) { VX_ASSUME(G_t[i].type != TYPE_NONE); g_want = vis(G_t[i].type, G_t[i].flags); if (G_t[i].type == TYPE_GROUP) { g_cur = G_t[i].name; g_looked = 0; } } }
void organize_options(const argus_option_t *options, help_data_t *data)
__CPROVER_assigns(g_e, g_added, g_want, g_cur, g_looked, g_oom);
#include "src0.c"
group_info_t *find_or_create_group(help_data_t *d, const char *name) { VX_ASSERT(d == G_d && name && name == g_cur, "the group the entry stands in"); if (nondet_bool()) { g_oom = 1; return 0; } g_looked = 1; return &g_grp; }
void add_option_to_list(option_entry_t **l, const argus_option_t *o) {
    VX_ASSERT(o == &G_t[g_e] && g_e < g_n && g_want && !g_added, "a visible entry, the one at hand, once"); g_added = 1; int t = o->type;
    if (t == TYPE_POSITIONAL) VX_ASSERT(l == &G_d->positionals, "a positional among the positionals");
    else if (t == TYPE_SUBCOMMAND) VX_ASSERT(l == &G_d->subcommands, "a subcommand among the subcommands");
    else if (g_cur) VX_ASSERT(l == &g_grp.options && g_looked, "an option under its group");
    else VX_ASSERT(l == &G_d->ungrouped, "an option outside of groups in the general list"); }
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; help_data_t d = {0}; G_d = &d; g_added = g_want = g_looked = g_oom = 0; g_cur = 0; g_e = 0;
    organize_options(t, &d);
    VX_ASSERT(t[g_e].type == TYPE_NONE, "up to the end of the table"); VX_ASSERT(!d.groups && !d.ungrouped && !d.positionals && !d.subcommands, "lists change through their functions only");
    if (g_e > 3 && g_cur && g_looked) VX_REACH("grouped"); if (g_e == 0) VX_REACH("empty");
}
