//@ src display/help/help_organizer.c
//@ drop organize_options create_option_entry add_option_to_list has_entries has_groups free_help_data
//@ desc find_or_create_group: the group of that name wherever it stands among any number of groups; else a new empty one of that name becomes the last; every other group stays as it is
//@ enforce find_or_create_group
//@ fn find_or_create_group 2
//@ loop 0
//@ assigns g_j; g_w.next; g_w.name; g_eq
//@ hyp ({l:group_info_t *#0} = g_j < g_cnt ? &g_w : 0), next()
//@ inv g_j <= g_cnt && {l:group_info_t *#0} == (g_j < g_cnt ? &g_w : (group_info_t *)0) && (g_k < g_j ==> !g_keq)
//@ dec g_cnt - g_j
//@ loop 1
//@ assigns g_m; g_w.next
//@ hyp ({l:group_info_t *#1} = &g_w), next2()
//@ inv {l:group_info_t *#1} == &g_w && g_m < g_cnt
//@ dec g_cnt - g_m
//@ trust lists are walked through a window: one node object stands for the node at hand; strcmp: equality of names is any relation
#include "p21.h"
size_t g_j, g_m, g_cnt, g_k; int g_eq, g_keq, g_got; group_info_t g_w, *G_new; const char *G_name; char g_nm[1]; option_entry_t *g_wo;
static void next(void) { if (g_j < g_cnt) { g_w.next = g_j + 1 < g_cnt ? &g_w : 0; g_w.name = g_nm; g_eq = nondet_bool() ? 1 : 0; if (g_j == g_k) g_eq = g_keq; } g_j++; }
static void next2(void) { g_m++; g_w.next = g_m < g_cnt ? &g_w : 0; }
static void *vx_malloc(size_t n) { VX_ASSERT(n == sizeof(group_info_t) && !g_got && g_j == g_cnt + 1, "room for one group, after all were compared"); if (nondet_bool()) return 0; g_got = 1; return G_new; }
int strcmp(const char *a, const char *b) { VX_MODEL((a == g_nm && b == G_name) || (a == G_name && b == g_nm), "the group's name with the name"); int r = nondet_int(); VX_ASSUME((r == 0) == (g_eq == 1)); return r; }
#define malloc vx_malloc
group_info_t *find_or_create_group(help_data_t *data, const char *name)
__CPROVER_assigns(data->groups, g_j, g_m, g_eq, g_w.next, g_w.name, __CPROVER_object_whole(G_new), g_got);
#include "src0.c"
void harness(void) {
    static char nm[1]; G_name = nm; group_info_t e; G_new = &e; g_j = g_m = 0; g_eq = g_got = 0; g_cnt = nondet_size(); VX_ASSUME(g_cnt < 0xffffff); g_k = nondet_size(); VX_ASSUME(g_k < g_cnt || g_cnt == 0); g_keq = nondet_bool() ? 1 : 0; if (!g_cnt) g_keq = 0; g_wo = g_w.options;
    help_data_t d; d.groups = g_cnt ? &g_w : 0; option_entry_t *u = d.ungrouped, *p = d.positionals, *s = d.subcommands;
    group_info_t *r = find_or_create_group(&d, nm);
    VX_ASSERT(g_w.options == g_wo && d.ungrouped == u && d.positionals == p && d.subcommands == s, "everything else stays");
    if (r == &g_w) { VX_ASSERT(!g_got && g_eq && d.groups == &g_w && g_j <= g_cnt, "a group of that name"); VX_ASSERT(!(g_k + 1 < g_j) || !g_keq, "the first"); if (g_j > 2) VX_REACH("found"); }
    else { VX_ASSERT(!g_keq, "none of the groups has the name"); if (!r) { VX_ASSERT(!g_got && d.groups == (g_cnt ? &g_w : 0), "no memory"); VX_REACH("no memory"); }
        else { VX_ASSERT(r == &e && g_got && e.name == nm && e.options == 0 && e.next == 0, "a new one without entries"); if (g_cnt) { VX_ASSERT(d.groups == &g_w && g_m == g_cnt && g_w.next == &e, "after the last"); if (g_cnt > 3) VX_REACH("appended"); } else { VX_ASSERT(d.groups == &e, "the first"); VX_REACH("first"); } } }
}
