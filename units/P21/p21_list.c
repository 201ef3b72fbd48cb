//@ src display/help/help_organizer.c
//@ drop organize_options find_or_create_group has_entries has_groups free_help_data
//@ desc add_option_to_list (with create_option_entry): a new entry for the option becomes the last of a list of any length, whose other entries stay as they are; without memory the list stays as it is
//@ enforce add_option_to_list
//@ fn add_option_to_list 1
//@ loop 0
//@ assigns g_j; g_w.next
//@ hyp next()
//@ inv {l:option_entry_t *#1} == &g_w && g_j < g_cnt && g_w.option == g_wo
//@ dec g_cnt - g_j
//@ trust lists are walked through a window: one node object stands for the node at hand
#include "p21.h"
size_t g_j, g_cnt; option_entry_t g_w, *G_new; const argus_option_t *g_wo; int g_got;
static void next(void) { g_j++; g_w.next = g_j < g_cnt ? &g_w : 0; }
static void *vx_malloc(size_t n) { VX_ASSERT(n == sizeof(option_entry_t) && !g_got, "room for one entry"); if (nondet_bool()) return 0; g_got = 1; return G_new; }
#define malloc vx_malloc
void add_option_to_list(option_entry_t **list, const argus_option_t *option)
__CPROVER_assigns(*list, g_j, g_w.next, __CPROVER_object_whole(G_new), g_got);
#include "src0.c"
void harness(void) {
    option_entry_t e, *l; argus_option_t o; G_new = &e; g_j = 0; g_cnt = nondet_size(); g_got = 0; VX_ASSUME(g_cnt < 0xffffff); l = g_cnt ? &g_w : 0; g_wo = g_w.option; g_w.next = g_cnt > 1 ? &g_w : 0;
    add_option_to_list(&l, &o);
    VX_ASSERT(g_w.option == g_wo, "other entries keep their option");
    if (!g_got) { VX_ASSERT(l == (g_cnt ? &g_w : 0) && (g_j == 0 || g_j == g_cnt), "as it was"); VX_ASSERT(g_w.next != &e, "as it was"); VX_REACH("no memory"); }
    else { VX_ASSERT(e.option == &o && e.next == 0, "the entry of the option, the last"); if (g_cnt) { VX_ASSERT(l == &g_w && g_j == g_cnt && g_w.next == &e, "after the last entry"); if (g_cnt > 3) VX_REACH("many"); } else { VX_ASSERT(l == &e, "the first entry"); VX_REACH("first"); } }
}
