//@ src display/help/help_organizer.c
//@ drop organize_options create_option_entry add_option_to_list find_or_create_group has_entries has_groups
//@ desc free_help_data: releases every entry of every group, every group and every entry of the three lists exactly once, in lists of any length, and touches none after its release
//@ enforce free_help_data
//@ fn free_help_data 5
//@ loop 0
//@ assigns g_j; g_m; g_f; g_mf; g_mc; g_w; g_g
//@ hyp ({l:group_info_t *#0} = g_j < g_c ? &g_g : 0), nextg()
//@ inv g_j <= g_c && {l:group_info_t *#0} == (g_j < g_c ? &g_g : (group_info_t *)0) && (g_j == 0 || (g_f == 1 && (g_mc == 0 || g_m == g_mc + 1)))
//@ dec g_c - g_j
//@ loop 1
//@ assigns g_m; g_mf; g_w
//@ hyp ({l:option_entry_t *#0} = g_m < g_mc ? &g_w : 0), nexte()
//@ inv g_m <= g_mc && {l:option_entry_t *#0} == (g_m < g_mc ? &g_w : (option_entry_t *)0) && (g_m == 0 || g_mf == 1)
//@ dec g_mc - g_m
//@ loop 2
//@ assigns g_j2; g_f2; g_w2
//@ hyp ({l:option_entry_t *#2} = g_j2 < g_c2 ? &g_w2 : 0), next2()
//@ inv g_j2 <= g_c2 && {l:option_entry_t *#2} == (g_j2 < g_c2 ? &g_w2 : (option_entry_t *)0) && (g_j2 == 0 || g_f2 == 1)
//@ dec g_c2 - g_j2
//@ loop 3
//@ assigns g_j3; g_f3; g_w3
//@ hyp ({l:option_entry_t *#2} = g_j3 < g_c3 ? &g_w3 : 0), next3()
//@ inv g_j3 <= g_c3 && {l:option_entry_t *#2} == (g_j3 < g_c3 ? &g_w3 : (option_entry_t *)0) && (g_j3 == 0 || g_f3 == 1)
//@ dec g_c3 - g_j3
//@ loop 4
//@ assigns g_j4; g_f4; g_w4
//@ hyp ({l:option_entry_t *#2} = g_j4 < g_c4 ? &g_w4 : 0), next4()
//@ inv g_j4 <= g_c4 && {l:option_entry_t *#2} == (g_j4 < g_c4 ? &g_w4 : (option_entry_t *)0) && (g_j4 == 0 || g_f4 == 1)
//@ dec g_c4 - g_j4
//@ trust lists are walked through a window: one node object stands for the node at hand; a released node holds arbitrary values
#include "p21.h"
unsigned g_j, g_c, g_m, g_mc, g_j2, g_c2, g_j3, g_c3, g_j4, g_c4; int g_f, g_mf, g_f2, g_f3, g_f4; option_entry_t g_w, g_w2, g_w3, g_w4; group_info_t g_g;
static void nextg(void) { if (g_j < g_c) { g_g.next = g_j + 1 < g_c ? &g_g : 0; g_mc = nondet_int(); VX_ASSUME(g_mc < 0xffffff); g_m = 0; g_mf = 0; g_g.options = g_mc ? &g_w : 0; g_f = 0; } g_j++; }
#define NEXT(J, C, W, F) { if (J < C) { W.next = J + 1 < C ? &W : 0; F = 0; } J++; }
static void nexte(void) NEXT(g_m, g_mc, g_w, g_mf)
static void next2(void) NEXT(g_j2, g_c2, g_w2, g_f2)
static void next3(void) NEXT(g_j3, g_c3, g_w3, g_f3)
static void next4(void) NEXT(g_j4, g_c4, g_w4, g_f4)
static void vx_free(void *p) {
    if (p == &g_g) { VX_ASSERT(g_j > 0 && g_j <= g_c && !g_f && (g_mc == 0 || g_m == g_mc + 1), "the group at hand, once, after its entries"); g_f = 1; g_g.next = nondet_ptr(); g_g.options = nondet_ptr(); }
    else if (p == &g_w) { VX_ASSERT(g_m > 0 && g_m <= g_mc && !g_mf && !g_f, "the entry at hand, once"); g_mf = 1; g_w.next = nondet_ptr(); }
    else if (p == &g_w2) { VX_ASSERT(g_j2 > 0 && g_j2 <= g_c2 && !g_f2, "the entry at hand, once"); g_f2 = 1; g_w2.next = nondet_ptr(); }
    else if (p == &g_w3) { VX_ASSERT(g_j3 > 0 && g_j3 <= g_c3 && !g_f3, "the entry at hand, once"); g_f3 = 1; g_w3.next = nondet_ptr(); }
    else { VX_ASSERT(p == &g_w4 && g_j4 > 0 && g_j4 <= g_c4 && !g_f4, "the entry at hand, once"); g_f4 = 1; g_w4.next = nondet_ptr(); } }
#define free vx_free
void free_help_data(help_data_t *data)
__CPROVER_assigns(g_j, g_m, g_f, g_mf, g_mc, g_w, g_g, g_j2, g_f2, g_w2, g_j3, g_f3, g_w3, g_j4, g_f4, g_w4);
#include "src0.c"
void harness(void) {
    help_data_t d; g_j = g_m = g_mc = g_j2 = g_j3 = g_j4 = 0; g_f = g_mf = g_f2 = g_f3 = g_f4 = 0; g_c = nondet_int(); g_c2 = nondet_int(); g_c3 = nondet_int(); g_c4 = nondet_int(); VX_ASSUME(g_c < 0xffffff && g_c2 < 0xffffff && g_c3 < 0xffffff && g_c4 < 0xffffff);
    option_entry_t *pp = &g_w2, *ps = &g_w3, *pc = &g_w4; d.groups = g_c ? &g_g : 0; d.ungrouped = g_c2 ? &g_w2 : 0; d.positionals = g_c3 ? &g_w3 : 0; d.subcommands = g_c4 ? &g_w4 : 0;
    free_help_data(&d);
    VX_ASSERT((g_c == 0 || g_j == g_c + 1) && (g_c2 == 0 || g_j2 == g_c2 + 1) && (g_c3 == 0 || g_j3 == g_c3 + 1) && (g_c4 == 0 || g_j4 == g_c4 + 1), "every list to its end");
    if (g_c > 2 && g_c2 > 2 && g_c3 > 2 && g_c4 > 2) VX_REACH("many"); if (!g_c && !g_c2 && !g_c3 && !g_c4) VX_REACH("nothing");
}
