//@ src display/help/help_renderer.c
//@ drop print_option print_option_list print_positional print_positional_list  print_subcommand print_help_sections
//@ desc print_subcommand_list: every entry of a list of any length, once, in order
//@ enforce print_subcommand_list
//@ fn print_subcommand_list 1
//@ loop 0
//@ assigns g_j; g_w.next; g_p
//@ hyp ({l:option_entry_t *} = g_j < g_c ? &g_w : 0), next()
//@ inv g_j <= g_c && {l:option_entry_t *} == (g_j < g_c ? &g_w : (option_entry_t *)0) && (g_j == 0 || g_p == 1)
//@ dec g_c - g_j
//@ trust lists are walked through a window: one node object stands for the node at hand
//@ trust print_subcommand: prints that entry (discharged in p21_rows)
#include "p21.h"
size_t g_j, g_c, g_in; int g_p; option_entry_t g_w; argus_t *G_a; argus_option_t g_o, g_kept;
static void next(void) { if (g_j < g_c) { g_w.next = g_j + 1 < g_c ? &g_w : 0; g_p = 0; } g_j++; }
void print_subcommand(argus_t *a, const argus_option_t *o, size_t n) { VX_ASSERT(a == G_a && o == &g_o && n == g_in && !g_p && g_j > 0 && g_j <= g_c, "the entry at hand, once"); g_p = 1; }
void print_subcommand_list(argus_t *argus, option_entry_t *list, size_t indent)
__CPROVER_assigns(g_j, g_w.next, g_p);
#include "src0.c"
void harness(void) { G_a = nondet_ptr(); g_j = 0; g_p = 0; g_c = nondet_size(); VX_ASSUME(g_c < 0xffffff); g_in = nondet_size(); g_w.option = &g_o; g_w.next = 0;
    print_subcommand_list(G_a, g_c ? &g_w : 0, g_in); VX_ASSERT(g_j == g_c + 1, "to its end"); if (g_c > 3) VX_REACH("many"); }
