//@ src api/argus_free.c
//@ drop free_options
//@ desc argus_free releases the program's own table and the table of every active subcommand, each exactly once, whatever the depth
//@ enforce argus_free
//@ fn argus_free 1
//@ loop 0
//@ assigns g_f; g_done
//@ inv {i} <= g_n && g_root == 1 && g_done == {i} && g_f == (g_k < {i} ? 1 : 0)
//@ dec g_n - {i}
//@ trust free_options by its contract (discharged in p15_options)
#include "vx.h"
#include "argus/internal/utils.h"
argus_t *G_a; size_t g_n, g_k, g_done; int g_root, g_f; argus_option_t G_tab[64], G_sub[64], G_rt[1];
void argus_free(argus_t *argus)
__CPROVER_assigns(g_root, g_f, g_done);
#include "src0.c"
static void free_options(argus_option_t *o) {
    if (o == G_rt) { VX_ASSERT(g_root == 0, "the program's table once"); g_root++; return; }
    VX_ASSERT(g_done < g_n && o == &G_tab[g_done], "the tables of the active subcommands, once each"); if (g_done == g_k) g_f++; g_done++;
}
void harness(void) {
    argus_t a; G_a = &a; a.options = G_rt; g_n = nondet_size(); VX_ASSUME(g_n <= MAX_SUBCOMMAND_DEPTH && MAX_SUBCOMMAND_DEPTH <= 64); a.subcommand_depth = g_n;
    for (size_t i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) { G_sub[i].sub_options = &G_tab[i]; a.subcommand_stack[i] = &G_sub[i]; }
    g_root = g_f = 0; g_done = 0; VX_ASSUME(g_k < g_n || g_n == 0);
    argus_free(&a);
    VX_ASSERT(g_root == 1 && g_done == g_n && (g_n == 0 || g_f == 1), "every table released exactly once"); if (g_n > 2) VX_REACH("nested"); if (g_n == 0) VX_REACH("plain");
}
