//@ src display/usage_display.c
//@ drop display_usage
//@ desc have_subcommand: whether a table of any length holds a subcommand
//@ enforce have_subcommand
//@ fn have_subcommand 1
//@ loop 0
//@ assigns g_e
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && (g_k < {i} ==> !g_ksub)
//@ dec g_n - {i}
#include "p21.h"
int g_e, g_n, g_k, g_ksub; argus_option_t *G_t;
static void next(int i) { g_e = i; if (i < g_n) VX_ASSUME(G_t[i].type != TYPE_NONE); }
static bool have_subcommand(const argus_option_t *options)
__CPROVER_assigns(g_e);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; g_e = 0; g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k <= n); g_ksub = t[g_k].type == TYPE_SUBCOMMAND;
    if (have_subcommand(t)) { VX_ASSERT(t[g_e].type == TYPE_SUBCOMMAND && g_e < n, "there is one"); VX_REACH("one"); } else { VX_ASSERT(!g_ksub, "there is none"); if (n > 3) VX_REACH("none"); }
}
