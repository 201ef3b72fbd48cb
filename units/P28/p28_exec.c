//@ src display/command_display.c
//@ drop print_command_line print_subcommand_paths display_available_subcommands print_simple_commands_group print_command_families display_all_commands
//@ desc has_executable_subcommands: whether the table of the command, of any length, holds a subcommand with an action; no table, none
//@ enforce has_executable_subcommands
//@ fn has_executable_subcommands 1
//@ loop 0
//@ assigns g_e
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && (g_k < {i} ==> !g_ks)
//@ dec g_n - {i}
#include "p28.h"
int g_e, g_n, g_k; _Bool g_ks; argus_option_t *G_t;
static void next(int i) { g_e = i; if (i < g_n) VX_ASSUME(G_t[i].type != TYPE_NONE); }
static bool has_executable_subcommands(const argus_option_t *o)
__CPROVER_assigns(g_e);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 < n && n < 0xfffff); g_n = n; argus_option_t t[n + 1], o; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; g_e = 0; g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < n); g_ks = t[g_k].type == TYPE_SUBCOMMAND && t[g_k].action != 0;
    o.sub_options = nondet_bool() ? &t[0] : 0; bool r = has_executable_subcommands(&o);
    if (!o.sub_options) { VX_ASSERT(!r, "no table, none"); VX_REACH("no table"); }
    else if (r) { VX_ASSERT(g_e < n && t[g_e].type == TYPE_SUBCOMMAND && t[g_e].action, "there is one"); if (g_e > 2) VX_REACH("one"); } else { VX_ASSERT(!g_ks, "there is none"); if (n > 3) VX_REACH("none"); }
}
