//@ src utils/option_lookup.c
//@ drop find_option_by_active_path find_option_by_name
//@ desc find_from_relative_path: asks the levels from the innermost active one out to the program, with the whole name, and returns the first entry found, else nothing
//@ enforce find_from_relative_path
//@ fn find_from_relative_path 1
//@ loop 0
//@ assigns g_seen; g_hit; g_r
//@ inv -1 <= {i} && {i} <= (int)g_d && g_seen == g_d - (size_t)(long){i} && g_hit == 0 && g_r == 0
//@ dec {i}
//@ cbmc --unwind 9
//@ trust find_option_by_name by its contract (discharged in p01_name)
#include "vx.h"
#include "argus/internal/utils.h"
size_t g_d, g_seen; _Bool g_hit; argus_t *G_a; argus_option_t g_lv[MAX_SUBCOMMAND_DEPTH][1], g_root[1], g_sub[MAX_SUBCOMMAND_DEPTH], g_ent, *g_r; char g_name[1];
static argus_option_t *find_from_relative_path(argus_t *argus, const char *option_name)
__CPROVER_assigns(g_seen, g_hit, g_r);
#include "src0.c"
argus_option_t *find_option_by_name(argus_option_t *o, const char *n) {
    VX_ASSERT(n == g_name && !g_hit && g_seen <= g_d, "the name, until it is found");
    VX_ASSERT(o == (g_seen == g_d ? &g_root[0] : g_sub[g_d - 1 - g_seen].sub_options), "levels from the innermost out, each once");
    g_seen++; g_hit = nondet_bool(); g_r = g_hit ? &g_ent : 0; return g_r;
}
void harness(void) {
    argus_t a; G_a = &a; g_seen = 0; g_hit = 0; g_r = 0; a.options = g_root; VX_ASSUME(a.subcommand_depth <= MAX_SUBCOMMAND_DEPTH); g_d = a.subcommand_depth;
    for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) { g_sub[i].sub_options = g_lv[i]; a.subcommand_stack[i] = &g_sub[i]; }
    argus_option_t *r = find_from_relative_path(&a, g_name);
    VX_ASSERT(r == g_r, "the first entry found");
    if (r == 0) { VX_ASSERT(g_seen == g_d + 1, "nothing only after every level was asked"); if (g_d > 2) VX_REACH("none"); } else { if (g_seen < g_d) VX_REACH("inner"); if (g_seen == g_d + 1) VX_REACH("program"); }
}
