//@ src core/parsing/post_parse_validation.c
//@ drop validate_options_set
//@ desc post_parse_validation: checks the program's own options, then those of every active subcommand from the outermost to the innermost; the first broken rule is the result
//@ enforce post_parse_validation
//@ fn post_parse_validation 1
//@ loop 0
//@ assigns g_st; g_seen; {p0}->error_code
//@ inv {i} <= g_d && g_st == 0 && {l:int} == 0 && g_seen == {i} + 1
//@ dec g_d - {i}
//@ trust validate_options_set: the status of one level (discharged in unit p11_set)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
size_t g_d, g_seen; int g_st; argus_t *G_a; argus_option_t g_lv[MAX_SUBCOMMAND_DEPTH][1], g_root[1], g_sub[MAX_SUBCOMMAND_DEPTH];
int post_parse_validation(argus_t *argus)
__CPROVER_assigns(argus->error_code, g_st, g_seen);
#include "src0.c"
int validate_options_set(argus_t *argus, argus_option_t *o) {
    VX_ASSERT(argus == G_a && g_st == 0, "stops at the first broken rule");
    VX_ASSERT(o == (g_seen == 0 ? &g_root[0] : g_sub[g_seen - 1].sub_options), "every level in order, each once");
    g_seen++; g_st = nondet_int(); argus->error_code = g_st; return g_st;
}
void harness(void) {
    argus_t a; G_a = &a; g_seen = 0; g_st = 0; a.options = g_root; VX_ASSUME(a.subcommand_depth <= MAX_SUBCOMMAND_DEPTH); g_d = a.subcommand_depth;
    for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) { g_sub[i].sub_options = g_lv[i]; a.subcommand_stack[i] = &g_sub[i]; }
    int r = post_parse_validation(&a);
    VX_ASSERT(r == g_st, "the result is the first failure, or success");
    if (r == 0) { VX_ASSERT(g_seen == g_d + 1, "every active level was checked"); if (g_d > 2) VX_REACH("all levels"); } else VX_REACH("failure");
}
//@ cbmc --unwind 9
