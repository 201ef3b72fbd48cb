//@ src api/argus_parse.c
//@ desc argus_parse: the arguments without the program name are interpreted, then the environment is loaded, then the rules are checked, each exactly once and only after success of everything before; result and recorded code are those of the first failure or success; after a failure everything is released, once; after an exit option everything is released before the program ends with status 0
//@ enforce argus_parse
//@ fn argus_parse 1
//@ loop 0
//@ inv {i} <= g_d
//@ dec g_d - {i}
//@ cbmc --unwind 9
//@ trust parse_args, load_env_vars, post_parse_validation: any status, may change the options and the active commands (their own contracts: P04, P16, P11); argus_free releases everything (P15); exit does not return
//@ trust display_usage, fprintf: print only
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "argus/errors.h"
void display_usage(argus_t *a, const argus_option_t *c);
#include <stdlib.h>
#include <stdio.h>
argus_t *G_a; char *G_av[4]; char **G_argv; int g_ph, g_st, g_free, g_argc; size_t g_d; argus_option_t *G_tab; argus_option_t g_sub;
void argus_free(argus_t *a) { VX_ASSERT(a == G_a && !g_free, "releases once"); VX_ASSERT(g_st != 0, "only after a failure or an exit option"); g_free++; }
static int phase(int p, argus_t *a) { VX_ASSERT(a == G_a && g_ph == p && g_st == 0 && !g_free, "phases in order, only after success"); g_ph++; g_st = nondet_int(); a->error_code = nondet_int(); return g_st; }
int parse_args(argus_t *a, argus_option_t *o, int c, char **v) { VX_ASSERT(o == G_tab && c == g_argc - 1 && v == G_argv + 1, "the arguments without the program name"); return phase(0, a); }
int load_env_vars(argus_t *a) { return phase(1, a); }
int post_parse_validation(argus_t *a) { return phase(2, a); }
static void vx_exit(int c) { VX_ASSERT(g_st == ARGUS_SHOULD_EXIT && g_free == 1 && c == 0 && g_ph <= 2, "ends only for an exit option, with status 0, after the release"); VX_REACH("exit"); VX_ASSUME(0); }
#define exit(c) vx_exit(c)
#define fprintf(s, ...) ((void)(__VA_ARGS__))
int argus_parse(argus_t *argus, int argc, char **argv)
__CPROVER_assigns(argus->error_code, g_ph, g_st, g_free);
#include "src0.c"
void display_usage(argus_t *a, const argus_option_t *c) { VX_ASSERT(!g_free, "before the release"); }
void harness(void) {
    argus_t a; G_a = &a; argus_option_t tab[1]; a.options = tab; G_tab = tab; g_ph = g_st = g_free = 0; g_argc = nondet_int(); VX_ASSUME(g_argc > -0x7fffffff); G_argv = G_av; VX_ASSUME(a.subcommand_depth <= MAX_SUBCOMMAND_DEPTH); g_d = a.subcommand_depth;
    for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) a.subcommand_stack[i] = &g_sub;
    int r = argus_parse(&a, g_argc, G_av);
    VX_ASSERT(r == g_st && a.error_code == r && (r != ARGUS_SHOULD_EXIT || g_ph == 3), "result and recorded code of the first failure, or success");
    if (r == 0) { VX_ASSERT(g_ph == 3 && !g_free, "every phase ran, nothing released"); VX_REACH("success"); }
    else { VX_ASSERT(g_free == 1, "everything released"); if (g_ph == 1) VX_REACH("arguments"); if (g_ph == 2) VX_REACH("environment"); if (g_ph == 3) VX_REACH("rules"); }
}
