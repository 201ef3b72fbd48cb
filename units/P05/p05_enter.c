//@ src core/parsing/option_handle_subcommand.c
//@ desc handle_subcommand: below the maximum depth the selected subcommand is pushed as the active one, marked, and the remaining tokens are parsed with its own options; at the maximum depth nothing is written and an error is returned
//@ enforce handle_subcommand
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
//@ trust parse_args: by contract (discharged in P04)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "vx_err.h"
argus_t *G_a; argus_option_t *G_o; char **G_argv; int G_argc, g_calls, g_ret; size_t g_d;
int parse_args(argus_t *a, argus_option_t *o, int argc, char **argv) {
    VX_ASSERT(a == G_a && o == G_o->sub_options && argc == G_argc && argv == G_argv, "the remaining tokens with the subcommand's options");
    VX_ASSERT(a->subcommand_depth == g_d + 1 && a->subcommand_stack[g_d] == G_o && G_o->is_set, "the subcommand is the active one");
    g_calls++; return g_ret;
}
int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
__CPROVER_assigns(argus->error_code, argus->subcommand_depth, __CPROVER_object_whole(argus->subcommand_stack), option->is_set, g_calls);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; char *argv[2]; a.subcommand_depth = nondet_size(); VX_ASSUME(a.subcommand_depth <= MAX_SUBCOMMAND_DEPTH);
    size_t k; VX_ASSUME(k < MAX_SUBCOMMAND_DEPTH); const argus_option_t *old = a.subcommand_stack[k];
    const void *opts = a.options; _Bool was = o.is_set; size_t d = a.subcommand_depth;
    G_a = &a; G_o = &o; G_argv = argv; G_argc = nondet_int(); g_calls = 0; g_ret = nondet_int(); g_d = d;
    int r = handle_subcommand(&a, &o, G_argc, argv);
    if (d >= MAX_SUBCOMMAND_DEPTH) {
        VX_ASSERT(r == ARGUS_ERROR_STACK_OVERFLOW && a.error_code == r && g_calls == 0, "too deep is an error");
        VX_ASSERT(a.subcommand_depth == d && a.subcommand_stack[k] == old, "nothing was pushed");
        VX_REACH("too deep");
    } else {
        VX_ASSERT(g_calls == 1 && r == g_ret, "parsed once, status returned");
        VX_ASSERT(a.subcommand_depth == d + 1 && a.subcommand_stack[d] == &o, "pushed");
        VX_ASSERT(k == d || a.subcommand_stack[k] == old, "no other level changed");
        VX_REACH("entered");
    }
    VX_ASSERT(a.options == opts, "the program's own options are untouched");
}
