//@ src api/argus_exec.c
//@ desc argus_exec, argus_has_command: for every depth and stack, exactly the action of the innermost selected command runs, once, with the context and the caller's data, and its result is returned; otherwise the respective error and no action
//@ nodfcc
//@ cbmc --unwind 9
//@ trust display_all_commands, display_available_subcommands only print
#include "vx.h"
#include "src0.c"
argus_t *G_a; void *G_d; const argus_option_t *G_c; int g_n, g_r, g_all, g_some;
static int right(argus_t *a, void *d) { VX_ASSERT(a == G_a && d == G_d, "with the context and the caller's data"); g_n++; return g_r; }
static int wrong(argus_t *a, void *d) { VX_ASSERT(0, "only the innermost command runs"); return 0; }
void display_all_commands(argus_t *a) { g_all++; }
void display_available_subcommands(argus_t *a, const argus_option_t *c) { VX_ASSERT(a == G_a && c == G_c, "about the selected command"); g_some++; }
void harness(void) {
    argus_t a; argus_option_t s[MAX_SUBCOMMAND_DEPTH]; char d[2]; G_a = &a; G_d = nondet_bool() ? &d[0] : 0; g_r = nondet_int(); g_n = g_all = g_some = 0; size_t n = a.subcommand_depth; VX_ASSUME(n <= MAX_SUBCOMMAND_DEPTH);
    size_t x; VX_ASSUME(x < MAX_SUBCOMMAND_DEPTH); _Bool same = nondet_bool(), act = nondet_bool();
    for (size_t i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) { a.subcommand_stack[i] = &s[i]; s[i].action = nondet_bool() ? wrong : 0; }
    if (n) { G_c = a.subcommand_stack[n - 1]; s[n - 1].action = act ? right : 0; }
    VX_ASSERT(argus_has_command(&a) == (n > 0), "argus_has_command agrees");
    int r = argus_exec(&a, G_d);
    if (!n) { VX_ASSERT(r == ARGUS_ERROR_NO_COMMAND && !g_n, "nothing selected, nothing runs"); VX_REACH("none"); }
    else if (!act) { VX_ASSERT(r == ARGUS_ERROR_INVALID_HANDLER && !g_n, "no action"); VX_REACH("no action"); }
    else { VX_ASSERT(g_n == 1 && r == g_r && !g_all && !g_some, "the action ran once and its result is returned"); VX_REACH("action"); if (n == MAX_SUBCOMMAND_DEPTH) VX_REACH("deepest"); }
    VX_ASSERT(a.subcommand_depth == n && argus_has_command(&a) == (n > 0), "the selection is unchanged");
}
