//@ src core/parsing/option_handle_positional.c
//@ desc handle_positional applies the value once to exactly the option find_positional names for the position, or reports an invalid argument and applies nothing
//@ trust argus_parsing_error (inline): replaced by its contract: evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
argus_t *G_a; argus_option_t *G_o; char *G_v; int G_p;
argus_option_t *g_res; int g_calls, g_finds, g_ret; 
argus_option_t *find_positional(argus_option_t *o, int p) {
    VX_ASSERT(o == G_o && p == G_p, "looks up this table and position"); g_finds++; return g_res;
}
int execute_callbacks(argus_t *a, argus_option_t *o, char *v) {
    VX_ASSERT(g_finds > 0 && a == G_a && o == g_res && o && v == G_v, "applies the found option with this value"); g_calls++; return g_ret;
}
//@ enforce handle_positional
int handle_positional(argus_t *argus, argus_option_t *options, char *value, int position)
__CPROVER_assigns(argus->error_code, g_calls, g_finds);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t table[2]; argus_option_t *res = nondet_bool() ? &table[0] : 0; char v[4];
    G_a = &a; G_o = nondet_ptr(); G_v = v; G_p = nondet_int(); g_res = res; g_calls = g_finds = 0; g_ret = nondet_int();
    int r = handle_positional(&a, G_o, G_v, G_p);
    if (res) { VX_ASSERT(g_calls == 1 && r == g_ret, "applied once, result returned"); VX_REACH("found"); }
    else { VX_ASSERT(g_calls == 0 && r == ARGUS_ERROR_INVALID_ARGUMENT && a.error_code == r, "reported, nothing applied"); VX_REACH("none"); }
}
