//@ src callbacks/handlers/variadic_float_handler.c
//@ drop set_float_value 
//@ desc variadic_float_handler: stores the argument as one element, then applies the ordering flags and marks the block as owned; an element that cannot be stored is an error
//@ enforce variadic_float_handler
//@ trust set_float_value by its contract (discharged in unit p12_set_variadic_float); apply_array_flags by its contract (units of P13)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
int g_set, g_st, g_flags; argus_option_t *G_o; char *G_s;
void apply_array_flags(argus_option_t *o) { VX_ASSERT(o == G_o && g_set && !g_st && !g_flags, "flags once, after storing"); g_flags = 1; }
int variadic_float_handler(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(argus->error_code, option->is_allocated, g_set, g_st, g_flags);
#include "src0.c"
int set_float_value(argus_option_t *o, char *v) { VX_ASSERT(o == G_o && v == G_s && !g_set, "stores the argument once"); g_set = 1; g_st = nondet_int(); return g_st; }
void harness(void) {
    argus_t a; argus_option_t o; char s[2]; G_o = &o; G_s = s; g_set = g_st = g_flags = 0;
    int r = variadic_float_handler(&a, &o, s);
    VX_ASSERT(g_set == 1 && r == g_st, "stored once, its status is the result");
    if (r == ARGUS_SUCCESS) { VX_ASSERT(g_flags && o.is_allocated, "flags applied, block owned"); VX_REACH("stored"); } else { VX_ASSERT(!g_flags, "no flags"); VX_REACH("failed"); }
}
