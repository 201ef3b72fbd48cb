//@ src callbacks/handlers/flag_handler.c
//@ desc flag_handler: true without text (command line); a text (environment) is interpreted as a boolean word
//@ enforce flag_handler
//@ trust bool_handler: by contract (discharged in p07_bool)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
argus_t *G_a; argus_option_t *G_o; char *G_v; int g_calls, g_ret;
int bool_handler(argus_t *a, argus_option_t *o, char *v) { VX_ASSERT(a == G_a && o == G_o && v == G_v && v, "the given text"); g_calls++; return g_ret; }
int flag_handler(argus_t *argus, argus_option_t *option, char *arg)
__CPROVER_assigns(option->value, g_calls);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; G_a = &a; G_o = &o; G_v = nondet_ptr(); g_calls = 0; g_ret = nondet_int();
    int r = flag_handler(&a, &o, G_v);
    if (!G_v) { VX_ASSERT(r == ARGUS_SUCCESS && o.value.as_bool && g_calls == 0, "given flag is true"); VX_REACH("given"); }
    else { VX_ASSERT(g_calls == 1 && r == g_ret, "word decides"); VX_REACH("environment"); }
}
