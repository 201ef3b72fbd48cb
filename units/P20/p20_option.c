//@ src core/validation/validate_arguments.c
//@ drop validate_default_value validate_dependencies
//@ desc validate_option, validate_positional: succeed exactly when every rule of the definition holds, whichever others are broken; the default and the dependencies are checked once each
//@ nodfcc
//@ trust validate_default_value, validate_dependencies: their status (discharged in p20_default, p20_dependencies)
//@ trust the flags of an option are not restricted (the code compares the value type with the masks of several types, which no option equals)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/stream.h"
#include "argus/errors.h"
_Bool g_rep; argus_option_t *G_o, *G_t; argus_t *G_a; int g_d, g_p, g_nd, g_np;
#define VX_STRUCT_HOOK(o) (VX_ASSERT((o) == G_o, "about the definition"), g_rep = 1)
#include "vx_err.h"
#include "src0.c"
int validate_default_value(argus_t *a, argus_option_t *o) { VX_ASSERT(a == G_a && o == G_o, "its own default"); g_nd++; if (g_d) g_rep = 1; return g_d; }
int validate_dependencies(argus_option_t *t, argus_option_t *o) { VX_ASSERT(t == G_t && o == G_o, "its own dependencies in its table"); g_np++; if (g_p) g_rep = 1; return g_p; }
void harness(void) {
    argus_option_t o, c; argus_t a; G_a = &a; G_o = &o; argus_option_t tt[1]; G_t = tt; g_rep = 0; _Bool s = nondet_bool(); g_d = nondet_int(); g_p = nondet_int(); g_nd = g_np = 0;
    c = o; VX_ASSUME(c.value_type == 0 || ((unsigned)c.value_type & ((unsigned)c.value_type - 1u)) == 0); _Bool var = (c.value_type & VALUE_TYPE_VARIADIC) != 0;
    int r = s ? validate_option(&a, tt, &o) : validate_positional(&a, &o);
    _Bool bad = s ? (!c.sname && !c.lname) || !c.help || !c.handler || g_d || g_p
                  : !c.name || !c.help || !c.handler || c.require || c.conflict || ((c.flags & FLAG_REQUIRED) && c.have_default) || g_d || (c.flags & ~(var ? (FLAG_REQUIRED | FLAG_SORTED | FLAG_UNIQUE | FLAG_DEPRECATED | FLAG_EXPERIMENTAL) : FLAG_REQUIRED));
    VX_ASSERT((r != ARGUS_SUCCESS) == bad, "succeeds exactly when every rule holds"); VX_ASSERT(g_rep == bad, "reported exactly when broken");
    VX_ASSERT(g_nd == 1 && g_np == (s ? 1 : 0), "default and dependencies are checked once"); VX_ASSERT(o.type == c.type && o.name == c.name && o.flags == c.flags && o.is_set == c.is_set && o.handler == c.handler, "changes nothing");
    if (s) { if (r) VX_REACH("bad option"); else VX_REACH("option"); } else { if (r) VX_REACH("bad positional"); else if (var) VX_REACH("variadic"); else VX_REACH("positional"); }
}
