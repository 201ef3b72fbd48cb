//@ src core/validation/validate_containers.c
//@ desc validate_subcommand, validate_group: succeed exactly when every rule of the definition holds; a report is written exactly when one is broken
//@ nodfcc
//@ trust argus_struct_error (inline): evaluates its arguments and prints; recorded by a ghost
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/errors.h"
_Bool g_rep; argus_option_t *G_o;
#define VX_STRUCT_HOOK(o) (VX_ASSERT((o) == G_o, "about the definition"), g_rep = 1)
#include "vx_err.h"
#include "src0.c"
void harness(void) {
    argus_option_t o, c = o; G_o = &o; g_rep = 0; _Bool s = nondet_bool();
    c = o; int r = s ? validate_subcommand(&o) : validate_group(&o);
    _Bool bad = s ? !c.name || !c.help || !c.sub_options || c.handler || c.require || c.conflict || c.have_default || c.validators || (c.flags & ~(FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL))
                  : (c.flags & ~FLAG_EXCLUSIVE) != 0;
    VX_ASSERT((r != ARGUS_SUCCESS) == bad, "succeeds exactly when every rule holds"); VX_ASSERT(g_rep == bad, "reported exactly when broken");
    VX_ASSERT(o.type == c.type && o.name == c.name && o.flags == c.flags && o.sub_options == c.sub_options && o.is_set == c.is_set && o.handler == c.handler, "changes nothing");
    if (s) { if (r) VX_REACH("bad subcommand"); else VX_REACH("subcommand"); } else { if (r) VX_REACH("bad group"); else VX_REACH("group"); }
}
