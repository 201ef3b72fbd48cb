//@ src utils/value_utils.c
//@ drop choices_to_value cmp_value
//@ desc free_option_value: nothing for a value the option does not own; else exactly one release (its free handler, or free of the block), and afterwards the option is empty and owns nothing, so a second call does nothing
//@ nodfcc
//@ enforce free_option_value
#include "vx.h"
#include "argus/internal/utils.h"
#include <string.h>
#include <stdio.h>
#include <limits.h>
argus_option_t *G_o; void *G_p; int g_h, g_f; size_t g_n; _Bool g_al;
static int fh(argus_option_t *o) { VX_ASSERT(o == G_o && o->value.as_ptr == G_p && o->value_count == g_n && g_al, "the free handler sees the value as it was"); g_h++; return 0; }
static void vx_free(void *p) { VX_ASSERT(p == G_p, "the option's block"); g_f++; }
#define free vx_free
#include "src0.c"
void harness(void) {
    argus_option_t o, b; char x[2]; G_o = &o; o.value.as_ptr = x; G_p = x; _Bool h = nondet_bool(); o.free_handler = h ? fh : 0; g_n = o.value_count; g_al = nondet_bool(); o.is_allocated = g_al; b = o; g_h = g_f = 0;
    free_option_value(&o);
    if (!g_al) { VX_ASSERT(g_h == 0 && g_f == 0 && o.value.as_ptr == G_p && o.value_count == b.value_count, "not owned: untouched"); VX_REACH("not owned"); }
    else { VX_ASSERT(g_h == (h ? 1 : 0) && g_f == (h ? 0 : 1), "exactly one release"); VX_ASSERT(!o.is_allocated && o.value.as_ptr == 0 && o.value_count == 0 && o.value_capacity == 0, "empty afterwards"); if (h) VX_REACH("handler"); else VX_REACH("plain");
        free_option_value(&o); VX_ASSERT(g_h + g_f == 1 && o.value_count == 0, "a second call does nothing"); }
    VX_ASSERT(o.type == b.type && o.flags == b.flags && o.value_type == b.value_type && o.name == b.name && o.is_set == b.is_set, "the definition stays");
}
