//@ src utils/multi_values.c
//@ desc adjust_map_size: afterwards there is room for one more element in a block that is large enough, with the old elements (malloc or realloc of the old block; a default value of the caller is neither resized nor released); when memory runs out everything is as before and there is no room
//@ enforce adjust_map_size
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust malloc, realloc: NULL, or a block of at least the asked size which keeps the old content (ISO C)
#include "vx.h"
#include "nounion.h"
argus_pair_t *G_old, *G_new; size_t g_ask; int g_calls; _Bool g_ok;
void *vx_realloc(void *p, size_t n) {
    VX_ASSERT(p == (void *)G_old, "only the old block is replaced"); VX_ASSERT(!g_calls, "one block at a time");
    g_calls++; g_ask = n; g_ok = nondet_bool(); return g_ok ? G_new : 0;
}
#define malloc(n) vx_realloc(0, (n))
#define calloc(a, b) vx_realloc(0, (a) * (b))
#define realloc(p, n) vx_realloc((p), (n))
void adjust_map_size(argus_option_t *option)
__CPROVER_assigns(option->value.as_map, option->value_capacity, option->is_allocated, g_calls, g_ask, g_ok);
#include "src0.c"
void harness(void) {
    argus_option_t o; argus_pair_t x[1], y[1], z[1]; G_new = y; G_old = nondet_bool() ? &x[0] : 0; o.value.as_map = G_old ? G_old : nondet_bool() ? &z[0] : 0; /* z: a default value of the caller */
    VX_ASSUME(G_old ? o.value_count <= o.value_capacity && o.value_capacity > 0 && o.value_capacity < ((size_t)1 << 50) : o.value_count == 0); VX_ASSUME(o.is_allocated == (G_old != 0));
    argus_option_t b = o; g_calls = 0;
    adjust_map_size(&o);
    VX_ASSERT(o.value_count == b.value_count, "the number of elements does not change");
    if (g_calls && g_ok) {
        VX_ASSERT(o.value.as_map == G_new && o.is_allocated, "the new block is kept and owned");
        VX_ASSERT(o.value_count < o.value_capacity && o.value_capacity <= g_ask / sizeof(argus_pair_t), "room for one more inside the block");
        if (G_old) VX_REACH("grown"); else VX_REACH("first block");
    } else if (g_calls) {
        VX_ASSERT((!G_old || o.value.as_map == G_old) && o.is_allocated == b.is_allocated, "old block kept");
        VX_ASSERT(o.value_count >= o.value_capacity && (!G_old || o.value_capacity == b.value_capacity), "no room"); VX_REACH("no memory");
    } else {
        VX_ASSERT(G_old && o.value.as_map == G_old && o.value_capacity == b.value_capacity && o.value_count < o.value_capacity && o.is_allocated == b.is_allocated, "there already was room"); VX_REACH("room");
    }
}
