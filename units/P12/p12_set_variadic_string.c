//@ src callbacks/handlers/variadic_string_handler.c
//@ drop variadic_string_handler free_variadic_string_handler
//@ desc set_string_value of variadic_string_handler: appends an own copy of the text after the old elements, which stay; when memory runs out nothing is kept and the count stays
//@ enforce set_string_value
//@ trust adjust_array_size by its contract (discharged in unit p12_grow)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust strdup: NULL or a fresh copy of the whole text (ISO C)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "argus/internal/cross_platform.h"
#include "arr.h"
char *G_v; char g_copy[2]; int g_live; size_t g_k;
#undef safe_strdup
static char *safe_strdup(const char *s) { VX_ASSERT(s == G_v, "copies the given text"); if (nondet_bool()) return 0; g_live++; return g_copy; }
static void vx_free(void *p) { VX_ASSERT(p == (void *)g_copy && g_live == 1, "releases only its own copy"); g_live--; }
#define free vx_free
static int set_string_value(argus_option_t *option, char *value)
__CPROVER_assigns(option->value.as_array, option->value_capacity, option->is_allocated, option->value_count, g_live; G_arr != 0: __CPROVER_object_whole(G_arr));
#include "src0.c"
void harness(void) {
    g_cap = nondet_size(); VX_ASSUME(g_cap < 0xffffff); argus_value_t arr[g_cap + 1]; G_arr = arr;
    argus_option_t o; G_o = &o; o.value.as_array = nondet_bool() ? &arr[0] : 0; VX_ASSUME(o.value.as_array ? o.value_count <= g_cap : o.value_count == 0);
    size_t n = o.value_count; char v[2]; G_v = v; g_live = 0; g_k = nondet_size(); VX_ASSUME(n == 0 || g_k < n); char *old = n ? arr[g_k].as_string : 0;
    int r = set_string_value(&o, v);
    VX_ASSERT(IMPLIES(n > 0, arr[g_k].as_string == old), "stored elements stay");
    if (r == ARGUS_SUCCESS) { VX_ASSERT(o.value_count == n + 1 && n + 1 <= g_cap && o.value.as_array == arr && arr[n].as_string == g_copy && g_live == 1, "the copy is the last element"); VX_REACH("appended"); if (n == 0) VX_REACH("first"); }
    else { VX_ASSERT(r == ARGUS_ERROR_MEMORY && o.value_count == n && g_live == 0, "out of memory: nothing changes, nothing is kept"); VX_REACH("no memory"); }
}
