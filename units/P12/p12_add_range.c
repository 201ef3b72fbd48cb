//@ src callbacks/handlers/array_int_handler.c
//@ drop search_range_separator parse_int_range set_value array_int_handler free_array_int_handler
//@ timeout 300
//@ desc add_range_values: appends start, start+1, ..., end in order after the old elements, which stay, for every range; when memory runs out it is an error
//@ enforce add_range_values
//@ fn add_range_values 1
//@ loop 0
//@ assigns {p0}->value.as_array; {p0}->value_capacity; {p0}->is_allocated; {p0}->value_count; __CPROVER_object_whole(G_arr)
//@ inv {i} >= g_lo && {i} <= g_hi && {p0}->value_count >= g_n0 && {p0}->value_count <= g_cap && (uint64_t){i} == (uint64_t)g_lo + ({p0}->value_count - g_n0) && (g_k < {p0}->value_count ==> G_arr[g_k].as_int64 == g_want)
//@ dec (uint64_t)g_hi - (uint64_t){i}
//@ trust adjust_array_size by its contract (discharged in unit p12_grow)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "arr.h"
size_t g_n0, g_k; int64_t g_lo, g_hi, g_want;
#include "src0.c"
static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
__CPROVER_assigns(option->value.as_array, option->value_capacity, option->is_allocated, option->value_count; G_arr != 0: __CPROVER_object_whole(G_arr));
void harness(void) {
    g_cap = nondet_size(); VX_ASSUME(g_cap < 0xffffff); argus_value_t arr[g_cap + 1]; G_arr = arr;
    argus_option_t o; G_o = &o; o.value.as_array = nondet_bool() ? &arr[0] : 0; VX_ASSUME(o.value.as_array ? o.value_count <= g_cap : o.value_count == 0);
    int_argus_range_t r; VX_ASSUME(r.start <= r.end); g_lo = r.start; g_hi = r.end; g_n0 = o.value_count; g_k = nondet_size(); VX_ASSUME(g_k < g_cap);
    g_want = g_k < g_n0 ? arr[g_k].as_int64 : (int64_t)((uint64_t)g_lo + (g_k - g_n0));
    int st = add_range_values(&o, &r);
    VX_ASSERT(o.value_count >= g_n0 && o.value_count <= g_cap, "nothing is lost");
    VX_ASSERT(IMPLIES(g_k < o.value_count, arr[g_k].as_int64 == g_want), "old elements stay, then the integers of the range in order");
    if (st == ARGUS_SUCCESS) { VX_ASSERT(o.value_count - g_n0 - 1 == (uint64_t)g_hi - (uint64_t)g_lo && o.value.as_array == arr, "every integer of the range"); VX_REACH("done"); if (g_n0 + 5 < o.value_count && g_hi == INT64_MAX) VX_REACH("up to the largest"); }
    else { VX_ASSERT(st == ARGUS_ERROR_MEMORY, "memory error"); VX_REACH("no memory"); }
}
