//@ src callbacks/handlers/variadic_int_handler.c
//@ drop variadic_int_handler 
//@ desc set_int_value of variadic_int_handler: appends exactly the converted number after the old elements, which stay; a text that is not completely a number (or, for integers, is out of range) changes nothing
//@ enforce set_int_value
//@ trust adjust_array_size by its contract (discharged in unit p12_grow)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust strtoll: ISO C contract (value of the longest numeric prefix, its end, ERANGE)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "arr.h"
int g_errno; int *__errno_location(void) { return &g_errno; }
size_t g_k, g_len, g_off; int64_t g_val; _Bool g_range; char *G_s;
long long strtoll(const char *s, char **end, int base) { VX_MODEL(base == 10, "decimal");
    VX_MODEL(s == G_s, "converts the given text"); if (end) *end = G_s + g_off; if (g_range) g_errno = ERANGE; return g_val;
}
static int set_int_value(argus_option_t *option, char *value)
__CPROVER_assigns(option->value.as_array, option->value_capacity, option->is_allocated, option->value_count, g_errno; G_arr != 0: __CPROVER_object_whole(G_arr));
#include "src0.c"
void harness(void) {
    g_cap = nondet_size(); VX_ASSUME(g_cap < 0xffffff); argus_value_t arr[g_cap + 1]; G_arr = arr;
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len; char v[len + 1]; G_s = v; VX_ASSUME(v[len] == 0);
    g_off = nondet_size(); VX_ASSUME(g_off <= len && (g_off == len || v[g_off] != 0)); g_range = nondet_bool(); VX_ASSUME(IMPLIES(g_off == 0, !g_range)); g_val = nondet_i64();
    argus_t a; argus_option_t o; G_o = &o; o.value.as_array = nondet_bool() ? &arr[0] : 0; VX_ASSUME(o.value.as_array ? o.value_count <= g_cap : o.value_count == 0);
    size_t n = o.value_count; g_k = nondet_size(); VX_ASSUME(n == 0 || g_k < n); int64_t old = arr[n ? g_k : 0].as_int64;

    _Bool good = g_off > 0 && g_off == len && !g_range;
    int r = set_int_value(&o, v);
    VX_ASSERT(IMPLIES(n > 0, arr[g_k].as_int64 == old), "stored elements stay");
    if (r == ARGUS_SUCCESS) { VX_ASSERT(good && o.value_count == n + 1 && n + 1 <= g_cap && o.value.as_array == arr && (arr[n].as_int64 == g_val || g_val != g_val), "exactly the converted number is the last element"); VX_REACH("appended"); if (n == 0) VX_REACH("first"); }
    else { VX_ASSERT(r == ARGUS_ERROR_INVALID_VALUE || r == ARGUS_ERROR_MEMORY, "format or memory error"); VX_ASSERT(o.value_count == n && IMPLIES(r == ARGUS_ERROR_INVALID_VALUE, !good), "nothing is appended; only a text that is not a number is a format error"); if (good) VX_REACH("no memory"); else VX_REACH("not a number"); }
}
