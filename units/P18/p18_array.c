//@ src api/argus_value_access.c
//@ desc argus_array_get: the stored element exactly when the path denotes an array or variadic option and the index is below the count (any size); otherwise a zero value with the error for unknown option, wrong type or bad index; nothing is read outside the elements and nothing is changed
//@ enforce argus_array_get
//@ fn argus_map_get 1
//@ loop 0 skip
//@ trust find_option_by_active_path by its contract (discharged in P17)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
argus_option_t g_o; _Bool g_has; const char *G_n; argus_option_t *G_tab;
argus_option_t *find_option_by_active_path(argus_t a, const char *p) { VX_ASSERT(p == G_n && a.options == G_tab, "the path given"); return g_has ? &g_o : 0; }
argus_value_t argus_array_get(argus_t *argus, const char *option_path, size_t index)
__CPROVER_assigns(argus->error_code);
#include "src0.c"
void harness(void) {
    argus_t a; char nm[1]; argus_option_t tab[1]; a.options = tab; G_tab = tab; G_n = nondet_bool() ? &nm[0] : 0; argus_option_t f; size_t n, x; VX_ASSUME(n < 0xfffffff);
    argus_value_t *arr = __CPROVER_allocate(n * sizeof(argus_value_t), 0); if (f.value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC)) { f.value.as_array = n ? arr : 0; f.value_count = n; } g_o = f; g_has = nondet_bool();
    argus_value_t v = argus_array_get(&a, G_n, x);
    if (!g_has) { VX_ASSERT(v.raw == 0 && a.error_code == ARGUS_ERROR_NO_VALUE, "unknown option"); VX_REACH("unknown"); return; }
    if (!(f.value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC))) { VX_ASSERT(v.raw == 0 && a.error_code == ARGUS_ERROR_INVALID_TYPE, "wrong kind"); VX_REACH("kind"); return; }
    if (x >= n) { VX_ASSERT(v.raw == 0 && a.error_code == ARGUS_ERROR_INVALID_INDEX, "no such element"); VX_REACH("index"); return; }
    VX_ASSERT(a.error_code == ARGUS_SUCCESS && v.raw == arr[x].raw && v.as_int64 == arr[x].as_int64 && v.as_string == arr[x].as_string, "the element"); if (x > 3) VX_REACH("element");
}
