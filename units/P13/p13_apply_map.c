//@ src utils/multi_values.c
//@ desc apply_map_flags first removes entries with equal values exactly when the unique-value flag is set and stores the new number, then orders by key with the sorted-key flag, else by value of the map's own type with the sorted-value flag, and without the flags does nothing
//@ nodfcc
//@ enforce apply_map_flags
//@ drop sort_map_by_keys sort_map_by_int_values sort_map_by_string_values sort_map_by_float_values sort_map_by_bool_values make_map_values_unique
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
static argus_pair_t *G_m; static size_t g_n, g_left; static int g_sorted, g_uniq, g_k; static argus_valtype_t g_t; static _Bool g_U;
static void srt(argus_pair_t *a, size_t n, int k) { VX_ASSERT(a == G_m && n == (g_U ? g_left : g_n), "sorts the option's remaining entries"); VX_ASSERT(g_uniq == g_U, "removes duplicates before sorting"); g_sorted++; g_k = k; }
void sort_map_by_keys(argus_pair_t *a, size_t n) { srt(a, n, 5); }
void sort_map_by_int_values(argus_pair_t *a, size_t n) { srt(a, n, 1); }
void sort_map_by_string_values(argus_pair_t *a, size_t n) { srt(a, n, 2); }
void sort_map_by_float_values(argus_pair_t *a, size_t n) { srt(a, n, 3); }
void sort_map_by_bool_values(argus_pair_t *a, size_t n) { srt(a, n, 4); }
size_t make_map_values_unique(argus_pair_t *a, size_t n, argus_valtype_t t) { VX_ASSERT(a == G_m && n == g_n && t == g_t, "deduplicates the option's entries by its own type"); g_uniq++; return g_left; }
#include "src0.c"
void harness(void) {
    argus_option_t o, old; argus_pair_t a[2]; G_m = a; o.value.as_map = a; g_n = nondet_size(); o.value_count = g_n; g_left = nondet_size(); VX_ASSUME(g_left <= g_n && (g_n == 0 || g_left >= 1));
    old = o; g_sorted = g_uniq = g_k = 0; g_t = o.value_type; g_U = (o.flags & FLAG_UNIQUE_VALUE) != 0;
    apply_map_flags(&o);
    int k = o.value_type == VALUE_TYPE_MAP_INT ? 1 : o.value_type == VALUE_TYPE_MAP_STRING ? 2 : o.value_type == VALUE_TYPE_MAP_FLOAT ? 3 : o.value_type == VALUE_TYPE_MAP_BOOL ? 4 : 0;
    if (o.flags & FLAG_SORTED_KEY) k = 5; else if (!(o.flags & FLAG_SORTED_VALUE)) k = 0;
    if (g_n >= 2) {
        VX_ASSERT(g_uniq == g_U && o.value_count == (g_U ? g_left : g_n), "entries with equal values removed exactly with the flag");
        VX_ASSERT((g_sorted == (k != 0) && g_k == k) || (g_sorted == 0 && o.value_count <= 1), "ordered exactly as the flags ask");
    } else VX_ASSERT(o.value_count == g_n, "at most one entry stays as it is");
    VX_ASSERT(o.value.as_map == old.value.as_map && o.flags == old.flags && o.value_type == old.value_type && o.value_capacity == old.value_capacity && o.is_allocated == old.is_allocated && o.is_set == old.is_set && o.name == old.name, "nothing else of the option changes");
    if (g_sorted && g_uniq) VX_REACH("both"); if (!g_sorted && g_uniq) VX_REACH("unique"); if (g_sorted && !g_uniq && g_k == 4) VX_REACH("sorted booleans"); if (!g_sorted && !g_uniq && g_n > 5) VX_REACH("untouched");
}
