//@ src utils/multi_values.c
//@ desc apply_array_flags sorts exactly when the sorted flag is set, then deduplicates exactly when the unique flag is set, each time the option's own elements by its own element type, stores the new number of elements, and without the flags does nothing
//@ nodfcc
//@ enforce apply_array_flags
//@ drop sort_int_array sort_string_array sort_float_array make_int_array_unique make_string_array_unique make_float_array_unique
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
static argus_value_t *G_a; static size_t g_n, g_left; static int g_sorted, g_uniq, g_ks, g_ku;
static void srt(argus_value_t *a, size_t n, int k) { VX_ASSERT(a == G_a && n == g_n, "sorts the option's elements"); VX_ASSERT(!g_uniq, "sorts before removing duplicates"); g_sorted++; g_ks = k; }
static size_t unq(argus_value_t *a, size_t n, int k) { VX_ASSERT(a == G_a && n == g_n, "deduplicates the option's elements"); g_uniq++; g_ku = k; return g_left; }
void sort_int_array(argus_value_t *a, size_t n) { srt(a, n, 1); }
void sort_string_array(argus_value_t *a, size_t n) { srt(a, n, 2); }
void sort_float_array(argus_value_t *a, size_t n) { srt(a, n, 3); }
size_t make_int_array_unique(argus_value_t *a, size_t n) { return unq(a, n, 1); }
size_t make_string_array_unique(argus_value_t *a, size_t n) { return unq(a, n, 2); }
size_t make_float_array_unique(argus_value_t *a, size_t n) { return unq(a, n, 3); }
#include "src0.c"
void harness(void) {
    argus_option_t o, old; argus_value_t a[2]; G_a = a; o.value.as_array = a; g_n = nondet_size(); o.value_count = g_n; g_left = nondet_size(); VX_ASSUME(g_left <= g_n && (g_n == 0 || g_left >= 1));
    old = o; g_sorted = g_uniq = g_ks = g_ku = 0;
    apply_array_flags(&o);
    int k = o.value_type == VALUE_TYPE_ARRAY_INT || o.value_type == VALUE_TYPE_VARIADIC_INT ? 1 : o.value_type == VALUE_TYPE_ARRAY_STRING || o.value_type == VALUE_TYPE_VARIADIC_STRING ? 2 : o.value_type == VALUE_TYPE_ARRAY_FLOAT || o.value_type == VALUE_TYPE_VARIADIC_FLOAT ? 3 : 0;
    _Bool S = (o.flags & FLAG_SORTED) && k, U = (o.flags & FLAG_UNIQUE) && k;
    if (g_n >= 2) {
        VX_ASSERT(g_sorted == (S ? 1 : 0) && (!S || g_ks == k), "sorted exactly with the flag, by its own type");
        VX_ASSERT(g_uniq == (U ? 1 : 0) && (!U || g_ku == k), "deduplicated exactly with the flag, by its own type");
        VX_ASSERT(o.value_count == (U ? g_left : g_n), "number of elements");
    } else VX_ASSERT(o.value_count == g_n, "at most one element stays as it is");
    VX_ASSERT(o.value.as_array == old.value.as_array && o.flags == old.flags && o.value_type == old.value_type && o.value_capacity == old.value_capacity && o.is_allocated == old.is_allocated && o.is_set == old.is_set && o.validators == old.validators && o.name == old.name, "nothing else of the option changes");
    if (g_sorted && g_uniq) VX_REACH("both"); if (!g_sorted && g_uniq && k == 2) VX_REACH("unique texts"); if (g_sorted && !g_uniq) VX_REACH("sorted only"); if (!g_sorted && !g_uniq && g_n > 5) VX_REACH("untouched");
}
