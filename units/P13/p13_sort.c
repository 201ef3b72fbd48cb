//@ src utils/multi_values.c
//@ desc every sort function hands qsort exactly its collection (base, number, element size) with a comparison that orders any two elements by the intended key: the sign of the order, 0 exactly for equal keys (NaN and absent texts excluded)
//@ nodfcc
//@ enforce sort_int_array sort_string_array sort_float_array sort_map_by_keys sort_map_by_int_values sort_map_by_string_values sort_map_by_float_values sort_map_by_bool_values
//@ trust qsort orders what it is given by a comparison that is a total preorder, and only permutes it (C standard)
//@ trust strcmp orders texts totally (texts are identified with their rank)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#define RANK(p) ((uintptr_t)(p))
int strcmp(const char *a, const char *b) { VX_ASSERT(a && b, "compares two texts"); int r = nondet_int(); VX_ASSUME((r < 0) == (RANK(a) < RANK(b)) && (r == 0) == (RANK(a) == RANK(b))); return r; }
static void *G_base; static size_t g_n, g_size, g_calls; static int g_kind;
#define SGN(x) (((x) > 0) - ((x) < 0))
#define ORD(x, y) (((x) > (y)) - ((x) < (y)))
void qsort(void *base, size_t n, size_t size, int (*cmp)(const void *, const void *)) {
    VX_ASSERT(base == G_base && n == g_n && size == g_size, "sorts exactly the collection");
    g_calls++;
    if (g_kind < 3) {
        argus_value_t x, y; int r = cmp(&x, &y);
        if (g_kind == 0) VX_ASSERT(SGN(r) == ORD(x.as_int, y.as_int), "orders by the integer");
        if (g_kind == 1) VX_ASSERT(IMPLIES(x.as_string && y.as_string, SGN(r) == ORD(RANK(x.as_string), RANK(y.as_string))), "orders by the text");
        if (g_kind == 2) VX_ASSERT(IMPLIES(x.as_float == x.as_float && y.as_float == y.as_float, SGN(r) == ORD(x.as_float, y.as_float)), "orders by the number");
        VX_REACH("two elements compared");
    } else {
        argus_pair_t x, y; int b = nondet_bool(), c = nondet_bool(); if (g_kind == 7) { x.value.as_bool = b; y.value.as_bool = c; }
        int r = cmp(&x, &y);
        if (g_kind == 3) VX_ASSERT(IMPLIES(x.key && y.key, SGN(r) == ORD(RANK(x.key), RANK(y.key))), "orders by the key");
        if (g_kind == 4) VX_ASSERT(SGN(r) == ORD(x.value.as_int, y.value.as_int), "orders by the integer value");
        if (g_kind == 5) VX_ASSERT(IMPLIES(x.value.as_string && y.value.as_string, SGN(r) == ORD(RANK(x.value.as_string), RANK(y.value.as_string))), "orders by the text value");
        if (g_kind == 6) VX_ASSERT(IMPLIES(x.value.as_float == x.value.as_float && y.value.as_float == y.value.as_float, SGN(r) == ORD(x.value.as_float, y.value.as_float)), "orders by the number value");
        if (g_kind == 7) VX_ASSERT(SGN(r) == ORD(b, c), "orders by the boolean value");
        VX_REACH("two pairs compared");
    }
}
#include "src0.c"
void harness(void) {
    size_t n = nondet_size(); VX_ASSUME(n < 0x7fffffff); g_n = n; g_calls = 0; g_kind = nondet_int();
    argus_value_t a[2]; argus_pair_t m[2]; G_base = g_kind < 3 ? (void *)a : (void *)m; g_size = g_kind < 3 ? sizeof(argus_value_t) : sizeof(argus_pair_t);
    switch (g_kind) {
    case 0: sort_int_array(a, n); break;
    case 1: sort_string_array(a, n); break;
    case 2: sort_float_array(a, n); break;
    case 3: sort_map_by_keys(m, n); break;
    case 4: sort_map_by_int_values(m, n); break;
    case 5: sort_map_by_string_values(m, n); break;
    case 6: sort_map_by_float_values(m, n); break;
    case 7: sort_map_by_bool_values(m, n); break;
    default: return;
    }
    VX_ASSERT(g_calls == 1 || n <= 1, "a collection of at least two elements is sorted");
    if (g_calls == 1) VX_REACH("sorted"); if (n == 1) VX_REACH("single");
}
