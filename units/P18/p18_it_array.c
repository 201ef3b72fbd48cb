//@ src api/argus_value_access.c
//@ desc argus_array_it, argus_array_next, argus_array_reset: iterating a collection of any size yields every element exactly once in stored order, then ends and stays ended; a reset starts again; a path that denotes no such collection yields nothing; no option is changed
//@ enforce argus_array_it
//@ enforce argus_array_next
//@ enforce argus_array_reset
//@ fn argus_map_get 1
//@ loop 0 skip
//@ trust find_option_by_active_path by its contract (discharged in P17)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
argus_option_t g_o; _Bool g_has; const char *G_n; argus_option_t *G_tab; argus_value_t *G_arr; size_t g_n, g_seen;
argus_option_t *find_option_by_active_path(argus_t a, const char *p) { VX_ASSERT(p == G_n && a.options == G_tab, "the path given"); return g_has ? &g_o : 0; }
argus_array_it_t argus_array_it(argus_t *argus, const char *option_path)
__CPROVER_requires(1) __CPROVER_ensures(1) __CPROVER_assigns();
bool argus_array_next(argus_array_it_t *it)
__CPROVER_assigns(it != 0: *it);
void argus_array_reset(argus_array_it_t *it)
__CPROVER_assigns(it != 0: *it);
#include "src0.c"
/* a client that visits the whole collection, from any reset */
void harness(void) {
    argus_t a; char nm[1]; argus_option_t tab[1]; a.options = tab; G_tab = tab; G_n = nondet_bool() ? &nm[0] : 0; argus_option_t f; size_t n; VX_ASSUME(n < 0xfffffff);
    argus_value_t *arr = __CPROVER_allocate(n * sizeof(argus_value_t), 0); G_arr = arr; _Bool coll = (f.value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC)) != 0; if (coll) { f.value.as_array = n ? arr : 0; f.value_count = n; } g_o = f; g_has = nondet_bool(); g_n = g_has && coll ? n : 0;
    argus_array_it_t it = argus_array_it(&a, G_n); VX_ASSERT(it._count == g_n && it._position == 0 && IMPLIES(g_n > 0, it._array == arr), "starts before the first element of the collection");
    /* invariant of any history of steps and resets: the collection is the same and position elements were yielded since the start */
    it._position = nondet_size(); VX_ASSUME(it._position <= g_n); g_seen = it._position; if (nondet_bool()) { it.value.raw = nondet_size(); }
    argus_array_it_t before = it;
    if (nondet_bool()) {
        bool more = argus_array_next(&it);
        VX_ASSERT(it._count == before._count && it._array == before._array, "the collection stays");
        if (more) { VX_ASSERT(g_seen < g_n && it._position == g_seen + 1, "one step"); VX_ASSERT(it.value.raw == G_arr[g_seen].raw && it.value.as_int64 == G_arr[g_seen].as_int64 && it.value.as_string == G_arr[g_seen].as_string, "the next element in stored order"); if (g_seen > 3) VX_REACH("element"); }
        else { VX_ASSERT(g_seen == g_n && it._position == g_n, "ends exactly after the last element, and stays ended"); VX_REACH("end"); }
    } else {
        argus_array_reset(&it); VX_ASSERT(it._count == before._count && it._array == before._array && it._position == 0, "starts again"); VX_REACH("reset");
    }
    VX_ASSERT(!argus_array_next(0), "no iterator"); argus_array_reset(0);
    VX_ASSERT(g_o.value.as_array == f.value.as_array && g_o.value_count == f.value_count, "the option is not changed");
}
