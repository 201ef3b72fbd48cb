//@ src api/argus_value_access.c
//@ desc argus_get, argus_is_set, argus_count: the value, set mark and count of exactly the option the path denotes; zero, false and zero (argus_get: with its error) when it denotes nothing; the option is not changed
//@ enforce argus_get
//@ enforce argus_is_set
//@ enforce argus_count
//@ fn argus_map_get 1
//@ loop 0 skip
//@ trust find_option_by_active_path by its contract (discharged in P17)
#include "vx.h"
#include "argus/internal/utils.h"
argus_option_t g_o; _Bool g_has; const char *G_n; int g_calls; argus_option_t *G_tab;
argus_option_t *find_option_by_active_path(argus_t a, const char *p) { VX_ASSERT(p == G_n && a.options == G_tab, "the path given"); return g_has ? &g_o : 0; }
argus_value_t argus_get(argus_t *argus, const char *option_path)
__CPROVER_assigns(argus->error_code);
bool argus_is_set(argus_t *argus, const char *option_path)
__CPROVER_assigns(argus->error_code);
size_t argus_count(argus_t *argus, const char *option_path)
__CPROVER_assigns(argus->error_code);
#include "src0.c"
void harness(void) {
    argus_t a; char nm[1]; argus_option_t tab[1]; a.options = tab; G_tab = tab; G_n = nondet_bool() ? &nm[0] : 0; argus_option_t f; g_o = f; g_has = nondet_bool();
    argus_value_t v = argus_get(&a, G_n); int e = a.error_code; bool s = argus_is_set(&a, G_n); size_t c = argus_count(&a, G_n);
    if (g_has) { VX_ASSERT(v.raw == f.value.raw && e == ARGUS_SUCCESS, "the value"); VX_ASSERT(s == f.is_set, "the mark"); VX_ASSERT(c == f.value_count, "the count"); VX_REACH("found"); }
    else { VX_ASSERT(v.raw == 0 && e == ARGUS_ERROR_NO_VALUE, "no value, its error"); VX_ASSERT(!s && c == 0, "nothing set, nothing counted"); VX_REACH("nothing"); }
}
