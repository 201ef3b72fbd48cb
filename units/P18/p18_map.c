//@ src api/argus_value_access.c
//@ desc argus_map_get: the value of the first entry with exactly that key when the path denotes a map that has one (any size); otherwise a zero value with the error for unknown option, wrong type or unknown key; nothing is read outside the entries and nothing is changed
//@ enforce argus_map_get
//@ fn argus_map_get 1
//@ loop 0
//@ assigns g_e
//@ hyp next({i})
//@ inv {i} <= g_n && (g_k < {i} ==> !g_kmatch)
//@ dec g_n - {i}
//@ trust find_option_by_active_path by its contract (discharged in P17); strcmp: 0 exactly for equal strings (equality is an uninterpreted relation)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
argus_option_t g_o; _Bool g_has, g_kmatch; const char *G_n, *G_key; argus_option_t *G_tab; argus_pair_t *G_m; size_t g_n, g_k, g_e;
static void next(size_t i) { g_e = i; }
argus_option_t *find_option_by_active_path(argus_t a, const char *p) { VX_ASSERT(p == G_n && a.options == G_tab, "the path given"); return g_has ? &g_o : 0; }
_Bool __CPROVER_uninterpreted_seq(const char *, const char *);
int strcmp(const char *a, const char *b) {
    VX_ASSERT(a && b, "two strings"); if (a == G_key) { const char *t = a; a = b; b = t; } VX_MODEL(b == G_key, "with the key asked for");
    int r = nondet_int(); VX_ASSUME((r == 0) == __CPROVER_uninterpreted_seq(a, b)); return r;
}
argus_value_t argus_map_get(argus_t *argus, const char *option_path, const char *key)
__CPROVER_assigns(argus->error_code, g_e);
#include "src0.c"
void harness(void) {
    argus_t a; char nm[1], key[1]; argus_option_t tab[1]; a.options = tab; G_tab = tab; G_n = nondet_bool() ? &nm[0] : 0; argus_option_t f; size_t n; VX_ASSUME(n < 0xfffffff);
    argus_pair_t *m = __CPROVER_allocate(n * sizeof(argus_pair_t), 0); G_m = m; g_n = n; if (f.value_type & VALUE_TYPE_MAP) { f.value.as_map = n ? m : 0; f.value_count = n; } g_o = f; g_has = nondet_bool();
    G_key = nondet_bool() ? &key[0] : 0; g_k = nondet_size(); VX_ASSUME(g_k < n || n == 0);
    g_kmatch = n > 0 && G_key && m[g_k].key && __CPROVER_uninterpreted_seq(m[g_k].key, G_key);
    argus_value_t v = argus_map_get(&a, G_n, G_key);
    if (!g_has) { VX_ASSERT(v.raw == 0 && a.error_code == ARGUS_ERROR_NO_VALUE, "unknown option"); VX_REACH("unknown"); return; }
    if (!(f.value_type & VALUE_TYPE_MAP)) { VX_ASSERT(v.raw == 0 && a.error_code == ARGUS_ERROR_INVALID_TYPE, "wrong kind"); VX_REACH("kind"); return; }
    if (a.error_code != ARGUS_SUCCESS) { VX_ASSERT(v.raw == 0 && a.error_code == ARGUS_ERROR_INVALID_KEY && !g_kmatch, "unknown key only when no entry has it"); VX_REACH("key"); return; }
    size_t x = g_e; VX_ASSERT(G_key && x < n && m[x].key && __CPROVER_uninterpreted_seq(m[x].key, G_key), "an entry of that key"); VX_ASSERT(IMPLIES(g_k < x, !g_kmatch), "the first");
    VX_ASSERT(v.raw == m[x].value.raw && v.as_int64 == m[x].value.as_int64 && v.as_string == m[x].value.as_string, "its value"); if (x > 3) VX_REACH("value");
}
