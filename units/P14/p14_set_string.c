//@ src callbacks/handlers/map_string_handler.c
//@ drop map_string_handler free_map_string_handler
//@ desc set_kv_pair of map_string_handler: the key is the text before the first =, the value the converted text after it; an existing key keeps its place and gets the new value, a new one is appended; a part without =, with an invalid value or without memory changes neither the entries nor their number and keeps nothing
//@ enforce set_kv_pair
//@ trust strchr: the first occurrence or NULL (ISO C); strndup: NULL or a fresh copy of the asked prefix (unit p23_strndup)
//@ trust map_find_key, adjust_map_size by their contracts (discharged in units p14_find, p14_grow)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "argus/internal/cross_platform.h"
argus_option_t *G_o; argus_pair_t *G_m; size_t g_cap, g_eq, g_len; char *G_s, g_key[2], g_copy[2]; int g_klive, g_vlive, g_oldfreed, g_idx; _Bool g_has; char *G_oldtext;
char *strchr(const char *s, int c) { VX_MODEL(s == G_s && c == '=', "looks for the first ="); return g_has ? G_s + g_eq : (char *)0; }
#undef safe_strndup
#undef safe_strdup
static char *safe_strndup(const char *s, size_t n) { VX_ASSERT(s == G_s && g_has && n == g_eq, "the key is the text before the first ="); if (nondet_bool()) return 0; g_klive++; return g_key; }
static char *safe_strdup(const char *s) { VX_ASSERT(s == G_s + g_eq + 1, "the value is the text after the first ="); if (nondet_bool()) return 0; g_vlive++; return g_copy; }
int map_find_key(argus_option_t *o, const char *k) { VX_ASSERT(o == G_o && k == g_key && g_klive == 1, "looks for the key"); return g_idx; }
void adjust_map_size(argus_option_t *o) {
    VX_ASSERT(o == G_o && g_idx < 0, "grows only for a new key");
    if (o->value_count >= g_cap || nondet_bool()) { o->value_capacity = o->value_count; return; }
    o->value.as_map = G_m; o->value_capacity = g_cap; o->is_allocated = 1;
}
static void vx_free(const void *p) {
    if (p == (void *)g_key) { VX_ASSERT(g_klive == 1, "key released once"); g_klive--; }
    else if (p == (void *)g_copy) { VX_ASSERT(g_vlive == 1, "value released once"); g_vlive--; }
    else { VX_ASSERT(p == (void *)G_oldtext && g_idx >= 0 && !g_oldfreed, "only the replaced value is released"); g_oldfreed++; }
}
#define free vx_free
static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
__CPROVER_assigns(argus->error_code, option->value.as_map, option->value_capacity, option->is_allocated, option->value_count, g_klive, g_vlive, g_oldfreed; G_m != 0: __CPROVER_object_whole(G_m));
#include "src0.c"
void harness(void) {
    g_cap = nondet_size(); VX_ASSUME(g_cap < 0xffffff); argus_pair_t m[g_cap + 1]; G_m = m;
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len; char v[len + 1]; G_s = v; VX_ASSUME(v[len] == 0);
    g_has = nondet_bool(); g_eq = nondet_size(); VX_ASSUME(g_eq < len || !g_has); VX_ASSUME(IMPLIES(g_has, v[g_eq] == '=')); g_klive = g_vlive = g_oldfreed = 0;
    argus_t a; argus_option_t o; G_o = &o; o.value.as_map = nondet_bool() ? &m[0] : 0; VX_ASSUME(o.value.as_map ? o.value_count <= g_cap : o.value_count == 0);
    size_t n = o.value_count; g_idx = nondet_int(); VX_ASSUME(g_idx == -1 || (g_idx >= 0 && (size_t)g_idx < n));
    size_t k = nondet_size(); VX_ASSUME(n == 0 || k < n); size_t kk = n ? k : 0; argus_pair_t old = m[kk]; const char *okey = g_idx >= 0 ? m[g_idx].key : 0; G_oldtext = g_idx >= 0 ? m[g_idx].value.as_string : 0; VX_ASSUME(G_oldtext != g_copy && G_oldtext != g_key);
    _Bool good = 1; char *g_val = g_copy;
    int r = set_kv_pair(&a, &o, v);
#define SAMEV(x) ((x).as_string == g_val || g_val != g_val)
    VX_ASSERT(IMPLIES(n > 0, m[kk].key == old.key), "stored keys stay");
    VX_ASSERT(IMPLIES(n > 0 && (r != ARGUS_SUCCESS || (long long)kk != (long long)g_idx), m[kk].value.as_string == old.value.as_string || old.value.as_string != old.value.as_string), "other values stay");
    if (r == ARGUS_SUCCESS) {
        VX_ASSERT(g_has && good, "only a complete pair");
        if (g_idx >= 0) { VX_ASSERT(o.value_count == n && SAMEV(m[g_idx].value) && m[g_idx].key == okey && g_klive == 0, "the key gets the new value in its place"); VX_REACH("updated"); }
        else { VX_ASSERT(o.value_count == n + 1 && n + 1 <= g_cap && o.value.as_map == m && m[n].key == g_key && SAMEV(m[n].value) && g_klive == 1, "a new key is appended with its value"); VX_REACH("appended"); if (n == 0) VX_REACH("first"); }
        VX_ASSERT(g_vlive == 1 && g_oldfreed == (g_idx >= 0), "the new value is kept, the replaced one released");
    } else {
        VX_ASSERT(o.value_count == n && g_klive == 0 && g_vlive == 0 && g_oldfreed == 0, "nothing changes, nothing is kept");
        VX_ASSERT(IMPLIES(!g_has, r == ARGUS_ERROR_INVALID_FORMAT) && IMPLIES(r == ARGUS_ERROR_INVALID_FORMAT, !g_has), "format error exactly without =");
        VX_ASSERT(r == ARGUS_ERROR_INVALID_FORMAT || r == ARGUS_ERROR_MEMORY || (r == ARGUS_ERROR_INVALID_VALUE && !good), "value error only for an invalid value");
        if (!g_has) VX_REACH("no ="); else if (good) VX_REACH("no memory");
    }
}
