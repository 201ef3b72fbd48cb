//@ src utils/multi_values.c
//@ desc map_find_key: the index of the first entry with exactly that key, -1 when there is none, for any number of entries; reads only
//@ enforce map_find_key
//@ fn map_find_key 1
//@ loop 0
//@ assigns g_i
//@ hyp g_i = {i}
//@ inv {i} <= g_n && (g_k < {i} ==> !(G_m[g_k].key != 0 && CLS(G_m[g_k].key) == g_cls))
//@ dec g_n - {i}
//@ trust strcmp is 0 exactly within a class of texts (ISO C)
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include <string.h>
argus_pair_t *G_m; size_t g_n, g_i, g_k; uintptr_t g_cls; const char *G_key;
#define CLS(p) ((uintptr_t)(p) >> 32)
int strcmp(const char *a, const char *b) { VX_ASSERT(a && b, "compares two texts"); VX_MODEL(a == G_key || b == G_key, "compares with the asked key"); int r = nondet_int(); VX_ASSUME((r == 0) == (CLS(a) == CLS(b))); return r; }
int map_find_key(argus_option_t *option, const char *key)
__CPROVER_assigns(g_i);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7ffffff); g_n = n; argus_pair_t m[n + 1]; G_m = m; argus_option_t o; o.value.as_map = m; o.value_count = n;
    const char *key = nondet_ptr(); VX_ASSUME(key != 0); G_key = key; g_cls = CLS(key); g_k = nondet_size();
    int r = map_find_key(&o, key);
    VX_ASSERT(r >= -1 && (r < 0 || (size_t)r < n), "an index or -1");
    if (r >= 0) { VX_ASSERT(m[r].key && CLS(m[r].key) == g_cls, "an entry with exactly that key"); VX_ASSERT(IMPLIES(g_k < (size_t)r, !(m[g_k].key && CLS(m[g_k].key) == g_cls)), "the first one"); VX_REACH("found"); }
    else { VX_ASSERT(IMPLIES(g_k < n, !(m[g_k].key && CLS(m[g_k].key) == g_cls)), "there is none"); if (n > 3) VX_REACH("none"); }
}
