//@ src utils/multi_values.c
//@ desc make_int_array_unique: no two remaining elements are equal, every given value stays represented, kept elements are the first occurrences, unchanged and in their order
//@ enforce make_int_array_unique
//@ fn make_int_array_unique 2
//@ loop 0
//@ assigns g_i; g_u; g_j; g_w; g_freed; __CPROVER_object_whole(G_a)
//@ hyp step({i}, {l:size_t#0})
//@ inv {i} <= g_n && 1 <= {l:size_t#0} && {l:size_t#0} <= {i}
//@ inv g_k >= {i} ==> G_a[g_k].raw == g_ok.raw
//@ inv g_k < {i} ==> WIT({i}) < {l:size_t#0} && EQ(G_a[WIT({i})], g_ok)
//@ inv g_q < {l:size_t#0} ==> !EQ(G_a[g_p], G_a[g_q])
//@ inv {i} > 1 ==> g_i + 1 == {i} && ({l:size_t#0} == g_u || {l:size_t#0} == g_u + 1) && ({l:size_t#0} == g_u + 1 && g_i == g_k ==> G_a[{l:size_t#0} - 1].raw == g_ok.raw)
//@ dec g_n - {i}
//@ loop 1
//@ assigns g_j; g_freed
//@ hyp g_j = {i}
//@ inv {i} <= {l:size_t#0} && !{l:bool} && !g_freed && (g_p < {i} ==> !EQ(G_a[g_p], G_a[g_i])) && (g_q < {i} ==> !EQ(G_a[g_q], G_a[g_i]))
//@ dec {l:size_t#0} - {i}

#include "vx.h"
#include "argus/internal/utils.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
argus_value_t *G_a, g_ok; size_t g_n, g_i, g_u, g_j, g_w, g_k, g_p, g_q; _Bool g_freed;
#define CLS(p) ((uintptr_t)(p) >> 32)
#define EQ(x, y) ((x).as_int == (y).as_int)
#define WIT(i) ((i) == g_k + 1 ? g_j : g_w)
/* ghost step at the head of each round: i is the element looked at, u the number kept so far */
static void step(size_t i, size_t u) { if (i == g_k + 1) g_w = g_j; g_i = i; g_u = u; g_freed = 0; }
size_t make_int_array_unique(argus_value_t *array, size_t count)
__CPROVER_assigns(g_i, g_u, g_j, g_w, g_freed; G_a != 0: __CPROVER_object_whole(G_a));
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffff); g_n = n; argus_value_t a[n + 1]; G_a = a; g_j = g_w = 0; g_freed = 0;
    VX_ASSUME(g_k < n && g_p < g_q && g_q < n); g_ok = a[g_k];  
    size_t r = make_int_array_unique(a, n);
    VX_ASSERT(r <= n && (n == 0 || r >= 1), "number of remaining elements");
    if (n > 1) { size_t w = WIT(n); VX_ASSERT(w < r && EQ(a[w], g_ok), "every given value stays represented"); VX_ASSERT(IMPLIES(g_q < r, !EQ(a[g_p], a[g_q])), "no two remaining elements are equal"); if (r < n && r > 3) VX_REACH("removed"); if (r == n && n > 3) VX_REACH("all kept"); }
    else VX_ASSERT(r == n && IMPLIES(n == 1, a[0].raw == g_ok.raw), "nothing to do");
}
