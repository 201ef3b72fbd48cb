//@ src api/argus_free.c
//@ drop argus_free
//@ desc free_options releases every entry of the table exactly once, in a table of any length, and stops at its end
//@ enforce free_options
//@ fn free_options 1
//@ loop 0 ptr
//@ assigns g_i; g_d; g_f
//@ hyp (g_i = (size_t)__CPROVER_POINTER_OFFSET({i}) / sizeof(argus_option_t)), ({i} = G_t + g_i), (g_d = 0)
//@ inv __CPROVER_same_object({i}, G_t) && __CPROVER_POINTER_OFFSET({i}) % sizeof(argus_option_t) == 0 && __CPROVER_POINTER_OFFSET({i}) / sizeof(argus_option_t) <= g_n
//@ inv g_f == (g_k < __CPROVER_POINTER_OFFSET({i}) / sizeof(argus_option_t) ? 1 : 0) && (__CPROVER_POINTER_OFFSET({i}) == 0 || (g_d == 1 && g_i + 1 == __CPROVER_POINTER_OFFSET({i}) / sizeof(argus_option_t)))
//@ dec g_n * sizeof(argus_option_t) - __CPROVER_POINTER_OFFSET({i})
//@ trust free_option_value by its contract (discharged in p15_option)
#include "vx.h"
#include "argus/internal/utils.h"
argus_option_t *G_t; size_t g_n, g_i, g_k, g_d; int g_f;
void free_option_value(argus_option_t *o) { VX_ASSERT(o == G_t + g_i && g_d == 0 && g_i < g_n, "the entry at hand, once"); g_d++; if (g_i == g_k) g_f++; }
static void free_options(argus_option_t *options)
__CPROVER_assigns(g_i, g_d, g_f);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0xfffff); argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; g_n = n; g_f = 0; g_d = 0; VX_ASSUME(g_k < n || n == 0);
    size_t e = nondet_size(); VX_ASSUME(e <= n && t[e].type == TYPE_NONE && (n == 0 || e <= g_k || t[g_k].type != TYPE_NONE));
    free_options(t);
    size_t end = g_i; VX_ASSERT(t[end].type == TYPE_NONE, "stops at the end of the table only");
    VX_ASSERT(IMPLIES(n > 0, g_f == (g_k < end ? 1 : 0)), "every entry before the end was released once"); if (end > 3) VX_REACH("many"); if (end == 0) VX_REACH("empty");
}
