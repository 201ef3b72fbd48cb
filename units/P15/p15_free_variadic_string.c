//@ src callbacks/handlers/variadic_string_handler.c
//@ drop variadic_string_handler
//@ desc free_variadic_string_handler releases the text of every element exactly once, then the block itself exactly once, for any number of elements
//@ enforce free_variadic_string_handler
//@ fn free_variadic_string_handler 1
//@ loop 0
//@ assigns g_i; g_c; g_f
//@ hyp step({i})
//@ inv {i} <= g_n && g_f == (g_k < {i} ? 1 : 0) && (g_c == 1 || {i} == 0) && ({i} == 0 || g_i + 1 == {i})
//@ dec g_n - {i}
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "argus/internal/cross_platform.h"
argus_value_t *G_a; size_t g_n, g_i, g_k, g_c; int g_f, g_b;
/* the block and the texts are separate */
static void step(size_t i) { g_i = i; g_c = 0; VX_ASSUME(G_a[i].as_string != (char *)G_a); }
static void vx_free(void *p) {
    if (p == (void *)G_a) { VX_ASSERT(g_b == 0 && (g_n == 0 || g_i == g_n), "the block once, after its elements"); g_b++; return; }
    VX_ASSERT(g_b == 0 && g_c == 0 && p == (void *)G_a[g_i].as_string, "the text of the element at hand, once"); g_c++; if (g_i == g_k) g_f++;
}
#define free vx_free
int free_variadic_string_handler(argus_option_t *option)
__CPROVER_assigns(g_i, g_c, g_f, g_b);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0xffffff); g_n = n; argus_value_t a[n + 1]; G_a = a; g_f = g_b = 0; g_i = g_c = 0; VX_ASSUME(g_k < n || n == 0);
    argus_option_t o; o.value.as_array = a; o.value_count = n; VX_ASSUME(IMPLIES(n > 0, a[g_k].as_string != (char *)a));
    free_variadic_string_handler(&o);
    VX_ASSERT(g_b == 1 && (n == 0 || g_f == 1), "every text and the block released once"); if (n > 3) VX_REACH("many"); if (n == 0) VX_REACH("none");
}
