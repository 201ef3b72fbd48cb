//@ src callbacks/handlers/map_float_handler.c
//@ drop set_kv_pair map_float_handler
//@ desc free_map_float_handler releases the key of every entry exactly once, then the block itself exactly once, for any number of entries; nothing without a block
//@ enforce free_map_float_handler
//@ fn free_map_float_handler 1
//@ loop 0
//@ assigns g_i; g_c; g_v; g_f; g_fv
//@ hyp step({i})
//@ inv {i} <= g_n && g_f == (g_k < {i} ? 1 : 0) && g_fv == (TEXT && g_k < {i} ? 1 : 0) && (g_c == 1 || {i} == 0) && (g_v == TEXT || {i} == 0) && ({i} == 0 || g_i + 1 == {i})
//@ dec g_n - {i}
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "argus/internal/cross_platform.h"
#define TEXT 0
argus_pair_t *G_m; size_t g_n, g_i, g_k, g_c, g_v; int g_f, g_fv, g_b;
/* the block and the texts are separate */
static void step(size_t i) { g_i = i; g_c = g_v = 0; VX_ASSUME(G_m[i].key != (const char *)G_m && G_m[i].value.as_string != (char *)G_m); }
static void vx_free(const void *p) {
    if (p == (void *)G_m) { VX_ASSERT(g_b == 0 && (g_n == 0 || g_i == g_n), "the block once, after its entries"); g_b++; return; }
    VX_ASSERT(g_b == 0, "nothing after the block");
    if (p == (const void *)G_m[g_i].key && g_c == 0) { g_c++; if (g_i == g_k) g_f++; return; }
    VX_ASSERT(TEXT && g_v == 0 && p == (const void *)G_m[g_i].value.as_string, "only the texts of the entry at hand, once each"); g_v++; if (g_i == g_k) g_fv++;
}
#define free vx_free
int free_map_float_handler(argus_option_t *option)
__CPROVER_assigns(g_i, g_c, g_v, g_f, g_fv, g_b);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0xffffff); g_n = n; argus_pair_t m[n + 1]; G_m = m; g_f = g_fv = g_b = 0; g_i = g_c = g_v = 0; VX_ASSUME(g_k < n || n == 0);
    argus_option_t o; _Bool none = nondet_bool(); o.value.as_map = none ? 0 : &m[0]; o.value_count = n; VX_ASSUME(!none || n == 0);
    free_map_float_handler(&o);
    if (none) { VX_ASSERT(g_b == 0 && g_f == 0, "no block, nothing released"); VX_REACH("no block"); }
    else { VX_ASSERT(g_b == 1 && (n == 0 || (g_f == 1 && g_fv == TEXT)), "every text and the block released once"); if (n > 3) VX_REACH("many"); if (n == 0) VX_REACH("none"); }
}
