//@ src utils/option_lookup.c
//@ drop find_option_by_active_path find_from_relative_path
//@ desc count_components: the number of dots in a path of any length
//@ enforce count_components
//@ fn count_components 1
//@ loop 0 ptr
//@ assigns g_c; g_at
//@ hyp at(__CPROVER_POINTER_OFFSET({i})), ({i} = G_p + g_at)
//@ inv __CPROVER_same_object({i}, G_p) && __CPROVER_POINTER_OFFSET({i}) <= g_n && {l:size_t} == g_c && g_c <= __CPROVER_POINTER_OFFSET({i})
//@ inv __CPROVER_POINTER_OFFSET({i}) == 0 ? g_c == 0 : g_at + 1 == __CPROVER_POINTER_OFFSET({i})
//@ dec g_n - __CPROVER_POINTER_OFFSET({i})
#include "vx.h"
#include "argus/internal/utils.h"
char *G_p; size_t g_n, g_c, g_at;
static void at(size_t i) { g_at = i; if (i < g_n) { VX_ASSUME(G_p[i] != 0); if (G_p[i] == '.') g_c++; } }
static size_t count_components(const char *path)
__CPROVER_assigns(g_c, g_at);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffffff); g_n = n; char p[n + 1]; VX_ASSUME(p[n] == 0); G_p = p; g_c = 0; g_at = 0;
    size_t r = count_components(p);
    VX_ASSERT(r == g_c && g_at == n, "every dot of the whole path is counted once"); if (n > 3 && r > 1) VX_REACH("dots"); if (n == 0) VX_REACH("empty");
}
