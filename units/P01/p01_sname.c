//@ src utils/option_lookup.c
//@ desc find_option_by_sname returns the first OPTION entry whose short name equals the character, or NULL
//@ enforce find_option_by_sname
//@ fn find_option_by_sname 1
//@ loop 0
//@ assigns g_e
//@ hyp HYP({p0},{i})
//@ inv 0 <= {i} && {i} <= g_n && (g_k < {i} ==> !g_mk)
//@ dec g_n - {i}
#include "vx.h"
#include "argus/internal/utils.h"
size_t g_e, g_n, g_k; _Bool g_mk;
#define HYP(o, i) (g_e = (i)), __CPROVER_assume((i) < g_n ==> (o)[i].type != TYPE_NONE)
#define MATCH(o, c) ((o).type == TYPE_OPTION && (o).sname == (c))
argus_option_t *find_option_by_sname(argus_option_t *options, char sname)
__CPROVER_assigns(g_e);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffffff); g_n = n;
    argus_option_t o[n + 1]; char c;
    size_t k; VX_ASSUME(k < n); g_k = k;
    VX_ASSUME(o[n].type == TYPE_NONE);
    g_mk = MATCH(o[k], c);
    argus_option_t *r = find_option_by_sname(o, c);
    if (r == 0) { VX_ASSERT(!g_mk, "NULL only when no entry matches"); VX_REACH("not found"); }
    else {
        size_t x = g_e;
        VX_ASSERT(x < n, "result inside the table");
        VX_ASSERT(r == &o[x], "result is a table entry");
        VX_ASSERT(MATCH(o[x], c), "result matches");
        VX_ASSERT(!(k < x) || !g_mk, "no earlier match");
        VX_REACH("found");
    }
}
