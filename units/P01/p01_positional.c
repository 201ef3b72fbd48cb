//@ src utils/option_lookup.c
//@ desc find_positional returns the first POSITIONAL entry that is variadic or whose rank among the positionals is the position, or NULL
//@ enforce find_positional
//@ fn find_positional 1
//@ loop 0
//@ assigns g_e
//@ hyp HYP({p0},{i})
//@ inv 0 <= {i} && {i} <= g_n && {v0} == g_rank[{i}] && {v0} <= {i} && {v0} >= 0 && (g_k < {i} ==> !g_mk)
//@ dec g_n - {i}
#include "vx.h"
#include "argus/internal/utils.h"
size_t g_e, g_n, g_k; _Bool g_mk;
int *g_rank;   /* g_rank[i]: number of positionals before entry i (defined by recursion, one instance per iteration) */
#define HYP(o, i) (g_e = (i)), __CPROVER_assume((i) < g_n ==> (o)[i].type != TYPE_NONE), \
    __CPROVER_assume((i) < g_n ==> g_rank[(i) + 1] == g_rank[i] + ((o)[i].type == TYPE_POSITIONAL))
#define MATCH(o, r, p) ((o).type == TYPE_POSITIONAL && (((o).value_type & VALUE_TYPE_VARIADIC) || (r) == (p)))
argus_option_t *find_positional(argus_option_t *options, int position)
__CPROVER_assigns(g_e);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffffff); g_n = n;
    argus_option_t o[n + 1]; int p;
    int rank[n + 1]; g_rank = rank; VX_ASSUME(rank[0] == 0);
    size_t k; VX_ASSUME(k < n); g_k = k;
    VX_ASSUME(o[n].type == TYPE_NONE);
    g_mk = MATCH(o[k], rank[k], p);
    argus_option_t *r = find_positional(o, p);
    if (r == 0) { VX_ASSERT(!g_mk, "NULL only when no entry matches"); VX_REACH("not found"); }
    else {
        size_t x = g_e;
        VX_ASSERT(x < n, "result inside the table");
        VX_ASSERT(r == &o[x], "result is a table entry");
        VX_ASSERT(MATCH(o[x], rank[x], p), "result matches");
        VX_ASSERT(!(k < x) || !g_mk, "no earlier match");
        VX_REACH("found");
    }
}
