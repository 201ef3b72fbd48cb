//@ src utils/option_lookup.c
//@ desc find_option_by_name returns the first entry of any kind whose name equals the argument, or NULL
//@ enforce find_option_by_name
//@ fn find_option_by_name 1
//@ loop 0
//@ assigns g_e
//@ hyp HYP({p0},{i})
//@ inv 0 <= {i} && {i} <= g_n && (g_k < {i} ==> !g_mk)
//@ dec g_n - {i}
//@ trust strcmp: returns 0 exactly for equal strings (equality is an uninterpreted relation)
#include "vx.h"
#include "argus/internal/utils.h"
size_t g_e, g_n, g_k; _Bool g_mk;
_Bool __CPROVER_uninterpreted_seq(const char *, const char *);
#define HYP(o, i) (g_e = (i)), __CPROVER_assume((i) < g_n ==> (o)[i].type != TYPE_NONE)
#define MATCH(o, l) ((o).name && __CPROVER_uninterpreted_seq((o).name, (l)))
int strcmp(const char *a, const char *b) {
    VX_ASSERT(a && b, "strcmp is given two strings");
    int r = nondet_int(); VX_ASSUME((r == 0) == __CPROVER_uninterpreted_seq(a, b)); return r;
}
argus_option_t *find_option_by_name(argus_option_t *options, const char *name)
__CPROVER_assigns(g_e);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffffff); g_n = n;
    argus_option_t o[n + 1]; const char *l; VX_ASSUME(l != 0);
    size_t k; VX_ASSUME(k < n); g_k = k;
    VX_ASSUME(o[n].type == TYPE_NONE);
    g_mk = MATCH(o[k], l);
    argus_option_t *r = find_option_by_name(o, l);
    if (r == 0) { VX_ASSERT(!g_mk, "NULL only when no entry matches"); VX_REACH("not found"); }
    else {
        size_t x = g_e;
        VX_ASSERT(x < n, "result inside the table");
        VX_ASSERT(r == &o[x], "result is a table entry");
        VX_ASSERT(MATCH(o[x], l), "result matches");
        VX_ASSERT(!(k < x) || !g_mk, "no earlier match");
        VX_REACH("found");
    }
}
