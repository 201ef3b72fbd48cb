//@ src core/validation/validate_structure.c
//@ drop validate_structure
//@ desc lname_is_unique: succeeds exactly when no later definition has the long name as its long name or name; a report is written exactly for a clash
//@ enforce lname_is_unique
//@ fn lname_is_unique 1
//@ loop 0
//@ assigns g_e; g_eqn; g_eql; g_any; g_rep
//@ hyp next({p0}, {i})
//@ inv g_i < {i} && {i} <= g_n && ({l:int#0} != 0) == g_any && g_rep == g_any
//@ inv g_i < g_k && g_k < {i} && g_bad ==> g_any
//@ dec g_n - {i}
//@ trust strcmp: 0 exactly for equal texts (equality is a ghost flag of the pair)
//@ trust argus_struct_error (inline): evaluates its arguments and prints; recorded by a ghost
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/errors.h"
int g_e, g_n, g_i, g_k; _Bool g_eqn, g_eql, g_any, g_rep, g_bad; argus_option_t *G_t;
static void rep(argus_option_t *o) { VX_ASSERT(o == &G_t[g_i] && g_any, "a report is about the definition whose long name clashes"); g_rep = 1; }
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
static void next(argus_option_t *o, int i) {
    g_e = i;
    if (i < g_n) {
        VX_ASSUME(o[i].type != TYPE_NONE); g_eqn = nondet_bool(); g_eql = nondet_bool(); VX_ASSUME(IMPLIES(o[i].name == o[i].lname, g_eqn == g_eql));
        _Bool c = (o[i].name && g_eqn) || (o[i].lname && g_eql); if (i == g_k) VX_ASSUME(c == g_bad); if (c) g_any = 1;
    }
}
int strcmp(const char *a, const char *b) {
    const char *l = G_t[g_i].lname, *x = a == l ? b : a; VX_MODEL(g_e < g_n && l && x && (a == l || b == l) && (x == G_t[g_e].name || x == G_t[g_e].lname), "compares the long name with a later definition's names");
    int r = nondet_int(); VX_ASSUME((r == 0) == (x == G_t[g_e].name ? g_eqn : g_eql)); return r;
}
static int lname_is_unique(argus_option_t *options, int i)
__CPROVER_assigns(g_e, g_eqn, g_eql, g_any, g_rep);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 < n && n < 0x7ffffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t;
    g_i = nondet_int(); VX_ASSUME(0 <= g_i && g_i < n); g_k = nondet_int(); VX_ASSUME(g_i < g_k && g_k < n); g_bad = nondet_bool(); g_any = g_rep = 0; _Bool has = t[g_i].lname != 0;
    int r = lname_is_unique(t, g_i);
    VX_ASSERT((r == ARGUS_SUCCESS) == !g_any && g_rep == g_any, "succeeds exactly when there is no clash and reports each");
    if (has) VX_ASSERT(IMPLIES(g_bad, r != 0), "a clash at any later place is found"); else VX_ASSERT(r == 0 && !g_any, "nothing to check");
    if (r == 0) { if (has && n > 3) VX_REACH("unique"); if (!has) VX_REACH("no long name"); } else VX_REACH("clash");
}
