//@ src core/validation/validate_structure.c
//@ drop validate_placement validate_naming validate_type_format
//@ selfcall validate_structure
//@ desc validate_structure: succeeds exactly when placement, naming and completeness hold for the table and, for every subcommand with a table, the nesting is not too deep and its table passes; the nesting depth is counted exactly
//@ enforce validate_structure
//@ fn validate_structure 1
//@ loop 0
//@ assigns g_e; g_any; g_rep; g_in; G_d; g_seen
//@ hyp next({p1}, {i}, &{s:int})
//@ inv 0 <= {i} && {i} <= g_n && ({l:int#0} != 0) == g_any && (g_in ==> {s:int} == g_d0)
//@ inv ({i} > 0 ==> g_in) && (g_in ==> G_d == &{s:int})
//@ inv (g_k < {i} && g_bad ==> g_any) && (g_k < {i} && g_sub ==> g_seen == 1) && (g_k >= {i} || !g_sub ==> g_seen == 0)
//@ inv g_p || g_nm || g_t ==> g_any
//@ dec g_n - {i}
//@ trust validate_placement, validate_naming, validate_type_format: their status (discharged in p20_placement, p20_naming, p20_types)
//@ trust the recursive call is seen through this contract (induction over the nesting of the tables, which is finite)
//@ trust the depth counter of the enclosing calls is an arbitrary number from 0 to 8
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/errors.h"
int g_e, g_n, g_k, g_d0, g_p, g_nm, g_t, g_seen, *G_d; _Bool g_any, g_rep, g_bad, g_in, g_sub; argus_option_t *G_t; argus_t *G_a;
static void rep(argus_option_t *o) { VX_ASSERT(g_e < g_n && o == &G_t[g_e] && o->type == TYPE_SUBCOMMAND && g_d0 + 1 > MAX_SUBCOMMAND_DEPTH, "a report is about a subcommand that is nested too deep"); g_rep = 1; }
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
static void next(argus_option_t *o, int i, int *d) {
    g_e = i; if (!g_in) { g_in = 1; VX_ASSUME(*d == g_d0); G_d = d; }
    if (i < g_n) VX_ASSUME(o[i].type != TYPE_NONE);
}
int validate_placement(argus_option_t *o) { VX_ASSERT(o == G_t && !g_p, "the table's own placement"); g_p = nondet_int(); if (g_p) g_any = 1; return g_p; }
int validate_naming(argus_option_t *o) { VX_ASSERT(o == G_t && !g_nm, "the table's own naming"); g_nm = nondet_int(); if (g_nm) g_any = 1; return g_nm; }
int validate_type_format(argus_t *a, argus_option_t *o) { VX_ASSERT(a == G_a && o == G_t && !g_t, "the table's own definitions"); g_t = nondet_int(); if (g_t) g_any = 1; return g_t; }
int vx_self_validate_structure(argus_t *a, argus_option_t *s) {
    VX_ASSERT(g_in && g_e < g_n && a == G_a && G_t[g_e].type == TYPE_SUBCOMMAND && s && s == G_t[g_e].sub_options, "checks the table of the subcommand at hand");
    VX_ASSERT(*G_d == g_d0 + 1, "one level deeper"); VX_ASSERT(IMPLIES(g_d0 + 1 > MAX_SUBCOMMAND_DEPTH, g_rep), "too deep is reported");
    int r = nondet_int(); _Bool b = r != 0 || g_d0 + 1 > MAX_SUBCOMMAND_DEPTH; if (b) g_any = 1;
    if (g_e == g_k) { VX_ASSUME(b == g_bad); g_seen++; } return r;
}
int validate_structure(argus_t *argus, argus_option_t *options)
__CPROVER_assigns(g_e, g_any, g_rep, g_in, G_d, g_seen, g_p, g_nm, g_t);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 < n && n < 0x7ffffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; argus_t a; G_a = &a;
    g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < n); g_sub = t[g_k].type == TYPE_SUBCOMMAND && t[g_k].sub_options; g_bad = g_sub && nondet_bool(); g_d0 = nondet_int(); VX_ASSUME(0 <= g_d0 && g_d0 <= MAX_SUBCOMMAND_DEPTH);
    g_p = g_nm = g_t = g_any = g_rep = g_in = g_seen = 0;
    int r = validate_structure(&a, t);
    VX_ASSERT((r == ARGUS_SUCCESS) == !g_any, "succeeds exactly when every rule holds");
    VX_ASSERT(IMPLIES(g_p || g_nm || g_t, r != 0), "a broken rule of the table itself is not lost");
    VX_ASSERT(g_seen == (g_sub ? 1 : 0) && IMPLIES(g_bad, r != 0), "every nested table is checked once and a rule broken there is not lost");
    VX_ASSERT(*G_d == g_d0, "the depth is given back");
    if (r == 0) { if (n > 2 && g_sub) VX_REACH("nested"); } else { if (g_bad) VX_REACH("broken below"); if (g_p) VX_REACH("broken here"); if (g_rep && !g_p) VX_REACH("too deep"); }
}
