//@ src core/validation/validate_arguments.c
//@ drop validate_default_value
//@ desc validate_dependencies: succeeds exactly when every required and conflicting name exists in the table and no name is both required and conflicting; a broken rule is not lost, whatever follows
//@ enforce validate_dependencies
//@ fn validate_dependencies 4
//@ loop 0
//@ assigns g_e; g_any; g_rep; __CPROVER_object_whole(G_v); __CPROVER_object_whole(G_w); g_f; g_eq; g_prs
//@ hyp nextp({i})
//@ inv 0 <= {i} && {i} <= g_m && ({l:int#0} != 0) == g_any && g_rep == g_any && g_ph == 0
//@ inv (g_k < {i} && g_pair ==> g_any)
//@ dec g_m - {i}
//@ loop 1
//@ assigns g_f; g_eq; g_any; g_rep; __CPROVER_object_whole(G_w)
//@ hyp nextq({i})
//@ inv 0 <= {i} && {i} <= g_w && ({l:int#0} != 0) == g_any && g_rep == g_any && g_ph == 0 && G_v[g_e] == g_rq && 0 <= g_e && g_e < g_m
//@ inv (g_k < g_e && g_pair ==> g_any) && (g_e == g_k && g_l < {i} && g_pair ==> g_any)
//@ dec g_w - {i}
//@ loop 2
//@ assigns g_e; g_any; g_rep; g_ph; g_look; __CPROVER_object_whole(G_v)
//@ hyp nextr({i})
//@ inv 0 <= {i} && {i} <= g_m && ({l:int#0} != 0) == g_any && g_rep == g_any && (g_pair && G_v && G_w ==> g_any)
//@ inv (g_k < {i} && g_nor ==> g_any) && g_look == {i}
//@ dec g_m - {i}
//@ loop 3
//@ assigns g_e; g_any; g_rep; g_ph; g_look2; __CPROVER_object_whole(G_w)
//@ hyp nextc({i})
//@ inv 0 <= {i} && {i} <= g_w && ({l:int#0} != 0) == g_any && g_rep == g_any
//@ inv (g_pair && G_v && G_w ==> g_any) && (g_nor && G_v ==> g_any) && (g_l < {i} && g_noc ==> g_any) && g_look2 == {i}
//@ dec g_w - {i}
//@ trust strcmp: 0 exactly for equal texts (equality is a ghost flag of the pair)
//@ trust find_option_by_name: the entry of that name or NULL (discharged in unit p01_name)
//@ trust argus_struct_error (inline): evaluates its arguments and prints; recorded by a ghost
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/stream.h"
#include "argus/errors.h"
int g_e, g_f, g_m, g_w, g_k, g_l, g_ph, g_look, g_look2; _Bool g_any, g_rep, g_pair, g_nor, g_noc, g_eq, g_prs; const char **G_v, **G_w; char g_rq[2], g_cf[2]; argus_option_t *G_t, *G_o, g_ent;
static void rep(argus_option_t *o) { VX_ASSERT(o == G_o && g_any, "a report is about a definition that breaks a rule"); g_rep = 1; }
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
static void nextp(int i) { g_e = i; if (i < g_m) G_v[i] = g_rq; else G_v[i] = 0; }
static void nextq(int i) { g_f = i; if (i < g_w) G_w[i] = g_cf; else { G_w[i] = 0; return; } g_eq = nondet_bool(); if (g_e == g_k && i == g_l) VX_ASSUME(g_eq == g_pair); if (g_eq) g_any = 1; }
static void nextr(int i) { g_e = i; g_ph = 1; if (i < g_m) G_v[i] = g_rq; else G_v[i] = 0; }
static void nextc(int i) { g_e = i; g_ph = 2; if (i < g_w) G_w[i] = g_cf; else G_w[i] = 0; }
int strcmp(const char *a, const char *b) { VX_MODEL(g_ph == 0 && g_f < g_w && ((a == g_rq && b == g_cf) || (a == g_cf && b == g_rq)), "compares a required with a conflicting name"); int r = nondet_int(); VX_ASSUME((r == 0) == g_eq); return r; }
argus_option_t *find_option_by_name(argus_option_t *t, const char *n) {
    VX_ASSERT(t == G_t && n == (g_ph == 1 ? g_rq : g_cf) && g_ph, "looks every listed name up in the table of the definition"); _Bool miss = nondet_bool();
    if (g_ph == 1) { g_look++; if (g_e == g_k) VX_ASSUME(miss == g_nor); } else { g_look2++; if (g_e == g_l) VX_ASSUME(miss == g_noc); }
    if (miss) g_any = 1; return miss ? 0 : &g_ent;
}
static int validate_dependencies(argus_option_t *options, argus_option_t *option)
__CPROVER_assigns(g_e, g_f, g_eq, g_any, g_rep, g_ph, g_look, g_look2, g_prs; G_v != 0: __CPROVER_object_whole(G_v); G_w != 0: __CPROVER_object_whole(G_w));
#include "src0.c"
void harness(void) {
    int m, w; VX_ASSUME(0 < m && m < 0x7fffff && 0 < w && w < 0x7fffff); g_m = m; g_w = w; const char *v[m + 1], *c[w + 1]; _Bool hv = nondet_bool(), hc = nondet_bool(); G_v = hv ? &v[0] : 0; G_w = hc ? &c[0] : 0; G_t = nondet_ptr(); v[m] = g_rq; v[m] = 0; c[w] = g_cf; c[w] = 0;
    argus_option_t o; G_o = &o; o.require = G_v; o.conflict = G_w; g_k = nondet_int(); g_l = nondet_int(); VX_ASSUME(0 <= g_k && g_k < m && 0 <= g_l && g_l < w); g_pair = nondet_bool(); g_nor = nondet_bool(); g_noc = nondet_bool(); g_any = g_rep = 0; g_ph = g_look = g_look2 = 0;
    int r = validate_dependencies(G_t, &o);
    VX_ASSERT((r == ARGUS_SUCCESS) == !g_any && g_rep == g_any, "succeeds exactly when every rule holds and reports a broken one");
    VX_ASSERT(IMPLIES(hv && hc && g_pair, r != 0), "a name both required and conflicting is found"); VX_ASSERT(IMPLIES(hv && g_nor, r != 0) && IMPLIES(hc && g_noc, r != 0), "a name of no definition is found"); VX_ASSERT(g_look == (hv ? m : 0) && g_look2 == (hc ? w : 0), "every listed name is looked up");
    if (r == 0) { if (hv && hc && m > 2 && w > 2) VX_REACH("both lists"); if (!hv && !hc) VX_REACH("none"); } else { if (hv && hc && g_pair) VX_REACH("pair"); if (hv && g_nor) VX_REACH("no required"); if (hc && g_noc) VX_REACH("no conflicting"); }
}
