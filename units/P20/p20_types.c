//@ src core/validation/validate_structure.c
//@ drop validate_structure
//@ desc validate_type_format: every definition is checked by the check of its kind; succeeds exactly when all pass and every kind is known
//@ enforce validate_type_format
//@ fn validate_type_format 1
//@ loop 0
//@ assigns g_e; g_any; g_rep; g_one; g_seen
//@ hyp next({p1}, {i})
//@ inv 0 <= {i} && {i} <= g_n && ({l:int#0} != 0) == g_any
//@ inv (g_k < {i} && g_bad ==> g_any) && ({i} > 0 ==> g_one) && (g_k < {i} ==> g_seen == 1) && (g_k >= {i} ==> g_seen == 0)
//@ dec g_n - {i}
//@ trust validate_option, validate_positional, validate_group, validate_subcommand: their status (discharged in p20_option, p20_positional, p20_containers)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/errors.h"
int g_e, g_n, g_k, g_seen; _Bool g_any, g_rep, g_bad, g_one; argus_option_t *G_t; argus_t *G_a;
static void note(_Bool b) { VX_ASSERT(!g_one, "one check per definition"); g_one = 1; if (b) g_any = 1; if (g_e == g_k) { VX_ASSUME(b == g_bad); g_seen++; } }
static void rep(argus_option_t *o) { VX_ASSERT(g_e < g_n && o == &G_t[g_e] && (o->type < TYPE_NONE || o->type > TYPE_SUBCOMMAND), "a report is about a definition of no known kind"); g_rep = 1; note(1); }
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
static void next(argus_option_t *o, int i) { VX_ASSERT(i == 0 || g_one, "no definition is skipped"); g_e = i; g_one = 0; if (i < g_n) VX_ASSUME(o[i].type != TYPE_NONE); else g_one = 1; }
#define STUB(o, k) VX_ASSERT(g_e < g_n && (o) == &G_t[g_e] && (o)->type == k, "by the check of its kind"); int r = nondet_int(); note(r != 0); return r
int validate_option(argus_t *a, argus_option_t *t, argus_option_t *o) { VX_ASSERT(a == G_a && t == G_t, "in its table"); STUB(o, TYPE_OPTION); }
int validate_positional(argus_t *a, argus_option_t *o) { VX_ASSERT(a == G_a, "context"); STUB(o, TYPE_POSITIONAL); }
int validate_group(argus_option_t *o) { STUB(o, TYPE_GROUP); }
int validate_subcommand(argus_option_t *o) { STUB(o, TYPE_SUBCOMMAND); }
static int validate_type_format(argus_t *argus, argus_option_t *options)
__CPROVER_assigns(g_e, g_any, g_rep, g_one, g_seen);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 < n && n < 0x7ffffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; argus_t a; G_a = &a;
    g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < n); g_bad = nondet_bool(); g_any = g_rep = g_seen = 0; g_one = 1;
    int r = validate_type_format(&a, t);
    VX_ASSERT((r == ARGUS_SUCCESS) == !g_any, "succeeds exactly when every definition passes"); VX_ASSERT(g_seen == 1 && IMPLIES(g_bad, r != 0), "every definition is checked once and a failure is not lost");
    if (r == 0) { if (n > 2) VX_REACH("well formed"); } else { if (g_bad && !g_rep) VX_REACH("broken"); if (g_rep) VX_REACH("no kind"); }
}
