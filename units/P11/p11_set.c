//@ src core/parsing/post_parse_validation.c
//@ drop call_validators validate_required validate_conflicts
//@ desc validate_options_set: success only when every required option and positional is set, at most one entry of each exclusive group is set, and the post-checks, requirements and conflicts of every set option passed; otherwise the error of a broken rule
//@ enforce validate_options_set
//@ fn validate_options_set 1
//@ loop 0
//@ assigns g_e; g_excl; g_cnt; g_st; g_c1; g_c2; g_c3; g_kc; {p0}->error_code
//@ hyp next({p1}, {i})
//@ inv 0 <= {i} && {i} <= g_n && g_st == 0 && g_cnt <= 1 && {p0}->error_code == g_e0
//@ inv g_k < {i} ==> (!g_kreq || g_kset) && (g_kset && !g_kgrp ==> g_kc == 1)
//@ inv g_k >= {i} ==> g_kc == 0
//@ inv {l:bool} == g_excl && (g_excl ==> ({l:const char *#1} == (const char *)0) == (g_cnt == 0))
//@ dec g_n - {i}
//@ trust call_validators, validate_required, validate_conflicts: their status (discharged in units p11_post_checks, p11_required, p11_conflicts)
//@ trust set entries have a name (checked by P20)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
int g_e, g_n, g_k, g_st, g_kc, g_e0; unsigned g_cnt; _Bool g_excl, g_kreq, g_kset, g_kgrp, g_c1, g_c2, g_c3; argus_t *G_a; argus_option_t *G_t;
#define REQ(o) (((o).type == TYPE_OPTION || (o).type == TYPE_POSITIONAL) && ((o).flags & FLAG_REQUIRED))
static void next(argus_option_t *o, int i) {
    g_e = i; g_c1 = g_c2 = g_c3 = 0;
    if (i < g_n) {
        VX_ASSUME(o[i].type != TYPE_NONE);
        if (o[i].type == TYPE_GROUP) { g_excl = (o[i].flags & FLAG_EXCLUSIVE) != 0; g_cnt = 0; }
        else if (o[i].is_set) { VX_ASSUME(o[i].name != 0); if (g_excl) g_cnt++; }
    }
}
static int validate_options_set(argus_t *argus, argus_option_t *options)
__CPROVER_assigns(argus->error_code, g_e, g_excl, g_cnt, g_st, g_c1, g_c2, g_c3, g_kc);
#include "src0.c"
#define STUB(a, o) VX_ASSERT((a) == G_a && (o) == &G_t[g_e] && g_e < g_n && g_st == 0, "about the option at hand, nothing after a failure"); VX_ASSERT((o)->is_set, "only set options"); \
    g_st = nondet_int(); if (g_st) (a)->error_code = g_st; if (g_e == g_k && g_c1 && g_c2 && g_c3) g_kc++; return g_st
int call_validators(argus_t *a, argus_option_t *o) { VX_ASSERT(!g_c1, "once"); g_c1 = 1; STUB(a, o); }
int validate_required(argus_t *a, argus_option_t *t, argus_option_t *o) { VX_ASSERT(t == G_t && !g_c2, "own table, once"); g_c2 = 1; STUB(a, o); }
int validate_conflicts(argus_t *a, argus_option_t *t, argus_option_t *o) { VX_ASSERT(t == G_t && !g_c3, "own table, once"); g_c3 = 1; STUB(a, o); }
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0x7ffffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t;
    argus_t a; G_a = &a; g_e0 = a.error_code; g_excl = 0; g_cnt = 0; g_st = 0; g_kc = 0;
    g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < n); g_kreq = REQ(t[g_k]); g_kset = t[g_k].is_set; g_kgrp = t[g_k].type == TYPE_GROUP;
    int r = validate_options_set(&a, t);
    if (r == ARGUS_SUCCESS) {
        VX_ASSERT(g_st == 0 && a.error_code == g_e0, "no rule of an option was broken");
        VX_ASSERT(!g_kreq || g_kset, "every required option and positional is set");
        VX_ASSERT(IMPLIES(g_kset && !g_kgrp, g_kc == 1), "post-checks, requirements and conflicts of every set option were checked");
        VX_ASSERT(g_cnt <= 1, "at most one set entry in the last exclusive group");
        if (g_kset && n > 3) VX_REACH("set"); if (g_kreq) VX_REACH("required"); if (g_excl && g_cnt == 1) VX_REACH("exclusive");
    } else {
        VX_ASSERT(a.error_code == r, "error recorded");
        if (g_st) { VX_ASSERT(r == g_st, "the failing rule's error"); VX_REACH("rule"); }
        else if (r == ARGUS_ERROR_EXCLUSIVE_GROUP) { VX_ASSERT(g_excl && g_cnt == 2, "two set entries in an exclusive group"); VX_REACH("two in a group"); }
        else { VX_ASSERT(r == ARGUS_ERROR_MISSING_REQUIRED && g_e < n && REQ(t[g_e]) && !t[g_e].is_set, "a required entry is not set"); VX_REACH("missing"); }
    }
}
