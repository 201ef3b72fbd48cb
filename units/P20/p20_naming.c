//@ src core/validation/validate_structure.c
//@ drop validate_structure lname_is_unique
//@ desc validate_naming: succeeds exactly when every name rule holds for every definition and no short name is used twice; a broken rule anywhere makes it fail whatever follows
//@ enforce validate_naming
//@ fn validate_naming 1
//@ loop 0
//@ assigns g_e; g_any; g_rep; __CPROVER_object_whole(g_us); g_sp; g_dot; g_dup; g_nm; g_ln
//@ hyp next({p0}, {i})
//@ inv 0 <= {i} && {i} <= g_n && ({l:int#0} != 0) == g_any && g_rep == g_any
//@ inv __CPROVER_forall { int vx_c; (0 <= vx_c && vx_c < 256) ==> {l:bool[256]}[vx_c] == g_us[vx_c] }
//@ inv g_k < {i} && g_bad ==> g_any
//@ dec g_n - {i}
//@ cbmc --unwindset harness.0:257
//@ trust strchr: non-NULL exactly when the text contains the character (ghost flags of the entry)
//@ trust lname_is_unique: its status, a report exactly on failure (discharged in p20_unique)
//@ trust argus_struct_error (inline): evaluates its arguments and prints; recorded by a ghost
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/errors.h"
int g_e, g_n, g_k; _Bool g_us[256], g_sp, g_dot, g_dup, g_any, g_rep, g_bad; char g_nm[2], g_ln[2]; argus_option_t *G_t;
static void rep(argus_option_t *o) { VX_ASSERT(g_e < g_n && o == &G_t[g_e] && g_any, "a report is about a definition that breaks a rule"); g_rep = 1; }
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
static void next(argus_option_t *o, int i) {
    g_e = i;
    if (i < g_n) {
        VX_ASSUME(o[i].type != TYPE_NONE && (o[i].name == 0 || o[i].name == g_nm) && (o[i].lname == 0 || o[i].lname == g_ln)); g_nm[0] = nondet_char(); g_nm[1] = 0; g_ln[0] = nondet_char(); g_ln[1] = 0;
        g_sp = nondet_bool(); g_dot = nondet_bool(); g_dup = nondet_bool(); VX_ASSUME(IMPLIES(g_ln[0] == 0, !g_sp && !g_dot) && IMPLIES(o[i].lname == 0, !g_dup) && IMPLIES(g_ln[0] == ' ', g_sp) && IMPLIES(g_ln[0] == '.', g_dot));
        _Bool b = ((o[i].name == 0 || !g_nm[0]) && o[i].type != TYPE_GROUP) || o[i].sname == ' ' || o[i].sname == '-' || (o[i].lname && (!g_ln[0] || g_ln[0] == '-' || g_sp || g_dot)) || g_dup || (o[i].sname && g_us[(unsigned char)o[i].sname]);
        if (i == g_k) VX_ASSUME(b == g_bad); if (b) g_any = 1; if (o[i].sname) g_us[(unsigned char)o[i].sname] = 1;
    }
}
char *strchr(const char *s, int c) {
    VX_MODEL(g_e < g_n && G_t[g_e].lname && s == G_t[g_e].lname && (c == ' ' || c == '.'), "looks for a space or a dot in the long name"); return (c == ' ' ? g_sp : g_dot) ? &g_ln[0] : 0;
}
static int lname_is_unique(argus_option_t *t, int i) { VX_ASSERT(t == G_t && i == g_e && i < g_n, "every definition's long name is compared with the later ones"); if (g_dup) { g_rep = 1; return ARGUS_ERROR_DUPLICATE_OPTION; } return 0; }
int validate_naming(argus_option_t *options)
__CPROVER_assigns(g_e, g_any, g_rep, g_us, g_sp, g_dot, g_dup, g_nm, g_ln);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 < n && n < 0x7ffffff); g_n = n; argus_option_t t[n + 1]; t[n].name = g_nm; t[n].lname = g_ln; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t;
    g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < n); g_bad = nondet_bool(); g_any = g_rep = 0; for (int c = 0; c < 256; c++) g_us[c] = 0;
    int r = validate_naming(t);
    VX_ASSERT((r == ARGUS_SUCCESS) == !g_any && g_rep == g_any, "succeeds exactly when every rule holds and reports a broken one");
    VX_ASSERT(IMPLIES(g_bad, r != 0), "a rule broken anywhere is not lost");
    if (r == 0) { if (n > 3) VX_REACH("well formed"); } else { VX_REACH("broken"); if (g_bad && n > 3) VX_REACH("broken at any place"); }
}
