//@ src core/parsing/post_parse_validation.c
//@ drop validate_options_set
//@ desc validate_required: success exactly when no name of the option's require list denotes an option that is not set; otherwise the rule's error, recorded; nothing else changes
//@ enforce validate_required
//@ fn validate_required 1
//@ loop 0
//@ assigns g_e; __CPROVER_object_whole(G_v); g_cur; g_look; g_hit; g_ent
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_m && (g_k < {i} ==> !g_bad) && g_look == {i} && !g_hit
//@ dec g_m - {i}
//@ trust find_option_by_name: the first entry of that name or NULL (discharged in unit p01_name)
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
int g_e, g_m, g_k, g_look; _Bool g_bad, g_hit; const char **G_v; char g_cur[2]; argus_option_t *G_t, g_ent;
static void next(int i) { g_e = i; if (i < g_m) G_v[i] = g_cur; else G_v[i] = 0; }
argus_option_t *find_option_by_name(argus_option_t *o, const char *n) {
    VX_ASSERT(o == G_t && n == g_cur, "looks every listed name up in the table of the level");
    _Bool there = nondet_bool(); g_ent.is_set = nondet_bool(); _Bool bad = there && ! g_ent.is_set;
    if (g_e == g_k) VX_ASSUME(bad == g_bad);
    g_look++; g_hit = bad; return there ? &g_ent : 0;
}
static int validate_required(argus_t *argus, argus_option_t *options, argus_option_t *option)
__CPROVER_assigns(argus->error_code, g_e, g_look, g_hit, g_ent; G_v != 0: __CPROVER_object_whole(G_v), g_cur);
#include "src0.c"
void harness(void) {
    int m; VX_ASSUME(0 <= m && m < 0x7fffff); g_m = m; const char *v[m + 1]; G_v = v; G_t = nondet_ptr(); g_look = 0; g_hit = 0;
    argus_t a; argus_option_t o; o.require = nondet_bool() ? &v[0] : 0; _Bool has = o.require != 0; g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < m); g_bad = nondet_bool(); int e0 = a.error_code;
    int r = validate_required(&a, G_t, &o);
    if (!has) { VX_ASSERT(r == ARGUS_SUCCESS && a.error_code == e0, "no list, no rule"); VX_REACH("none"); }
    else if (r == ARGUS_SUCCESS) { VX_ASSERT(!g_bad && g_look == m && a.error_code == e0, "accepted only when every name was looked up and none breaks the rule"); if (m > 2) VX_REACH("accepted"); }
    else { VX_ASSERT(r == ARGUS_ERROR_MISSING_REQUIRED && a.error_code == r && g_hit, "rejected only for a name that breaks the rule, with its error"); VX_REACH("rejected"); }
}
