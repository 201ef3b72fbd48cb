//@ src core/parsing/post_parse_validation.c
//@ drop validate_options_set validate_required validate_conflicts
//@ desc call_validators: runs the post-checks of the option in declared order on the option with their data; the first failure is the result and nothing runs after it; pre-checks do not run
//@ enforce call_validators
//@ fn call_validators 1
//@ loop 0
//@ assigns g_e; g_err; g_ck; {p0}->error_code; __CPROVER_object_whole(G_v); g_cur
//@ hyp next({i})
//@ inv {i} <= g_m && !g_err && (g_ck == ((g_k < {i} && g_kpost) ? 1 : 0))
//@ dec g_m - {i}
//@ trust checks are arbitrary functions of the declared type with any result
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
size_t g_e, g_m, g_k; int g_err, g_ck; _Bool g_kpost;
argus_t *G_a; argus_option_t *G_o; validator_entry_t **G_v, g_cur;
static int check(argus_t *a, void *v, validator_data_t d) {
    VX_ASSERT(!g_err, "no check after a failure");
    VX_ASSERT(g_e < g_m && g_cur.order == ORDER_POST, "only post-checks run");
    VX_ASSERT(a == G_a && v == (void *)G_o && d.custom == g_cur.data.custom, "on the option with its data");
    VX_ASSERT(IMPLIES(g_kpost && g_k < g_e, g_ck == 1) && IMPLIES(g_k > g_e, g_ck == 0), "in declared order");
    if (g_e == g_k) { VX_ASSERT(g_ck == 0, "each once"); g_ck = 1; }
    int r = nondet_int(); g_err = r; return r;
}
static void next(size_t i) {
    g_e = i;
    if (i < g_m) {
        g_cur.func = check; g_cur.order = nondet_int(); g_cur.data.custom = nondet_size();
        if (i == g_k) VX_ASSUME((g_cur.order == ORDER_POST) == g_kpost);
        G_v[i] = &g_cur;
    } else G_v[i] = 0;
}
static int call_validators(argus_t *argus, argus_option_t *option)
__CPROVER_assigns(argus->error_code, g_e, g_err, g_ck; G_v != 0: __CPROVER_object_whole(G_v), g_cur);
#include "src0.c"
void harness(void) {
    size_t m; VX_ASSUME(m < 0x7fffff); g_m = m;
    validator_entry_t *v[m + 1]; argus_t a; argus_option_t o;
    G_v = v; G_a = &a; G_o = &o; o.validators = nondet_bool() ? &v[0] : 0; _Bool hasv = o.validators != 0;
    size_t k; VX_ASSUME(k < m); g_k = k; g_kpost = nondet_bool() && hasv; g_err = g_ck = 0;
    int r = call_validators(&a, &o);
    VX_ASSERT(r == g_err, "the result is the first failure, or success");
    if (r == ARGUS_SUCCESS) { VX_ASSERT(IMPLIES(g_kpost, g_ck == 1), "every post-check accepted"); if (!hasv) VX_REACH("no checks"); else if (g_kpost && m > 3) VX_REACH("all checks"); }
    else VX_REACH("failed");
}
