//@ src core/parsing/execute_callbacks.c
//@ desc execute_callbacks: pre-checks in declared order on the given text, then the handler once, then the set mark, then exit; the first failure is the result and nothing after it runs; post-checks do not run; a collection that got nothing is not counted
//@ enforce execute_callbacks
//@ fn execute_callbacks 1
//@ loop 0
//@ assigns g_e; g_err; g_ck; {p0}->error_code; __CPROVER_object_whole(G_v); g_cur
//@ hyp HYP({i})
//@ inv {i} <= g_m && !g_err && !g_h && (g_ck == ((g_k < {i} && g_kpre) ? 1 : 0)) && !({p1}->is_set && !g_was)
//@ dec g_m - {i}
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
//@ trust checks and handlers are arbitrary functions of the declared types: any result, and the handler may change the option's value fields
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "vx_err.h"
size_t g_e, g_m, g_k; int g_err, g_h, g_ck; _Bool g_kpre, g_was; size_t g_vc;
argus_t *G_a; argus_option_t *G_o; char *G_val; validator_entry_t **G_v, g_cur; int g_hst;
static int check(argus_t *a, void *v, validator_data_t d) {
    VX_ASSERT(!g_err && !g_h, "no check after a failure or after the handler");
    VX_ASSERT(g_e < g_m && g_cur.order == ORDER_PRE, "only pre-checks run");
    VX_ASSERT(a == G_a && v == (void *)G_val && d.custom == g_cur.data.custom, "on the given text with its data");
    VX_ASSERT(!(G_o->is_set && !g_was), "not yet marked");
    VX_ASSERT(IMPLIES(g_kpre && g_k < g_e, g_ck == 1) && IMPLIES(g_k > g_e, g_ck == 0), "in declared order");
    if (g_e == g_k) { VX_ASSERT(g_ck == 0, "each once"); g_ck = 1; }
    int r = nondet_int(); g_err = r; return r;
}
static int handler(argus_t *a, argus_option_t *o, char *v) {
    VX_ASSERT(!g_err && !g_h, "handler once, only after accepting checks");
    VX_ASSERT(a == G_a && o == G_o && v == G_val, "the option with the given text");
    VX_ASSERT(g_ck == (g_kpre ? 1 : 0), "all pre-checks ran");
    VX_ASSERT(!(o->is_set && !g_was), "not marked before the handler");
    g_h = 1; o->value.raw = (uintptr_t)nondet_size(); o->value_count = g_vc; 
    int r = nondet_int(); g_err = r; g_hst = r; return r;
}
static void next(size_t i) {   /* the i-th entry of the list: any check, pre or post (fixed for the ghost index) */
    g_e = i;
    if (i < g_m) {
        g_cur.func = check; g_cur.order = nondet_int(); g_cur.data.custom = nondet_size();
        if (i == g_k) VX_ASSUME((g_cur.order == ORDER_PRE) == g_kpre);
        G_v[i] = &g_cur;
    } else G_v[i] = 0;
}
#define HYP(i) next(i)
int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(argus->error_code, option->is_set, option->value, option->value_count, g_e, g_err, g_h, g_ck, g_hst; G_v != 0: __CPROVER_object_whole(G_v), g_cur);
#include "src0.c"
void harness(void) {
    size_t m; VX_ASSUME(m < 0x7fffff); g_m = m;
    validator_entry_t *v[m + 1]; argus_t a; argus_option_t o; char val[2];
    G_v = v; G_a = &a; G_o = &o; G_val = nondet_bool() ? val : (char *)0;
    o.validators = nondet_bool() ? &v[0] : 0; o.handler = nondet_bool() ? handler : 0;
    size_t k; VX_ASSUME(k < m); g_k = k; g_kpre = nondet_bool() && o.validators; 
    g_was = o.is_set; g_err = g_h = g_ck = 0; g_vc = nondet_size();
    _Bool nohandler = o.handler == 0, isexit = (o.flags & FLAG_EXIT) != 0; size_t vc0 = o.value_count; uintptr_t raw0 = o.value.raw;
    _Bool coll = (o.value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)) != 0; _Bool hasv = o.validators != 0;
    int r = execute_callbacks(&a, &o, G_val);
    if (nohandler) { VX_ASSERT(r == ARGUS_ERROR_INVALID_HANDLER && a.error_code == r && !g_h && o.is_set == g_was, "no handler is an error"); VX_REACH("no handler"); }
    else if (g_err) {
        VX_ASSERT(r == g_err, "the first failure is the result");
        VX_ASSERT(o.is_set == g_was, "a failed option is not marked");
        if (g_h) VX_REACH("handler failed"); else { VX_ASSERT(o.value.raw == raw0 && o.value_count == vc0, "a rejected text changes nothing"); VX_REACH("check failed"); }
    } else {
        VX_ASSERT(g_h == 1 && o.is_set, "applied and marked");
        VX_ASSERT(IMPLIES(g_kpre, g_ck == 1), "every pre-check ran");
        VX_ASSERT(r == (isexit ? ARGUS_SHOULD_EXIT : ARGUS_SUCCESS), "exit option asks for exit");
        VX_ASSERT(IMPLIES(coll || g_vc > 0, o.value_count == g_vc) && IMPLIES(!coll && g_vc == 0, o.value_count == 1), "element count");
        if (isexit) VX_REACH("exit"); if (hasv && m > 3 && g_kpre) VX_REACH("all checks"); if (!hasv) VX_REACH("no checks");
    }
}
