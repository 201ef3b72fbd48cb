//@ src core/validation/validate_arguments.c
//@ desc validate_default_value: succeeds exactly when the definition has no default, or is no flag and every applicable check accepts the default; every applicable check up to the first failure runs, with stderr captured and given back around each
//@ enforce validate_default_value
//@ fn validate_default_value 1
//@ loop 0
//@ assigns g_e; g_any; g_rep; g_red; g_ran; g_msg; g_ck; __CPROVER_object_whole(G_v); g_cur
//@ hyp next({i})
//@ inv {i} <= g_m && ({l:int#0} != 0) == g_any && g_rep == g_any && !g_red && !g_msg
//@ inv (g_k < {i} && g_kap && g_kbad ==> g_any) && (g_ck == ((g_k < {i} && g_kap) ? 1 : 0))
//@ dec g_m - {i}
//@ trust stream redirection: captured and given back (property P24); the captured text is an allocated block
//@ trust checks are arbitrary functions of the declared type with any result
//@ trust argus_struct_error (inline): evaluates its arguments and prints; recorded by a ghost
#include "nounion.h"
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/stream.h"
size_t g_e, g_m, g_k; _Bool g_any, g_rep, g_red, g_ran, g_msg, g_kap, g_kbad; int g_ck; argus_t *G_a; argus_option_t *G_o; validator_entry_t **G_v, g_cur; char g_text[2], *G_str;
static void rep(argus_option_t *o) { VX_ASSERT(o == G_o && !g_red && (G_o->value_type == VALUE_TYPE_FLAG || g_any), "a report is about a default that breaks a rule, and goes to the real stderr"); g_rep = 1; if (o->value_type == VALUE_TYPE_FLAG) g_any = 1; }
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
int stream_redirect(int s) { VX_ASSERT(s == STDERR_FILENO && !g_red, "captures stderr once"); g_red = 1; return 0; }
void stream_restore(int s) { VX_ASSERT(s == STDERR_FILENO && g_red, "gives it back once"); g_red = 0; }
char *stream_read(int s) { VX_ASSERT(s == STDERR_FILENO && g_red && !g_msg, "reads while captured"); g_msg = 1; return g_text; }
void free(void *p) { VX_ASSERT(p == g_text && g_msg, "releases the captured text once"); g_msg = 0; }
#define APPL(c) (((c).order == ORDER_PRE && G_o->value_type == VALUE_TYPE_STRING) || (c).order == ORDER_POST)
static int check(argus_t *a, void *v, validator_data_t d) {
    VX_ASSERT(g_e < g_m && !g_ran && APPL(g_cur), "only applicable checks, each once"); VX_ASSERT(a == G_a && v == (g_cur.order == ORDER_PRE ? (void *)G_str : (void *)G_o) && d.custom == g_cur.data.custom, "on the default (pre-checks) or the definition (post-checks), with their data"); VX_ASSERT(g_red, "its output is captured");
    g_ran = 1; int r = nondet_int(); if (g_e == g_k) { VX_ASSUME((r != 0) == g_kbad); g_ck++; } if (r) g_any = 1; return r;
}
static void next(size_t i) {
    g_e = i; g_ran = 0;
    if (i < g_m) { g_cur.func = check; g_cur.order = nondet_int(); g_cur.data.custom = nondet_size(); if (i == g_k) VX_ASSUME(APPL(g_cur) == g_kap); G_v[i] = &g_cur; } else G_v[i] = 0;
}
static int validate_default_value(argus_t *argus, argus_option_t *option)
__CPROVER_assigns(g_e, g_any, g_rep, g_red, g_ran, g_msg, g_ck; G_v != 0: __CPROVER_object_whole(G_v), g_cur);
#include "src0.c"
void harness(void) {
    size_t m; VX_ASSUME(0 < m && m < 0x7fffff); g_m = m; validator_entry_t *v[m + 1]; argus_t a; argus_option_t o; char str[2]; G_str = str; G_a = &a; G_o = &o; _Bool hv = nondet_bool(); G_v = hv ? &v[0] : 0; v[m] = &g_cur; v[m] = 0; o.validators = G_v; o.default_value.as_string = str;
    g_k = nondet_size(); VX_ASSUME(g_k < m); g_kap = nondet_bool(); g_kbad = nondet_bool(); g_any = g_rep = g_red = g_msg = g_ran = 0; g_ck = 0; _Bool def = o.have_default, flag = o.value_type == VALUE_TYPE_FLAG;
    int r = validate_default_value(&a, &o);
    VX_ASSERT(!g_red && !g_msg, "stderr is given back and the captured text released"); VX_ASSERT((r != ARGUS_SUCCESS) == g_rep && (r != 0) == g_any, "fails exactly when a rule is broken, and says so");
    if (!def) { VX_ASSERT(r == 0 && g_ck == 0, "no default, no rule"); VX_REACH("none"); }
    else if (flag) { VX_ASSERT(r != 0, "a flag has no default"); VX_REACH("flag"); }
    else if (hv) { VX_ASSERT(IMPLIES(g_kap && g_kbad, r != 0), "a failing check is not lost"); VX_ASSERT(IMPLIES(g_kap, g_ck == 1) && IMPLIES(!g_kap, g_ck == 0), "every applicable check runs once"); if (r == 0) { if (m > 2 && g_kap) VX_REACH("accepted"); } else VX_REACH("rejected"); }
    else VX_ASSERT(r == 0, "no check");
}
