//@ src core/parsing/load_env_vars.c
//@ drop get_env_var_name load_env_vars
//@ desc load_env: in a table of any length every option and positional that is not decided by the command line (or that overrides it) and whose variable is set gets exactly that variable's value, once, in order; every other entry, and every group and subcommand, is untouched; the first failure is the result, nothing is done after it
//@ enforce load_env
//@ fn load_env 1
//@ loop 0
//@ assigns g_e; g_nm; g_val; g_x; g_kc; g_st; {p0}->error_code
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && g_st == 0
//@ inv g_kc == (g_k < {i} && g_kwant ? 1 : 0)
//@ dec g_n - {i}
//@ trust get_env_var_name by its contract (discharged in p16_name); getenv: the value of the named variable or NULL
//@ trust execute_callbacks by its contract (discharged in P10): changes only the given option, any status
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
argus_t *G_a; argus_option_t *G_t; int g_e, g_n, g_k, g_kc, g_st, g_x; const char *g_nm; char *g_val; char g_names[1], g_vals[1], g_knames[1], g_kvals[1];
int g_ktype; _Bool g_kset, g_kdef, g_kwant, g_knamed, g_khas; size_t g_kcount; uint64_t g_kval; uint32_t g_kflags;
static void next(int i) { g_e = i; g_nm = 0; g_val = 0; g_x = 0; if (i < g_n) { VX_ASSUME(G_t[i].type != TYPE_NONE); } }
static int load_env(argus_t *argus, argus_option_t *options)
__CPROVER_assigns(argus->error_code, __CPROVER_object_whole(options), g_e, g_nm, g_val, g_x, g_kc, g_st);
#include "src0.c"
static const char *get_env_var_name(argus_t *a, argus_option_t *o) {
    VX_ASSERT(a == G_a && o == &G_t[g_e] && g_e < g_n, "the name for the entry at hand");
    g_nm = (g_e == g_k ? g_knamed : nondet_bool()) ? (g_e == g_k ? g_knames : g_names) : 0; return g_nm;
}
char *getenv(const char *n) {
    VX_ASSERT(n != 0 && n == g_nm, "the variable of that name is read");
    g_val = (g_e == g_k ? g_khas : nondet_bool()) ? (g_e == g_k ? g_kvals : g_vals) : 0; return g_val;
}
int execute_callbacks(argus_t *a, argus_option_t *o, char *v) {
    VX_ASSERT(a == G_a && o == &G_t[g_e] && g_e < g_n && g_st == 0, "the entry at hand, nothing after a failure");
    VX_ASSERT(v != 0 && v == g_val && !g_x, "with the variable's value, once"); g_x = 1;
    if (g_e == g_k) g_kc++;
    g_st = nondet_int(); if (g_st) a->error_code = g_st; return g_st;
}
void harness(void) {
    int n; VX_ASSUME(0 < n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; argus_t a; G_a = &a; g_st = g_kc = 0;
    g_k = nondet_int(); VX_ASSUME(0 <= g_k && g_k < n && t[g_k].type != TYPE_NONE); argus_option_t *k = &t[g_k];
    g_ktype = k->type; g_kset = k->is_set; g_kdef = k->have_default; g_kcount = k->value_count; g_kflags = k->flags; g_kval = k->value.raw; g_knamed = nondet_bool(); g_khas = nondet_bool();
    _Bool cmd = g_kset && !(g_kdef && g_kcount == 0);
    g_kwant = g_ktype != TYPE_GROUP && g_ktype != TYPE_SUBCOMMAND && (!cmd || (g_kflags & FLAG_ENV_OVERRIDE)) && g_knamed && g_khas;
    int r = load_env(&a, t);
    VX_ASSERT(r == g_st, "the result is the first failure, or success");
    if (r == ARGUS_SUCCESS) {
        VX_ASSERT(g_kc == (g_kwant ? 1 : 0), "an entry takes its variable exactly when the precedence says so");
        VX_ASSERT(t[g_k].is_set == g_kset && t[g_k].value.raw == g_kval, "entries change only by their handlers");
        if (g_kwant && cmd) VX_REACH("override"); if (g_kwant && g_kset && !cmd) VX_REACH("over a default"); if (cmd && g_knamed && g_khas && !g_kwant) VX_REACH("command line wins");
    } else {
        VX_ASSERT(g_e < n && g_x, "stopped at the failing entry");
        VX_REACH("failure");
    }
}
