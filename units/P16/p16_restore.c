//@ src core/parsing/load_env_vars.c
//@ drop get_env_var_name load_env_vars
//@ desc load_env: in a table of any length, when the value of a variable is rejected, a default or a value given before is put back, also when the handler had already stored something; an entry without variable, and the kind of every entry, is untouched
//@ enforce load_env
//@ fn load_env 1
//@ loop 0
//@ assigns g_e; g_x; g_st; g_val0; g_set0; g_ty; __CPROVER_object_whole({p1})
//@ hyp next({p1}, {i})
//@ inv 0 <= {i} && {i} <= g_n && g_st == 0 && g_e == {i} - 1 && ({i} == 0 || ((int){p1}[{i} - 1].type == g_ty && (g_x || ({p1}[{i} - 1].is_set == g_set0 && {p1}[{i} - 1].value.raw == g_val0))))
//@ dec g_n - {i}
//@ timeout 240
//@ trust get_env_var_name by its contract (discharged in p16_name); execute_callbacks changes only the given option's value, marks and count, any status (p10_exec, P15)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
argus_option_t *G_t; int g_e, g_n, g_st, g_x, g_set0, g_ty; uint64_t g_val0; char g_nm[2], g_vl[2];
/* the next entry; that the one just handled kept its kind and, without a variable, its value is an invariant */
static void next(argus_option_t *t, int i) {
    if (i < g_n) { VX_ASSUME(t[i].type != TYPE_NONE); g_e = i; g_x = 0; g_ty = (int)t[i].type; g_set0 = t[i].is_set; g_val0 = t[i].value.raw; }
    else VX_ASSUME(t[i].type == TYPE_NONE);
}
static int load_env(argus_t *argus, argus_option_t *options)
__CPROVER_assigns(argus->error_code, __CPROVER_object_whole(options), g_e, g_x, g_st, g_val0, g_set0, g_ty);
#include "src0.c"
static const char *get_env_var_name(argus_t *a, argus_option_t *o) { return nondet_bool() ? &g_nm[0] : 0; }
char *getenv(const char *n) { VX_ASSERT(n != 0, "a name"); return nondet_bool() ? &g_vl[0] : 0; }
int execute_callbacks(argus_t *a, argus_option_t *o, char *v) {
    VX_ASSERT(g_e >= 0 && o == &G_t[g_e] && v == g_vl && !g_x && g_st == 0, "the entry at hand, once"); g_x = 1;
    o->is_set = nondet_bool(); o->value.raw = nondet_size(); o->value_count = nondet_size(); o->is_allocated = nondet_bool();
    g_st = nondet_int(); return g_st;
}
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; argus_t a; g_st = g_x = 0; g_e = -1;
    int r = load_env(&a, t);
    VX_ASSERT(r == g_st, "the result is the first failure, or success");
    if (r) {
        VX_ASSERT(g_e >= 0 && g_x && (int)t[g_e].type == g_ty, "stopped at the failing entry");
        if (g_set0 && !t[g_e].is_allocated) { VX_ASSERT(t[g_e].is_set && t[g_e].value.raw == g_val0, "the value from before the failure is kept"); VX_REACH("kept"); }
        if (!g_set0) VX_REACH("nothing to keep"); if (g_e > 3) VX_REACH("later entry");
    } else { if (n > 3) VX_REACH("success"); }
}
