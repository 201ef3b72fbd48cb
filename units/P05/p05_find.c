//@ src core/parsing/parse_args.c
//@ drop parse_args
//@ desc find_subcommand: the exactly named subcommand wherever it stands; else the only one a non-empty word is a prefix of; several: ambiguity error; none: no result
//@ enforce find_subcommand
//@ fn find_subcommand 2
//@ loop 0
//@ assigns g_e
//@ hyp HYP({p1},{i})
//@ inv 0 <= {i} && {i} <= g_n && (g_k < {i} ==> !g_xk)
//@ dec g_n - {i}
//@ loop 1
//@ assigns g_e; g_nm; g_last; g_other; {p0}->error_code
//@ hyp HYP({p1},{i})
//@ inv 0 <= {i} && {i} <= g_n && g_nm <= 1 && ({v0} == (argus_option_t *)0) == (g_nm == 0) && (g_nm == 1 ==> {v0} == &{p1}[g_last] && g_last < {i} && (g_last == g_k ==> g_pk)) && (g_k < {i} && g_pk ==> g_nm == 1 && g_last == g_k) && ({i} > 0 ==> !g_empty)
//@ dec g_n - {i}
//@ trust strcmp, starts_with: equality and prefix of a name are uninterpreted relations (starts_with: discharged in p23_starts_with)
//@ trust subcommands have a name (checked by P20)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "vx_err.h"
#include <string.h>
size_t g_e, g_n, g_k, g_last, g_other; _Bool g_xk, g_pk, g_empty; unsigned g_nm;
const char *G_name;
_Bool __CPROVER_uninterpreted_eq(const char *); _Bool __CPROVER_uninterpreted_pre(const char *);
#define HYP(o, i) (g_e = (i)), __CPROVER_assume((i) < g_n ==> (o)[i].type != TYPE_NONE), __CPROVER_assume((i) < g_n && (o)[i].type == TYPE_SUBCOMMAND ==> (o)[i].name != 0)
#define EXACT(o) ((o).type == TYPE_SUBCOMMAND && __CPROVER_uninterpreted_eq((o).name))
#define PRE(o) ((o).type == TYPE_SUBCOMMAND && __CPROVER_uninterpreted_pre((o).name))
int strcmp(const char *a, const char *b) {
    VX_MODEL((a == G_name || b == G_name) && a && b, "compares the word with a name");
    int r = nondet_int(); VX_ASSUME((r == 0) == __CPROVER_uninterpreted_eq(a == G_name ? b : a)); return r;
}
char *starts_with(const char *p, const char *s) {
    VX_MODEL(p == G_name && s, "asks whether the word is a prefix of a name");
    if (!__CPROVER_uninterpreted_pre(s)) return 0;
    g_nm++; if (g_nm == 1) g_last = g_e; else g_other = g_e;
    char *r = nondet_ptr(); VX_ASSUME(r != 0); return r;
}
int find_subcommand(argus_t *argus, argus_option_t *options, const char *name, argus_option_t **result)
__CPROVER_assigns(argus->error_code, *result, g_e, g_nm, g_last, g_other);
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffffff); g_n = n;
    argus_option_t o[n + 1]; char name[2]; G_name = name; g_empty = name[0] == 0;
    size_t k; VX_ASSUME(k < n); g_k = k; VX_ASSUME(o[k].name != 0);
    VX_ASSUME(o[n].type == TYPE_NONE);
    g_xk = EXACT(o[k]); g_pk = PRE(o[k]);
    g_nm = 0;
    argus_t a; argus_option_t *res; 
    int r = find_subcommand(&a, o, name, &res);
    if (r == ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND) {
        VX_ASSERT(!g_xk, "ambiguous only without an exact match");
        VX_ASSERT(!g_empty, "an empty word is never ambiguous");
        VX_ASSERT(g_nm == 2 && g_last < g_other && g_other < n && PRE(o[g_other]) && IMPLIES(k == g_last, g_pk), "two different names start with the word");
        VX_ASSERT(a.error_code == r, "error recorded");
        VX_REACH("ambiguous");
    } else if (res == 0) {
        VX_ASSERT(r == ARGUS_SUCCESS, "no match is no error");
        VX_ASSERT(!g_xk && (g_empty || !g_pk), "none only when no name fits");
        VX_REACH("none");
    } else if (g_nm == 0) {
        size_t x = g_e;
        VX_ASSERT(r == ARGUS_SUCCESS && x < n && res == &o[x], "an entry of the table");
        VX_ASSERT(EXACT(o[x]), "exactly the named subcommand");
        VX_REACH("exact");
    } else {
        size_t x = g_last;
        VX_ASSERT(r == ARGUS_SUCCESS && x < n && res == &o[x] && !g_empty, "an entry of the table");
        VX_ASSERT(!g_xk, "prefix only when nothing matches exactly");
        VX_ASSERT(k != x || g_pk, "its name starts with the word");
        VX_ASSERT(k == x || !g_pk, "no other name starts with the word");
        VX_REACH("prefix");
    }
}
