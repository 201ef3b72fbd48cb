//@ src core/validation/validate_structure.c
//@ drop validate_structure
//@ desc validate_placement: succeeds exactly when every placement rule holds over the whole table, whatever the order of the rules broken; a report is written exactly for a broken rule, about an entry of the table
//@ enforce validate_placement
//@ fn validate_placement 1
//@ loop 0
//@ assigns g_e; g_help; g_sub; g_pos; g_many; g_opt; g_any; g_anyhelp; g_rep
//@ hyp next({p0}, {i})
//@ inv 0 <= {i} && {i} <= g_n && ({l:int#0} != 0) == g_any && g_rep == g_any
//@ inv (int){l:bool#0} == g_pos && (int){l:bool#1} == g_opt && (int){l:bool#2} == g_many && (int){l:bool#3} == g_sub && (int){l:bool#4} == g_anyhelp
//@ inv (g_sub && g_pos ==> g_any) && (g_opt && g_many ==> g_any) && (g_many ==> g_pos) && (g_opt ==> g_pos)
//@ inv 0 <= g_sub && g_sub <= 1 && 0 <= g_pos && g_pos <= 1 && 0 <= g_many && g_many <= 1 && 0 <= g_opt && g_opt <= 1 && 0 <= g_anyhelp && g_anyhelp <= 1
//@ dec g_n - {i}
//@ trust strcmp: 0 exactly for equal texts (equality with "help" is a ghost flag of the entry)
//@ trust argus_struct_error (inline): evaluates its arguments and prints; recorded by a ghost
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/errors.h"
int g_e, g_n, g_sub, g_pos, g_many, g_opt, g_anyhelp; _Bool g_help, g_any, g_rep; argus_option_t *G_t;
static void rep(argus_option_t *o) {
    VX_ASSERT(g_e < g_n ? o == &G_t[g_e] && g_any : o == &G_t[0] && !g_anyhelp, "a report is about the entry that breaks a rule"); g_rep = 1;
}
#define VX_STRUCT_HOOK(o) rep(o)
#include "vx_err.h"
/* the rules, entry by entry: does entry i break a rule with itself or an earlier entry? */
static void next(argus_option_t *o, int i) {
    g_e = i;
    if (i < g_n) {
        VX_ASSUME(o[i].type != TYPE_NONE); g_help = nondet_bool();
        _Bool po = o[i].type == TYPE_POSITIONAL, va = po && (o[i].value_type & VALUE_TYPE_VARIADIC), rq = (o[i].flags & FLAG_REQUIRED) != 0;
        if (o[i].type == TYPE_OPTION && g_sub) g_any = 1;
        if (po && g_sub) g_any = 1;
        if (o[i].type == TYPE_SUBCOMMAND && g_pos) g_any = 1;
        if (po && g_many) g_any = 1;
        if (va && g_opt) g_any = 1;
        if (po && rq && g_opt) g_any = 1;
        if (o[i].type == TYPE_SUBCOMMAND) g_sub = 1;
        if (po) g_pos = 1; if (va) g_many = 1; if (po && !va && !rq) g_opt = 1;
        if (o[i].type == TYPE_OPTION && o[i].name && g_help) g_anyhelp = 1;
    }
}
int strcmp(const char *a, const char *b) {
    const char *n = G_t[g_e].name; VX_MODEL(g_e < g_n && n && ((a == n && b[0] == 'h' && b[1] == 'e' && b[2] == 'l' && b[3] == 'p' && !b[4]) || (b == n && a[0] == 'h' && a[1] == 'e' && a[2] == 'l' && a[3] == 'p' && !a[4])), "compares the entry's name with help");
    int r = nondet_int(); VX_ASSUME((r == 0) == g_help); return r;
}
int validate_placement(argus_option_t *options)
__CPROVER_assigns(g_e, g_help, g_sub, g_pos, g_many, g_opt, g_any, g_anyhelp, g_rep);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0x7ffffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t;
    g_sub = g_pos = g_many = g_opt = g_any = g_anyhelp = g_rep = 0;
    int r = validate_placement(t);
    VX_ASSERT((r == ARGUS_SUCCESS) == (!g_any && g_anyhelp), "succeeds exactly when every rule holds");
    VX_ASSERT((r != ARGUS_SUCCESS) == g_rep, "fails exactly when a report was written");
    if (r == 0) { if (n > 3 && g_sub) VX_REACH("subcommands"); if (g_many) VX_REACH("variadic"); if (g_opt) VX_REACH("optional"); } else { if (g_any) VX_REACH("rule"); if (!g_any) VX_REACH("no help"); }
}
