//@ src core/parsing/parse_args.c
//@ drop find_subcommand
//@ desc parse_args: every token is dispatched exactly once, in order, by its form; values consumed by an option are not read again; after -- everything is positional; the first failure ends parsing and is the result
//@ enforce parse_args
//@ fn parse_args 1
//@ loop 0
//@ assigns g_next; g_pos; g_only; g_expect; g_form; g_asked; g_num; g_err; g_final; g_sub; g_pt; __CPROVER_object_whole({p3}); {p0}->error_code
//@ hyp HYP({p3},{i})
//@ body BODY({i})
//@ inv 0 <= {i} && ({i} == 0 || {i} <= {p2}) && {i} == g_next && !g_expect && !g_err && !g_final && status == 0 && positional_index == g_pos && only_positional == g_only && 0 <= g_pos && g_pos <= {i}
//@ dec {p2} - {i}
//@ trust tokens are represented by their first three characters (the dispatch depends on no others); strcmp, starts_with, isdigit: exact on them
//@ trust handle_long_option, handle_short_option, handle_positional, find_subcommand, handle_subcommand, find_positional: by contract (discharged in P01, P02, P03, P05)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "vx_err.h"
#include <string.h>
#include <ctype.h>
enum { LONG = 1, DASH, DASHNUM, WORD, POS };
int g_next, g_pos, g_expect, g_form, g_err, G_argc; _Bool g_only, g_asked, g_num, g_final, g_sub;
typedef struct { char c[4]; } tok_t; tok_t *g_tok; argus_t *G_a; argus_option_t *G_o; char **G_argv; argus_option_t g_pt, g_st;
#define HYP(av, i) ((i) < G_argc ? ((av)[i] = g_tok[i].c) : (char *)0), __CPROVER_assume((i) < G_argc ==> g_tok[i].c[3] == 0)
#define DIG(c) ((c) >= '0' && (c) <= '9')
#define BODY(i) { VX_ASSERT((i) == g_next && !g_expect && !g_err && !g_final, "the next unread token, after a finished one"); \
    char *t_ = g_tok[i].c; g_next = (i) + 1; g_asked = 0; g_num = 0; \
    if (!g_only && t_[0] == '-' && t_[1] == '-' && t_[2] == 0) g_only = 1, g_expect = 0; \
    else g_expect = g_only ? POS : t_[0] == '-' && t_[1] == '-' ? LONG : \
         t_[0] == '-' ? (DIG(t_[1]) || (t_[1] == '.' && DIG(t_[2])) ? DASHNUM : DASH) : WORD; }
static int out(int st) { if (st) g_err = st; return st; }
int strcmp(const char *a, const char *b) {
    if (!(b[0] == '-' && b[1] == '-' && b[2] == 0)) { const char *t = a; a = b; b = t; }
    VX_MODEL(b[0] == '-' && b[1] == '-' && b[2] == 0, "compares with --");
    return !(a[0] == '-' && a[1] == '-' && a[2] == 0);
}
char *starts_with(const char *p, const char *s) {
    VX_MODEL(p[0] == '-' && (p[1] == 0 || (p[1] == '-' && p[2] == 0)), "prefix - or --");
    if (s[0] != '-') return 0;
    if (p[1] == 0) return (char *)s + 1;
    return s[1] == '-' ? (char *)s + 2 : 0;
}
int isdigit(int c) { return DIG(c); }
argus_option_t *find_positional(argus_option_t *o, int p) {
    VX_ASSERT(o == G_o && p == g_pos, "asks for the next positional");
    g_pt.value_type = nondet_int(); g_asked = 1;
    g_num = nondet_bool() && (g_pt.value_type & (VALUE_TYPE_INT | VALUE_TYPE_FLOAT | VALUE_TYPE_VARIADIC_INT | VALUE_TYPE_VARIADIC_FLOAT));
    if (g_num) return &g_pt;
    if (nondet_bool()) return 0;
    VX_ASSUME(!(g_pt.value_type & (VALUE_TYPE_INT | VALUE_TYPE_FLOAT | VALUE_TYPE_VARIADIC_INT | VALUE_TYPE_VARIADIC_FLOAT)));
    return &g_pt;
}
int handle_positional(argus_t *a, argus_option_t *o, char *v, int pos) {
    VX_ASSERT(!g_err && !g_final, "nothing after the end");
    VX_ASSERT(a == G_a && o == G_o && g_next > 0 && v == g_tok[g_next - 1].c && pos == g_pos, "the current token is the next positional");
    VX_ASSERT(g_expect == POS || (g_expect == DASHNUM && g_asked && g_num) || (g_expect == WORD && g_sub), "this form is positional");
    g_expect = 0; g_sub = 0; g_pos++;
    return out(nondet_int());
}
static int consume(int *cur) {
    VX_ASSERT(*cur == g_next - 1, "the option is told its place");
    if (*cur + 1 < G_argc && nondet_bool()) { *cur += 1; g_next++; }
    g_expect = 0;
    return out(nondet_int());
}
int handle_long_option(argus_t *a, argus_option_t *o, char *v, char **av, int ac, int *cur) {
    VX_ASSERT(!g_err && !g_final && a == G_a && o == G_o && av == G_argv && ac == G_argc && g_next > 0 && v == g_tok[g_next - 1].c + 2, "text after --");
    VX_ASSERT(g_expect == LONG, "this form is a long option");
    return consume(cur);
}
int handle_short_option(argus_t *a, argus_option_t *o, char *v, char **av, int ac, int *cur) {
    VX_ASSERT(!g_err && !g_final && a == G_a && o == G_o && av == G_argv && ac == G_argc && g_next > 0 && v == g_tok[g_next - 1].c + 1, "text after -");
    VX_ASSERT(g_expect == DASH || (g_expect == DASHNUM && g_asked && !g_num), "this form is a short cluster");
    return consume(cur);
}
int find_subcommand(argus_t *a, argus_option_t *o, const char *name, argus_option_t **res) {
    VX_ASSERT(!g_err && !g_final && g_expect == WORD && a == G_a && o == G_o && name == g_tok[g_next - 1].c, "a word is looked up as a subcommand");
    *res = 0; g_sub = 0;
    int st = nondet_int();
    if (st) return out(st);
    if (nondet_bool()) *res = &g_st; else g_sub = 1;
    return 0;
}
int handle_subcommand(argus_t *a, argus_option_t *s, int ac, char **av) {
    VX_ASSERT(!g_err && !g_final && g_expect == WORD && !g_sub && a == G_a && s == &g_st, "the subcommand found");
    VX_ASSERT(ac == G_argc - g_next && av == &G_argv[g_next], "all remaining tokens go to the subcommand");
    g_final = 1; g_expect = 0;
    return out(nondet_int());
}
int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
__CPROVER_assigns(argus->error_code, g_next, g_pos, g_only, g_expect, g_form, g_asked, g_num, g_err, g_final, g_sub, g_pt, __CPROVER_object_whole(argv));
#include "src0.c"
void harness(void) {
    int argc; VX_ASSUME(argc < 0x7ffffff); size_t n = argc > 0 ? (size_t)argc : 0;
    tok_t tok[n + 1]; char *argv[n + 1]; argus_t a;
    G_argc = argc; g_tok = tok; G_argv = argv; G_a = &a; G_o = nondet_ptr();
    g_next = g_pos = g_expect = g_err = 0; g_only = g_asked = g_num = g_final = g_sub = 0;
    int r = parse_args(&a, G_o, argc, argv);
    if (g_err) { VX_ASSERT(r == g_err, "the first failure is the result"); VX_REACH("failure"); if (g_pos > 2) VX_REACH("failure after positionals"); }
    else {
        VX_ASSERT(r == 0, "success");
        VX_ASSERT(!g_expect && (g_final || g_next == (int)n), "every token was interpreted");
        if (g_final) VX_REACH("subcommand"); else if (g_only && g_pos > 1) VX_REACH("after --"); else if (n > 3) VX_REACH("all tokens"); 
    }
}
