//@ src core/parsing/option_handle_short.c
//@ desc handle_short_option: the characters are looked up left to right, each exactly once; a flag gets no value, the first option with a value gets the rest or the next token (consumed) and ends the cluster; the first unknown character, missing value or failing option is the result and nothing after it happens
//@ enforce handle_short_option
//@ fn handle_short_option 1
//@ loop 0
//@ assigns g_pos; g_done; g_end; g_found; g_opt; g_execs; {p0}->error_code; *{p5}
//@ inv g_end == 0 && !g_found && g_pos <= g_len && {i} <= g_len + 1 && (g_done ? ({i} >= g_len && (*{p5} == G_i || *{p5} == G_i + 1)) : ({i} == g_pos && *{p5} == G_i))
//@ dec g_len + 1 - {i}
//@ trust strlen: ISO C contract over a text of symbolic length
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
//@ trust find_option_by_sname, execute_callbacks: by contract (discharged in P01 and P10)
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "vx_err.h"
#include <string.h>
size_t g_len, g_pos; _Bool g_done, g_found; int g_end; int g_execs;
char *G_arg; argus_t *G_a; argus_option_t *G_o; char **G_argv; int G_i, G_argc; int *G_cur;
argus_option_t g_opt;
size_t strlen(const char *s) { VX_MODEL(s == G_arg, "length of the cluster"); return g_len; }
argus_option_t *find_option_by_sname(argus_option_t *o, char c) {
    VX_ASSERT(o == G_o, "looks in the given table");
    VX_ASSERT(!g_done && g_end == 0 && !g_found, "nothing is looked up after the end of the cluster");
    VX_ASSERT(g_pos < g_len && c == G_arg[g_pos], "looks up the next character");
    if (nondet_bool()) { g_end = ARGUS_ERROR_INVALID_ARGUMENT; return 0; }
    g_opt.value_type = nondet_int();
    if (g_opt.value_type != VALUE_TYPE_FLAG && g_pos + 1 == g_len && !(G_i + 1 < G_argc)) g_end = ARGUS_ERROR_MISSING_VALUE;
    g_found = 1;
    return &g_opt;
}
int execute_callbacks(argus_t *a, argus_option_t *o, char *v) {
    VX_ASSERT(g_found && g_end == 0 && a == G_a && o == &g_opt, "applies the option just found, once");
    g_found = 0; if (g_execs < 1000) g_execs++;
    if (o->value_type == VALUE_TYPE_FLAG) {
        VX_ASSERT(v == 0 && *G_cur == G_i, "a flag takes nothing");
        g_pos++;
    } else {
        if (g_pos + 1 < g_len) VX_ASSERT(v == G_arg + g_pos + 1 && *G_cur == G_i, "value is the rest of the token");
        else VX_ASSERT(G_i + 1 < G_argc && *G_cur == G_i + 1 && v == G_argv[G_i + 1], "value is the next token");
        g_done = 1;
    }
    int st = nondet_int(); if (st != ARGUS_SUCCESS) g_end = st;
    return st;
}
int handle_short_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc, int *current_index)
__CPROVER_assigns(argus->error_code, *current_index, g_pos, g_done, g_end, g_found, g_opt, g_execs);
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len;
    char arg[len + 1];
    int argc = nondet_int(), i = nondet_int(), cur; VX_ASSUME(0 < argc && argc < 0x7ffffff && 0 <= i && i < argc);
    char *argv[argc + 1]; cur = i; if (i + 1 < argc) VX_ASSUME(argv[i + 1] != 0);  /* tokens are texts */
    argus_t a;
    G_arg = arg; G_a = &a; G_o = nondet_ptr(); G_argv = argv; G_i = i; G_argc = argc; G_cur = &cur;
    g_pos = 0; g_done = g_found = 0; g_end = 0; g_execs = 0;
    int r = handle_short_option(&a, G_o, arg, argv, argc, &cur);
    if (g_end) {
        VX_ASSERT(r == g_end, "the first failure is the result");
        if (r == ARGUS_ERROR_INVALID_ARGUMENT && g_execs == 0) VX_REACH("unknown character");
        if (g_found) { VX_ASSERT(r == ARGUS_ERROR_MISSING_VALUE && a.error_code == r && cur == i, "missing value"); VX_REACH("missing value"); }
    } else {
        VX_ASSERT(r == ARGUS_SUCCESS && !g_found && (g_done || g_pos == len), "success only after the whole cluster");
        VX_ASSERT(cur == i || (cur == i + 1 && g_done), "consumes at most the next token");
        if (g_done && g_pos > 1) VX_REACH("flags then value"); if (!g_done && len > 2) VX_REACH("flags only");
    }
}
