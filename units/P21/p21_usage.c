//@ src display/usage_display.c
//@ drop have_subcommand
//@ desc display_usage: exactly Usage:, the program, the active subcommands in order, [OPTIONS], every positional of the active table in order in the brackets that say whether it is required, with ... when variadic, COMMAND exactly when the table has subcommands, the line end; each once
//@ enforce display_usage
//@ fn display_usage 2
//@ loop 0
//@ assigns g_s; g_st
//@ inv {i} <= g_d && g_s == {i} && g_st == 1
//@ dec g_d - {i}
//@ loop 1
//@ assigns g_e; g_p; g_st; g_k
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && g_st == 4 && ({i} == 0 || (g_e == {i} - 1 && g_p == (G_t[g_e].type == TYPE_POSITIONAL ? 1 : 0)))
//@ dec g_n - {i}
//@ trust printf, puts, fputs, putchar with %s, %c and fixed text: print exactly that text (ISO C); get_active_options: the table of the innermost active command (discharged in p21_active)
//@ trust have_subcommand (discharged in p21_have)
#include "p21.h"
#define VX_NOFIXED
#include "vx_out.h"
int g_e, g_n, g_p, g_st, g_k, g_have; size_t g_s, g_d; argus_t *G_a; argus_option_t *G_t, g_sub[MAX_SUBCOMMAND_DEPTH]; char g_pn[1];
static void next(int i) { g_e = i; g_p = 0; if (i < g_n) VX_ASSUME(G_t[i].type != TYPE_NONE); }
const argus_option_t *get_active_options(argus_t *a) { VX_ASSERT(a == G_a, "of the context"); return G_t; }
static int vx_text(const char *s) { if (s == g_pn) return 1; if (g_st == 2) return g_s < g_d && s == g_sub[g_s].name; return g_st == 6 && g_e < g_n && s == G_t[g_e].name; }
/* states: 0 the word Usage, 1 after the program or a subcommand, 2 after the blank there, 3 the word [OPTIONS], 4 between positionals, 5 after the blank there, 6 the name, 7 after the name, 8 the word COMMAND, 9 the line end, 10 done */
static void vx_s(const char *s) {
    if (g_st == 0) { VX_ASSERT(g_k == 7 && s == g_pn, "the program first"); g_st = 1; }
    else if (g_st == 2) { VX_ASSERT(g_s < g_d && s == g_sub[g_s].name, "the active subcommands in order"); g_s++; g_st = 1; }
    else { VX_ASSERT(g_st == 6 && s == G_t[g_e].name, "a positional, once"); g_st = 7; g_k = 0; } }
static void vx_c(char c) {
    if (g_st == 0) { VX_ASSERT(g_k < 7 && c == "Usage: "[g_k], "Usage:"); g_k++; }
    else if (g_st == 1) { VX_ASSERT(c == ' ', "a blank"); g_st = 2; }
    else if (g_st == 2) { VX_ASSERT(c == '[' && g_s == g_d, "[OPTIONS] after the active subcommands"); g_st = 3; g_k = 0; }
    else if (g_st == 3) { VX_ASSERT(g_k < 8 && c == "OPTIONS]"[g_k], "[OPTIONS]"); g_k++; if (g_k == 8) g_st = 4; }
    else if (g_st == 4) { if (c == '\n') { VX_ASSERT(!g_have && G_t[g_e].type == TYPE_NONE, "the line end, last"); g_st = 10; } else { VX_ASSERT(c == ' ', "a blank"); g_st = 5; } }
    else if (g_st == 5) { if (c == 'C') { VX_ASSERT(g_have && G_t[g_e].type == TYPE_NONE, "COMMAND when there are subcommands, after the positionals"); g_st = 8; g_k = 1; }
        else { VX_ASSERT(g_e < g_n && !g_p && G_t[g_e].type == TYPE_POSITIONAL && c == (G_t[g_e].flags & FLAG_REQUIRED ? '<' : '['), "a positional, once, in its form"); g_st = 6; } }
    else if (g_st == 7) { if (g_k < 3 && G_t[g_e].value_type & VALUE_TYPE_VARIADIC) { VX_ASSERT(c == '.', "... when variadic"); g_k++; } else { VX_ASSERT(c == (G_t[g_e].flags & FLAG_REQUIRED ? '>' : ']'), "in its form"); g_st = 4; g_p = 1; } }
    else if (g_st == 8) { VX_ASSERT(g_k < 7 && c == "COMMAND"[g_k], "COMMAND"); g_k++; if (g_k == 7) g_st = 9; }
    else { VX_ASSERT(g_st == 9 && c == '\n', "the line end, last"); g_st = 10; } }
void display_usage(argus_t *argus, const argus_option_t *command)
__CPROVER_assigns(g_e, g_p, g_s, g_st, g_k);
#include "src0.c"
static bool have_subcommand(const argus_option_t *o) { VX_ASSERT(o == G_t, "of the active table"); return g_have != 0; }
void harness(void) {
    argus_t a; G_a = &a; int n; VX_ASSUME(0 <= n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; g_e = g_p = g_st = g_k = 0; g_s = 0; g_have = nondet_bool() ? 1 : 0; a.program_name = g_pn; g_d = a.subcommand_depth; VX_ASSUME(g_d <= MAX_SUBCOMMAND_DEPTH);
    for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) a.subcommand_stack[i] = &g_sub[i];
    display_usage(&a, 0); VX_ASSERT(g_st == 10, "the whole line"); if (g_have && g_d > 2 && g_e > 3) VX_REACH("long"); if (!g_e && !g_have) VX_REACH("short");
}
