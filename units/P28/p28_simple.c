//@ src display/command_display.c
//@ drop print_command_line print_subcommand_paths display_available_subcommands has_executable_subcommands print_command_families display_all_commands
//@ desc print_simple_commands_group: in a table of any length every subcommand with an action and without runnable subcommands is listed once, in order, by program and name and with its own help text; nothing else; tells whether there was one
//@ enforce print_simple_commands_group
//@ fn print_simple_commands_group 1
//@ loop 0
//@ assigns g_e; g_l; g_b; g_hx; g_any
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && ({l:bool#0} != 0) == (g_any != 0) && ({i} == 0 || (g_e == {i} - 1 && g_l == (SIMPLE(g_e) ? 1 : 0)))
//@ dec g_n - {i}
//@ trust snprintf "%s %s" writes the two texts (up to 511 characters)
//@ trust has_executable_subcommands (discharged in p28_exec), print_command_line (discharged in p28_line)
#include "p28.h"
int g_e, g_n, g_l, g_hx, g_any; argus_option_t *G_t; argus_t *G_a; char g_pn[1], *g_b;
#define SIMPLE(e) (G_t[e].type == TYPE_SUBCOMMAND && G_t[e].action != 0 && !g_hx)
static void next(int i) { g_e = i; g_l = 0; g_b = 0; g_hx = nondet_bool() ? 1 : 0; if (i < g_n) VX_ASSUME(G_t[i].type != TYPE_NONE); }
static int join(char *s, size_t n, const char *f, const char *x, const char *y) {
    VX_ASSERT(n >= 512 && n <= __CPROVER_OBJECT_SIZE(s) && __CPROVER_POINTER_OFFSET(s) == 0, "room for the path"); VX_MODEL(eq(f, "%s %s"), "joins two texts");
    VX_ASSERT(g_e < g_n && x == g_pn && y == G_t[g_e].name, "the program and the name of the command at hand"); g_b = s; return 1; }
#define snprintf(s, n, f, x, y) join(s, n, f, x, y)
static void print_command_line(const char *p, const char *d, argus_t *a) {
    VX_ASSERT(g_e < g_n && SIMPLE(g_e) && !g_l, "a command that can be run, once");
    VX_ASSERT(p && p == g_b && d == G_t[g_e].help && a == G_a, "by its path, with its help text"); g_l = 1; g_any = 1; }
static bool print_simple_commands_group(argus_t *argus)
__CPROVER_assigns(g_e, g_l, g_b, g_hx, g_any);
#include "src0.c"
static bool has_executable_subcommands(const argus_option_t *o) { VX_ASSERT(g_e < g_n && o == &G_t[g_e], "about the command at hand"); return g_hx != 0; }
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; argus_t a; G_a = &a; a.options = t; a.program_name = g_pn; g_e = g_l = g_hx = g_any = 0; g_b = 0;
    bool r = print_simple_commands_group(&a); VX_ASSERT(g_e == n, "the whole table"); VX_ASSERT((r != 0) == (g_any != 0), "tells whether there was one"); if (n > 3 && r) VX_REACH("several"); if (n > 2 && !r) VX_REACH("none");
}
