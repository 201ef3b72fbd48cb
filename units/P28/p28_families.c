//@ src display/command_display.c
//@ drop print_command_line print_subcommand_paths display_available_subcommands has_executable_subcommands print_simple_commands_group display_all_commands
//@ desc print_command_families: in a table of any length every subcommand with runnable subcommands is listed once when it has an action, and after it each subcommand of its own table (of any length) that has an action, once, in order, by program, command and name and with its own help text; nothing else
//@ enforce print_command_families
//@ fn print_command_families 2
//@ loop 0
//@ assigns g_e; g_own; g_fin; g_hx; g_fb; g_b; g_j; g_l; __CPROVER_object_whole(G_t)
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && ({i} == 0 || (g_e == {i} - 1 && g_own == (FAM(g_e) && G_t[g_e].action != 0 ? 1 : 0) && g_fin == (FAM(g_e) ? 1 : 0)))
//@ dec g_n - {i}
//@ loop 1
//@ assigns g_j; g_l; g_b; g_fin
//@ hyp next2({i})
//@ inv 0 <= {i} && {i} <= g_m && !g_fin && ({i} == 0 || (g_j == {i} - 1 && g_l == (RUN(g_j) ? 1 : 0)))
//@ dec g_m - {i}
//@ trust snprintf "%s %s" writes the two texts (up to 511 characters for a command, 1023 for its subcommands)
//@ trust has_executable_subcommands (discharged in p28_exec), print_command_line (discharged in p28_line)
#include "p28.h"
int g_e, g_n, g_j, g_m, g_own, g_fin, g_l, g_hx; argus_option_t *G_t, *G_s; argus_t *G_a; char g_pn[1], *g_fb, *g_b;
#define FAM(e) (G_t[e].type == TYPE_SUBCOMMAND && g_hx)
#define RUN(j) (G_s[j].type == TYPE_SUBCOMMAND && G_s[j].action != 0)
static void next(int i) { g_e = i; g_own = g_fin = 0; g_fb = 0; g_hx = nondet_bool() ? 1 : 0; if (i < g_n) { VX_ASSUME(G_t[i].type != TYPE_NONE); G_t[i].sub_options = g_hx ? G_s : 0; } else VX_ASSUME(G_t[i].type == TYPE_NONE); }
static void next2(int j) { g_j = j; g_l = 0; g_b = 0; if (j < g_m) VX_ASSUME(G_s[j].type != TYPE_NONE); else g_fin = 1; }
static int join(char *s, size_t n, const char *f, const char *x, const char *y) {
    VX_ASSERT(n >= 512 && n <= __CPROVER_OBJECT_SIZE(s) && __CPROVER_POINTER_OFFSET(s) == 0, "room for the path"); VX_MODEL(eq(f, "%s %s"), "joins two texts");
    if (!g_fb) { VX_ASSERT(g_e < g_n && x == g_pn && y == G_t[g_e].name, "the program and the name of the command at hand"); g_fb = s; }
    else { VX_ASSERT(FAM(g_e) && x == g_fb && g_j < g_m && y == G_s[g_j].name && s != g_fb && n >= 1024, "the command's path and the name of its subcommand"); g_b = s; } return 1; }
#define snprintf(s, n, f, x, y) join(s, n, f, x, y)
static int p_1(const char *f) { VX_ASSERT(eq(f, "\n"), "only an empty line"); return 1; }
static int p_s(const char *f, const char *s) { VX_ASSERT(0, "no other text"); return 1; }
#define printf(...) P_SEL(__VA_ARGS__, PR3, PR2, PR1)(__VA_ARGS__)
static void print_command_line(const char *p, const char *d, argus_t *a) {
    VX_ASSERT(g_e < g_n && FAM(g_e) && a == G_a && p && !g_fin, "in a family");
    if (p == g_fb) { VX_ASSERT(!g_own && G_t[g_e].action && d == G_t[g_e].help && g_j == -1, "the command itself, once, first, with its help text"); g_own = 1; }
    else { VX_ASSERT(p == g_b && 0 <= g_j && g_j < g_m && RUN(g_j) && !g_l && d == G_s[g_j].help, "a subcommand that can be run, once, by its path, with its help text"); g_l = 1; } }
static void print_command_families(argus_t *argus, bool printed_simple_commands)
__CPROVER_assigns(g_e, g_own, g_fin, g_hx, g_fb, g_b, g_j, g_l, __CPROVER_object_whole(G_t));
#include "src0.c"
static bool has_executable_subcommands(const argus_option_t *o) { VX_ASSERT(g_e < g_n && o == &G_t[g_e], "about the command at hand"); g_j = -1; return g_hx != 0; }
void harness(void) {
    int n, m; VX_ASSUME(0 <= n && n < 0xfffff && 0 <= m && m < 0xfffff); g_n = n; g_m = m; argus_option_t t[n + 1], s[m + 1]; VX_ASSUME(t[n].type == TYPE_NONE && s[m].type == TYPE_NONE); G_t = t; G_s = s; argus_t a; G_a = &a; a.options = t; a.program_name = g_pn;
    g_e = g_own = g_fin = g_l = g_hx = 0; g_j = -1; g_fb = g_b = 0;
    print_command_families(&a, nondet_bool()); VX_ASSERT(g_e == n, "the whole table"); if (n > 3 && m > 3) VX_REACH("several"); if (!n) VX_REACH("none");
}
