//@ src display/command_display.c
//@ drop print_command_line display_available_subcommands has_executable_subcommands print_simple_commands_group print_command_families display_all_commands
//@ selfcall print_subcommand_paths
//@ desc print_subcommand_paths: in a table of any length every subcommand is listed once, in order, by the path so far and its name and with its own help text, and right after it the commands below it, by its own path; nothing else is listed
//@ enforce print_subcommand_paths
//@ fn print_subcommand_paths 1
//@ loop 0
//@ assigns g_e; g_l; g_r; g_b; g_b2; *{p3}
//@ hyp next({i})
//@ inv 0 <= {i} && {i} <= g_n && ({i} == 0 || (g_e == {i} - 1 && g_l == (G_t[g_e].type == TYPE_SUBCOMMAND ? 1 : 0) && g_r == (G_t[g_e].type == TYPE_SUBCOMMAND && G_t[g_e].sub_options != 0 ? 1 : 0)))
//@ dec g_n - {i}
//@ trust snprintf "%s %s" writes the two texts (up to 511 characters); printf of fixed text
//@ trust the recursive call is seen through this contract (induction over the nesting of the tables, which is finite); print_command_line (discharged in p28_line)
#include "p28.h"
int g_e, g_n, g_l, g_r; argus_option_t *G_t; argus_t *G_a; char g_base[1], *g_b, *g_b2; bool g_first;
static void next(int i) { g_e = i; g_l = g_r = 0; g_b = g_b2 = 0; if (i < g_n) VX_ASSUME(G_t[i].type != TYPE_NONE); }
static int join(char *s, size_t n, const char *f, const char *x, const char *y) {
    VX_ASSERT(n >= 512 && n <= __CPROVER_OBJECT_SIZE(s) && __CPROVER_POINTER_OFFSET(s) == 0, "room for the path"); VX_MODEL(eq(f, "%s %s"), "joins two texts");
    VX_ASSERT(g_e < g_n && x == g_base && y == G_t[g_e].name, "the path so far and the name of the subcommand at hand"); g_b2 = g_b; g_b = s; return 1; }
#define snprintf(s, n, f, x, y) join(s, n, f, x, y)
static int p_1(const char *f) { VX_ASSERT(eq(f, "\n"), "only an empty line"); return 1; }
static int p_s(const char *f, const char *s) { VX_ASSERT(0, "no other text"); return 1; }
#define printf(...) P_SEL(__VA_ARGS__, PR3, PR2, PR1)(__VA_ARGS__)
static void print_command_line(const char *p, const char *d, argus_t *a) {
    VX_ASSERT(g_e < g_n && G_t[g_e].type == TYPE_SUBCOMMAND && !g_l && !g_r, "a subcommand is listed once, before those below it");
    VX_ASSERT(p && (p == g_b || p == g_b2) && d == G_t[g_e].help && a == G_a, "by its path, with its help text"); g_l = 1; }
void vx_self_print_subcommand_paths(const argus_option_t *o, const char *b, argus_t *a, bool *f) {
    VX_ASSERT(g_e < g_n && G_t[g_e].type == TYPE_SUBCOMMAND && g_l && !g_r && o && o == G_t[g_e].sub_options, "the commands below the one just listed, once");
    VX_ASSERT(b && (b == g_b || b == g_b2) && a == G_a && f, "by its own path"); g_r = 1; }
static void print_subcommand_paths(const argus_option_t *o, const char *b, argus_t *a, bool *f)
__CPROVER_assigns(g_e, g_l, g_r, g_b, g_b2, *f);
#include "src0.c"
void harness(void) {
    int n; VX_ASSUME(0 <= n && n < 0xfffff); g_n = n; argus_option_t t[n + 1]; VX_ASSUME(t[n].type == TYPE_NONE); G_t = t; argus_t a; G_a = &a; g_e = g_l = g_r = 0; g_b = g_b2 = 0; g_first = nondet_bool();
    print_subcommand_paths(t, g_base, &a, &g_first); VX_ASSERT(g_e == n, "the whole table"); if (n > 3) VX_REACH("several"); if (n == 0) VX_REACH("none");
}
