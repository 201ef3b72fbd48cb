//@ src display/command_display.c
//@ drop print_command_line print_subcommand_paths has_executable_subcommands print_simple_commands_group print_command_families
//@ desc display_available_subcommands, display_all_commands: the selected command is named, everything below it is listed once by its path, then the program and the selected commands in order; without a selection the simple commands, then the families, each once, then the program
//@ nodfcc
//@ cbmc --unwind 9
//@ trust printf for the formats given: prints exactly that text (ISO C); the stack holds at most MAX_SUBCOMMAND_DEPTH commands (P05): the loop over it ends within that constant
//@ trust print_subcommand_paths, print_simple_commands_group, print_command_families (discharged in p28_paths, p28_simple, p28_families)
#include "p28.h"
argus_t *G_a; const argus_option_t *G_c; argus_option_t g_sub[MAX_SUBCOMMAND_DEPTH]; int g_st, g_all; size_t g_s; _Bool g_r; char g_pn[1], g_nm[1]; argus_option_t g_tab[1];
static int p_1(const char *f) { return 1; }
static int p_s(const char *f, const char *s) {
    if (s == g_pn) { VX_ASSERT(g_st == (g_all ? 2 : G_c->sub_options ? 2 : 1), "the program after the list"); g_st = 3; return 1; }
    if (g_all) { VX_ASSERT(0, "no other text"); return 1; }
    if (g_st == 0) { VX_ASSERT(s == g_nm, "the selected command first"); g_st = 1; return 1; }
    VX_ASSERT(g_st == 3 && g_s < G_a->subcommand_depth && s == g_sub[g_s].name && eq(f, " %s"), "the selected commands in order"); g_s++; return 1; }
#define printf(...) P_SEL(__VA_ARGS__, PR3, PR2, PR1)(__VA_ARGS__)
#include "src0.c"
static void print_subcommand_paths(const argus_option_t *o, const char *b, argus_t *a, bool *f) { VX_ASSERT(!g_all && g_st == 1 && o && o == G_c->sub_options && b == G_c->name && a == G_a && f, "everything below the selected command, once"); g_st = 2; }
static bool print_simple_commands_group(argus_t *a) { VX_ASSERT(g_all && g_st == 0 && a == G_a && a->options, "the simple commands, once"); g_st = 1; return g_r; }
static void print_command_families(argus_t *a, bool p) { VX_ASSERT(g_all && g_st == 1 && a == G_a, "the families, once, after them"); g_st = 2; }
void harness(void) {
    argus_t a; G_a = &a; a.program_name = g_pn; g_st = 0; g_s = 0; g_r = nondet_bool(); g_all = nondet_bool() ? 1 : 0; size_t d = a.subcommand_depth; VX_ASSUME(d <= MAX_SUBCOMMAND_DEPTH);
    for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) a.subcommand_stack[i] = &g_sub[i];
    argus_option_t c; c.name = g_nm; c.sub_options = nondet_bool() ? &g_tab[0] : 0; G_c = &c; a.options = nondet_bool() ? &g_tab[0] : 0;
    if (g_all) { if (!a.options) g_st = 2; display_all_commands(&a); VX_ASSERT(g_st == 3, "the whole list"); if (a.options) VX_REACH("all"); }
    else { display_available_subcommands(&a, &c); VX_ASSERT(g_st == 3 && g_s == d, "the whole list"); if (d > 3 && c.sub_options) VX_REACH("below"); if (!c.sub_options) VX_REACH("nothing below"); }
}
