//@ src display/help_display.c
//@ src callbacks/handlers/help_handler.c
//@ src api/argus_display.c
//@ nodfcc
//@ desc display_help, help_handler, argus_print_help, argus_print_usage: the entries of the given table (of the active one when none is given) are listed from an empty start, printed once, released, and the line ended; the help option prints the usage before it
//@ enforce display_help help_handler argus_print_help argus_print_usage
//@ trust organize_options, print_help_sections, free_help_data, display_usage, get_active_options: discharged in the other units of P21
#include "p21.h"
argus_t *G_a; argus_option_t g_act[1], g_giv[1]; const argus_option_t *G_want; help_data_t *g_d; int g_st, g_usage;
const argus_option_t *get_active_options(argus_t *a) { VX_ASSERT(a == G_a, "of the context"); return g_act; }
void organize_options(const argus_option_t *o, help_data_t *d) { VX_ASSERT(o == G_want && g_st == 0 && !d->groups && !d->ungrouped && !d->positionals && !d->subcommands, "the entries, from an empty start"); g_d = d; g_st = 1; d->groups = nondet_ptr(); d->ungrouped = nondet_ptr(); d->positionals = nondet_ptr(); d->subcommands = nondet_ptr(); }
void print_help_sections(argus_t *a, help_data_t *d) { VX_ASSERT(a == G_a && d == g_d && g_st == 1, "printed once"); g_st = 2; }
void free_help_data(help_data_t *d) { VX_ASSERT(d == g_d && g_st >= 2 && g_st != 3, "released once, after printing"); g_st = 3; }
void display_usage(argus_t *a, const argus_option_t *c) { VX_ASSERT(a == G_a && g_st == 0 && !g_usage, "the usage first"); g_usage = 1; }
void display_version(argus_t *a) { VX_ASSERT(0, "not asked for"); }
static int p_1(const char *f) { VX_ASSERT(eq(f, "\n") && g_st == 3, "the line end"); g_st = 4; return 1; }
static int p_s(const char *f, const char *s) { VX_ASSERT(0, "no other text"); return 0; }
#define printf(...) P_SEL(__VA_ARGS__, P2, P1)(__VA_ARGS__)
#include "src0.c"
#include "src1.c"
#include "src2.c"
void harness(void) {
    argus_t a; argus_option_t o; G_a = &a; g_st = g_usage = 0; int k = nondet_int(), e0 = a.error_code; G_want = k == 1 ? g_giv : g_act;
    if (k == 1) { display_help(&a, g_giv); VX_ASSERT(g_st == 4 && !g_usage, "complete"); VX_REACH("given"); }
    else if (k == 2) { display_help(&a, 0); VX_ASSERT(g_st == 4 && !g_usage, "complete"); VX_REACH("active"); }
    else if (k == 3) { int r = help_handler(&a, &o, 0); VX_ASSERT(g_st == 4 && g_usage && r == ARGUS_SUCCESS, "usage and help"); VX_REACH("handler"); }
    else if (k == 4) { argus_print_usage(&a); VX_ASSERT(g_st == 0 && g_usage, "usage"); VX_REACH("usage"); }
    else { argus_print_help(&a); VX_ASSERT(g_st == 4 && !g_usage, "complete"); VX_REACH("api"); }
    VX_ASSERT(a.error_code == e0, "no error");
}
