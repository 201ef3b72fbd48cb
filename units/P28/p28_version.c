//@ src display/version_display.c
//@ src callbacks/handlers/version_handler.c
//@ src api/argus_display.c
//@ desc version_handler, argus_print_version, display_version: exactly the program name, " v" and the version when there is one, the line end, an empty line and the description on a line of its own when there is one; the handler succeeds
//@ nodfcc
//@ trust printf, puts, fputs, putchar with %s, %c and fixed text: print exactly that text (ISO C)
#include "p28.h"
#include "vx_out.h"
argus_t *G_a; int g_st; char g_pn[1], g_v[1], g_d[1];
/* states: 0 program, 1 " v" or line end, 2 'v', 3 version, 4 line end, 5 line ended, 6 description, 7 its line end, 8 done */
static int vx_text(const char *s) { return s == g_pn || s == g_v || s == g_d; }
static void vx_s(const char *s) { VX_ASSERT((g_st == 0 && s == g_pn) || (g_st == 3 && s == g_v) || (g_st == 6 && s == g_d), "program, version, description, in order"); g_st++; }
static void vx_c(char c) {
    if (g_st == 1 && G_a->version) { VX_ASSERT(c == ' ', "the version after the program"); g_st = 2; }
    else if (g_st == 2) { VX_ASSERT(c == 'v', "the version after the program"); g_st = 3; }
    else { VX_ASSERT(c == '\n' && (g_st == 1 || g_st == 4 || (g_st == 5 && G_a->description) || g_st == 7), "nothing but the line ends"); g_st = g_st == 1 ? 5 : g_st + 1; } }
#include "src0.c"
#include "src1.c"
#include "src2.c"
void harness(void) {
    g_pn[0] = nondet_char(); g_v[0] = nondet_char(); g_d[0] = nondet_char(); argus_t a; G_a = &a; a.program_name = g_pn; a.version = nondet_bool() ? &g_v[0] : 0; a.description = nondet_bool() ? &g_d[0] : 0; g_st = 0; argus_option_t o; char *v = nondet_bool() ? &g_d[0] : 0;
    if (nondet_bool()) { argus_print_version(&a); VX_REACH("api"); } else { VX_ASSERT(version_handler(&a, &o, v) == ARGUS_SUCCESS, "succeeds"); VX_REACH("handler"); } VX_ASSERT(g_st == (a.description ? 8 : 5), "everything it has");
    if (a.version && a.description) VX_REACH("all"); if (!a.version && !a.description) VX_REACH("bare");
}
