//@ src display/command_display.c
//@ drop print_subcommand_paths display_available_subcommands has_executable_subcommands print_simple_commands_group print_command_families display_all_commands
//@ desc print_command_line: exactly two blanks, the path, blanks up to the description column (two when there is no room), the help text behind a dash when there is one, the line end; for paths and columns of any size
//@ enforce print_command_line
//@ fn print_command_line 1
//@ loop 0
//@ assigns g_pad
//@ inv {i} <= g_want && g_pad == {i} && g_st == 3
//@ dec g_want - {i}
//@ trust printf, puts, fputs, putchar with %s, %c and fixed text: print exactly that text (ISO C); strlen: the length of the path
#include "p28.h"
#include "vx_out.h"
const char *G_p, *G_d; argus_t *G_a; size_t g_len, g_want, g_pad; int g_st; char g_path[1], g_desc[1];
size_t strlen(const char *s) { VX_MODEL(s == G_p, "length of the path"); return g_len; }
static int vx_text(const char *s) { return s == g_path || s == g_desc; }
/* states: 0, 1 indent, 2 path, 3 blanks, 4 after the dash, 5 help, 6 line end, 7 done */
static void vx_c(char c) {
    if (g_st < 2) { VX_ASSERT(c == ' ', "the indent"); g_st++; }
    else if (g_st == 3 && g_pad < g_want) { VX_ASSERT(c == ' ', "blanks up to the column"); g_pad++; }
    else if (g_st == 3 && G_d) { VX_ASSERT(c == '-', "the dash"); g_st = 4; }
    else if (g_st == 4) { VX_ASSERT(c == ' ', "a blank after the dash"); g_st = 5; }
    else { VX_ASSERT((g_st == 3 || g_st == 6) && c == '\n', "the line end, last"); g_st = 7; } }
static void vx_s(const char *s) { VX_ASSERT((g_st == 2 && s == G_p) || (g_st == 5 && G_d && s == G_d), "the path first, the help text in its column, once"); g_st++; }
static void print_command_line(const char *p, const char *d, argus_t *a)
__CPROVER_assigns(g_pad, g_st);
#include "src0.c"
void harness(void) {
    g_path[0] = nondet_char(); g_desc[0] = nondet_char(); argus_t a; G_a = &a; G_p = g_path; G_d = nondet_bool() ? &g_desc[0] : 0; g_len = nondet_size(); VX_ASSUME(g_len <= PTRDIFF_MAX); g_pad = g_st = 0;
    size_t c = a.helper.config.description_column; g_want = c > g_len + 2 ? c - g_len - 2 : 2;
    print_command_line(G_p, G_d, &a); VX_ASSERT(g_st == 7, "the whole line"); if (g_pad > 3 && G_d) VX_REACH("padded"); if (!G_d) VX_REACH("no text");
}
