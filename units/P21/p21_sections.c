//@ src display/help/help_renderer.c
//@ drop print_option print_positional print_subcommand print_option_list print_positional_list print_subcommand_list
//@ desc print_help_sections: the positionals, every group that has options under its name in order, the general options and the subcommands, each under its heading and exactly once, nothing for an empty one; after the subcommands the full command to ask for more
//@ enforce print_help_sections
//@ fn print_help_sections 2
//@ loop 0
//@ assigns g_j; g_g.next; g_g.options; g_gst; g_w
//@ hyp ({l:group_info_t *} = g_j < g_c ? &g_g : 0), nextg()
//@ inv g_j <= g_c && {l:group_info_t *} == (g_j < g_c ? &g_g : (group_info_t *)0) && (g_j == 0 || g_gst == (g_g.options ? 2 : 0)) && g_st == (G_d->positionals ? 2 : 0) && g_w == 0
//@ dec g_c - g_j
//@ loop 1
//@ assigns g_s; g_w
//@ inv {i} <= g_d && g_s == {i} && g_st == 7 && g_w == 0
//@ dec g_d - {i}
//@ trust printf, puts, fputs, putchar with %s, %c and fixed text: print exactly that text (ISO C)
//@ trust print_option_list, print_positional_list, print_subcommand_list: every entry once in order (discharged in p21_list_*)
//@ trust lists are walked through a window: one node object stands for the node at hand
#include "p21.h"
#include "vx_out.h"
size_t g_j, g_c, g_s, g_d; int g_st, g_gst, g_w, g_k; const char *g_word; group_info_t g_g; option_entry_t g_gl, g_l[3]; help_data_t *G_d; argus_t *G_a; argus_option_t g_sub[MAX_SUBCOMMAND_DEPTH]; char g_gn[1], g_pn[1], g_sn[MAX_SUBCOMMAND_DEPTH];
static void nextg(void) { if (g_j < g_c) { g_g.next = g_j + 1 < g_c ? &g_g : 0; g_g.options = nondet_bool() ? &g_gl : 0; g_gst = 0; } g_j++; }
bool has_entries(option_entry_t *l) { return l != 0; }
bool has_groups(group_info_t *g) { return g != 0; }
static int groups_done(void) { return g_c == 0 || g_j == g_c + 1; }
static int mid(void) { return g_st == (G_d->positionals ? 2 : 0); }
static int vx_text(const char *s) { return s == g_gn || s == g_pn || (g_s < g_d && s == &g_sn[g_s]); }
/* g_w: 0 nothing open, 1 after an empty line, 2 in a fixed word, 3 after a group's name, 6 after its colon, 4 before the program's name, 5 after a blank of the hint */
static void word(const char *t) { g_word = t; g_k = 0; g_w = 2; }
static void vx_s(const char *s) {
    if (s == g_gn) { VX_ASSERT(g_w == 1 && g_g.options && g_gst == 0 && g_j > 0 && g_j <= g_c && mid(), "the heading of a group that has options"); g_gst = 1; g_w = 3; }
    else if (s == g_pn) { VX_ASSERT(g_w == 4 && g_st == 6, "the program's name"); g_st = 7; g_w = 0; }
    else { VX_ASSERT(g_st == 7 && g_w == 5 && g_s < g_d && s == &g_sn[g_s], "the active subcommands in order"); g_s++; g_w = 0; } }
static void vx_c(char c) {
    if (g_st == 8) return;
    if (g_w == 2) { VX_ASSERT(c == g_word[g_k], "the fixed text"); g_k++; if (!g_word[g_k]) g_w = g_st == 6 ? 4 : 0; }
    else if (g_w == 3) { VX_ASSERT(c == ':', "a colon after the name"); g_w = 6; }
    else if (g_w == 6) { VX_ASSERT(c == '\n', "the line end after the name"); g_w = 0; }
    else if (g_w == 5) { VX_ASSERT(c == 'C' && g_s == g_d, "the closing hint, after the active subcommands"); g_st = 8; g_w = 0; }
    else if (g_st == 7) { VX_ASSERT(g_w == 0 && c == ' ', "a blank"); g_w = 5; }
    else if (g_w == 0) { VX_ASSERT(c == '\n', "an empty line before a heading"); g_w = 1; }
    else { VX_ASSERT(g_w == 1, "a heading");
        if (c == 'A') { VX_ASSERT(G_d->positionals && g_st == 0 && g_j == 0, "the positionals' heading, first"); g_st = 1; word("rguments:\n"); }
        else if (c == 'O') { VX_ASSERT(G_d->ungrouped && mid() && groups_done(), "the general heading, after every group"); g_st = 3; word("ptions:\n"); }
        else if (c == 'C') { VX_ASSERT(G_d->subcommands && (G_d->ungrouped ? g_st == 4 : mid()) && groups_done(), "the subcommands' heading, last"); g_st = 5; word("ommands:\n"); }
        else { VX_ASSERT(c == 'R' && g_st == 6, "the closing hint"); word("un '"); } } }
void print_positional_list(argus_t *a, option_entry_t *l, size_t n) { VX_ASSERT(a == G_a && n == a->helper.config.option_indent && l && l == G_d->positionals && g_st == 1 && g_w == 0, "the positionals under their heading"); g_st = 2; }
void print_subcommand_list(argus_t *a, option_entry_t *l, size_t n) { VX_ASSERT(a == G_a && n == a->helper.config.option_indent && l && l == G_d->subcommands && g_st == 5 && g_w == 0, "the subcommands under their heading"); g_st = 6; }
void print_option_list(argus_t *a, option_entry_t *l, size_t n) { VX_ASSERT(a == G_a && n == a->helper.config.option_indent && l, "the options");
    if (l == &g_gl) { VX_ASSERT(g_gst == 1 && g_w == 0, "under their heading"); g_gst = 2; } else { VX_ASSERT(l == G_d->ungrouped && g_st == 3 && g_w == 0, "under their heading"); g_st = 4; } }
void print_help_sections(argus_t *argus, help_data_t *data)
__CPROVER_assigns(g_j, g_g.next, g_g.options, g_gst, g_st, g_s, g_w, g_k, g_word);
#include "src0.c"
void harness(void) {
    argus_t a; help_data_t d; G_a = &a; G_d = &d; g_j = g_s = 0; g_st = g_gst = g_w = g_k = 0; g_word = ""; g_c = nondet_size(); VX_ASSUME(g_c < 0xffffff); g_d = a.subcommand_depth; VX_ASSUME(g_d <= MAX_SUBCOMMAND_DEPTH); g_g.name = g_gn; a.program_name = g_pn;
    for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) a.subcommand_stack[i] = &g_sub[i], g_sub[i].name = &g_sn[i];
    d.groups = g_c ? &g_g : 0; d.positionals = nondet_bool() ? &g_l[0] : 0; d.ungrouped = nondet_bool() ? &g_l[1] : 0; d.subcommands = nondet_bool() ? &g_l[2] : 0;
    print_help_sections(&a, &d);
    VX_ASSERT(g_c == 0 || g_j == g_c + 1, "every group"); VX_ASSERT(g_st == (d.subcommands ? 8 : d.ungrouped ? 4 : d.positionals ? 2 : 0), "every section that has entries");
    if (g_c > 2 && d.subcommands && g_d > 2) VX_REACH("all"); if (!g_st) VX_REACH("groups only");
}
