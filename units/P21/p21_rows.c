//@ src display/help/help_renderer.c
//@ drop print_option_list print_positional_list print_subcommand_list print_help_sections
//@ nodfcc
//@ desc print_option, print_positional, print_subcommand: the indented name (a positional in the brackets that say whether it is required, with ... when variadic), then the description from the description column on, or after two blanks when the name reaches it; each exactly once
//@ enforce print_option print_positional print_subcommand
//@ trust printf, puts, fputs, putchar with %s, %c and fixed text: print exactly that text (ISO C); strlen of the name; print_option_name: the width it printed (discharged in p27_name); putnchar: that many blanks (discharged in p22_putnchar)
#include "p21.h"
static size_t vx_w(void);
#define VX_BEGIN size_t w = vx_w();
#define VX_WRITTEN (int)(vx_w() - w)
#include "vx_out.h"
argus_t *G_a; argus_option_t *G_o; size_t g_in, g_len, g_w; int g_st, g_k, g_kind; char g_nm[1];
static size_t vx_strlen(const char *s) { VX_MODEL(s == g_nm, "the name"); return g_len; }
static size_t vx_w(void) { return g_w; }
static int vx_text(const char *s) { return s == g_nm; }
/* states: 0 start, 1 indented, 2 the name, 3 dots and closing bracket, 4 the description, 5 done */
static void vx_s(const char *s) { VX_ASSERT(g_kind && g_st == (g_kind == 2 ? 1 : 2), "the name once, after the indentation"); g_st = g_kind == 2 ? 4 : 3; g_k = 0; g_w += g_len; }
static void vx_c(char c) { _Bool r = G_o->flags & FLAG_REQUIRED; VX_ASSERT(g_kind == 1, "the name alone"); g_w++;
    if (g_st == 1) { VX_ASSERT(c == (r ? '<' : '['), "the form of a positional"); g_st = 2; } else { VX_ASSERT(g_st == 3, "the form of a positional");
        if (g_k < 3 && G_o->value_type & VALUE_TYPE_VARIADIC) { VX_ASSERT(c == '.', "... when variadic"); g_k++; } else { VX_ASSERT(c == (r ? '>' : ']'), "the form of a positional"); g_st = 4; } } }
int putnchar(char c, size_t n) { VX_ASSERT(c == ' ' && n == g_in && g_st == 0 && g_kind, "the indentation first"); g_st = 1; g_w += n; return (int)n; }
size_t print_option_name(argus_t *a, const argus_option_t *o, size_t n) { VX_ASSERT(a == G_a && o == G_o && n == g_in && g_st == 0 && g_kind == 0, "the option's names, indented"); g_st = 4; g_w = g_len; return g_w; }
void print_option_description(argus_t *a, const argus_option_t *o, size_t p) { VX_ASSERT(a == G_a && o == G_o && g_st == 4, "its description, after the name"); g_st = 5; size_t c = a->helper.config.description_column; VX_ASSERT(p == (c > g_w ? c - g_w : 2), "in the description column"); }
#define strlen vx_strlen
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; G_a = &a; G_o = &o; o.name = g_nm; g_in = nondet_size(); g_len = nondet_size(); VX_ASSUME(g_in < 100000 && g_len < 1000000); g_w = 0; g_st = 0; g_kind = nondet_int(); VX_ASSUME(0 <= g_kind && g_kind <= 2);
    if (g_kind == 0) print_option(&a, &o, g_in); else if (g_kind == 1) print_positional(&a, &o, g_in); else print_subcommand(&a, &o, g_in);
    VX_ASSERT(g_st == 5, "name and description"); if (g_kind == 0) VX_REACH("option"); if (g_kind == 1 && (o.value_type & VALUE_TYPE_VARIADIC)) VX_REACH("positional"); if (g_kind == 2) VX_REACH("subcommand");
}
