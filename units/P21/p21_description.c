//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_default_info append_validator_info append_env_info append_flag_info build_option_description
//@ nodfcc
//@ desc print_option_description: the given blanks, or a new line and the description column when there are fewer than four, then "- ", the description wrapped to the configured width and a line end, each once; the description is released
//@ enforce print_option_description
//@ trust printf for the formats given: prints exactly that text (ISO C); build_option_description (discharged in P27), print_wrapped_text and putnchar (discharged in P22)
#include "p21.h"
#include "argus/internal/cross_platform.h"
#include "argus/options.h"
argus_t *G_a; argus_option_t *G_o; size_t g_pad; int g_st, g_live; char *G_desc;
char *build_option_description(argus_t *a, const argus_option_t *o) { VX_ASSERT(a == G_a && o == G_o && !g_live && g_st <= 3, "the option's description"); if (G_desc) g_live = 1; return G_desc; }
void print_wrapped_text(const char *t, size_t in, size_t w) { VX_ASSERT(t == G_desc && g_live && in == G_a->helper.config.description_column && w == G_a->helper.config.max_line_width && g_st == 3, "the description, wrapped from its column"); g_st = 4; }
int putnchar(char c, size_t n) { VX_ASSERT(c == ' ' && n == (g_pad < 4 ? G_a->helper.config.description_column : g_pad) && g_st == (g_pad < 4 ? 1 : 0), "blanks up to the column"); g_st = 2; return (int)n; }
static int p_1(const char *f) { if (eq(f, "- ")) { VX_ASSERT(g_st == 2, "the dash"); g_st = 3; } else if (eq(f, "\n")) { if (g_st == 0) { VX_ASSERT(g_pad < 4, "a new line when there is no room"); g_st = 1; } else { VX_ASSERT(g_st == (G_desc[0] ? 4 : 3), "the line end"); g_st = 5; } } else { VX_ASSERT(eq(f, "Error: Memory alloca") && !G_desc && g_st == 3, "no memory"); g_st = 5; } return 1; }
static int p_s(const char *f, const char *s) { VX_ASSERT(0, "no other text"); return 0; }
static void vx_free(void *p) { if (p) { VX_ASSERT(p == (void *)G_desc && g_live, "the description, once"); g_live = 0; } }
static size_t vx_strlen(const char *s) { VX_ASSERT(s == G_desc && g_live, "the description"); if (!s[0]) return 0; size_t n = nondet_size(); VX_ASSUME(n > 0); return n; }
#define free vx_free
#define strlen vx_strlen
#define printf(...) P_SEL(__VA_ARGS__, P2, P1)(__VA_ARGS__)
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; static char t[2]; t[0] = nondet_char(); t[1] = 0; G_desc = nondet_bool() ? &t[0] : 0; G_a = &a; G_o = &o; g_pad = nondet_size(); g_st = g_live = 0;
    print_option_description(&a, &o, g_pad);
    VX_ASSERT(g_st == 5 && !g_live, "complete; nothing left behind"); if (g_pad < 4 && G_desc) VX_REACH("new line"); if (g_pad > 9 && G_desc && t[0]) VX_REACH("same line"); if (!G_desc) VX_REACH("no memory");
}
