//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_default_info append_validator_info append_env_info append_flag_info print_option_description
//@ desc build_option_description: the help text (or an empty one), then the restrictions, the default, the variable and the marks, each added once and in this order; NULL when memory runs out at the start
//@ enforce build_option_description
#include "p27.h"
#include "argus/internal/cross_platform.h"
char *G_t[5], *G_help; int g_n; _Bool g_mf; argus_t *G_a; const argus_option_t *G_o;
static char *vx_dup(const char *s) { VX_ASSERT(g_n == 0 && (G_help ? s == G_help : s[0] == 0), "starts with the help text"); if (g_mf) return 0; g_n = 1; return G_t[0]; }
static char *step(int k, char *d, argus_t *a, const argus_option_t *o) { VX_ASSERT(g_n == k && d == G_t[k - 1] && (!a || a == G_a) && o == G_o, "each part once, in order, on the text so far"); g_n = k + 1; if (nondet_bool()) G_t[k] = d; return G_t[k]; }
static char *append_validator_info(char *d, argus_t *a, const argus_option_t *o) { return step(1, d, a, o); }
static char *append_default_info(char *d, const argus_option_t *o) { return step(2, d, 0, o); }
static char *append_env_info(char *d, argus_t *a, const argus_option_t *o) { return step(3, d, a, o); }
static char *append_flag_info(char *d, const argus_option_t *o) { return step(4, d, 0, o); }
#undef safe_strdup
#undef strdup
#define strdup vx_dup
#define safe_strdup vx_dup
char *build_option_description(argus_t *argus, const argus_option_t *option)
__CPROVER_assigns(g_n, __CPROVER_object_whole(G_t));
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; char t[5], h[1]; for (int i = 0; i < 5; i++) G_t[i] = &t[i]; G_a = &a; G_o = &o; G_help = nondet_bool() ? &h[0] : 0; o.help = G_help; g_n = 0; g_mf = nondet_bool();
    char *r = build_option_description(&a, &o); if (g_mf) { VX_ASSERT(r == 0 && g_n == 0, "no text"); VX_REACH("no memory"); } else { VX_ASSERT(g_n == 5 && r == G_t[4], "the whole description"); VX_REACH("built"); }
}
