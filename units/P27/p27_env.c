//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_default_info append_validator_info append_flag_info build_option_description print_option_description
//@ desc append_env_info: adds one part with the variable's name, joined into a closing parenthesis if the text ends with one; nothing without a variable; when memory runs out the text is as it was
//@ enforce append_env_info
//@ trust snprintf for the formats given: writes exactly that text (ISO C)
#include "p27.h"
#include "argus/internal/cross_platform.h"
char *G_d, *G_r, *G_env; size_t g_dl, g_bo; int g_st, g_app, g_got, g_cut;
static size_t vx_len(const char *s) { VX_ASSERT(s == G_d && !g_app, "length of the text"); return g_dl; }
static int sns(char *b, size_t n, const char *f, const char *v) { VX_ASSERT(!g_st && !g_app && v == G_env && n <= __CPROVER_OBJECT_SIZE(b) && __CPROVER_POINTER_OFFSET(b) == 0 && n > 136, "the name, with room for it"); g_bo = __CPROVER_POINTER_OBJECT(b); g_st = eq(f, ", env: %s)") ? 2 : eq(f, " (env: %s)") ? 1 : 0; VX_ASSERT(g_st, "a known form"); return 0; }
#undef snprintf
#define snprintf(b, n, f, x) sns(b, n, f, x)
#define strlen vx_len
static char *append_to_description(char *d, const char *s) { VX_ASSERT(g_st && !g_app && d == G_d && __CPROVER_POINTER_OBJECT(s) == g_bo && __CPROVER_POINTER_OFFSET(s) == 0, "adds the part, once"); g_app = 1; VX_ASSERT(g_cut ? g_st == 2 && d[g_dl - 1] == 0 : g_st == 1, "joined into a closing parenthesis exactly when there is one"); g_got = nondet_bool() ? 1 : 0; return g_got ? G_r : d; }
static const char *get_env_var_name_for_display(argus_t *a, const argus_option_t *o) { return G_env; }
static char *append_env_info(char *description, argus_t *argus, const argus_option_t *option)
__CPROVER_assigns(g_st, g_app, g_bo, g_got; __CPROVER_object_whole(G_d));
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; g_dl = nondet_size(); VX_ASSUME(g_dl < 0x3fffffff); char D[g_dl + 1], R[1], E[1]; VX_ASSUME(D[g_dl] == 0); size_t k = nondet_size(); VX_ASSUME(k <= g_dl); char kc = D[k]; G_d = D; G_r = R; G_env = nondet_bool() ? &E[0] : 0; g_st = g_app = g_got = 0; g_bo = 0; g_cut = g_dl > 0 && D[g_dl - 1] == ')';
    char *r = append_env_info(D, &a, &o);
    if (!G_env) { VX_ASSERT(r == G_d && !g_app && D[k] == kc, "nothing added"); VX_REACH("none"); } else { VX_ASSERT(g_app && r == (g_got ? G_r : G_d), "the part added"); if (g_got) { VX_ASSERT(IMPLIES(!(g_cut && k == g_dl - 1), D[k] == kc), "the text before it unchanged"); if (g_cut) VX_REACH("joined"); else VX_REACH("own"); } else { VX_ASSERT(D[k] == kc, "memory ran out: the text as it was"); VX_REACH("memory"); } }
}
