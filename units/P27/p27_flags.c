//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_default_info append_validator_info append_env_info build_option_description print_option_description
//@ desc append_flag_info: adds one part with the exit, required, deprecated and experimental marks the option has, each once and in this order; nothing without any
//@ enforce append_flag_info
//@ trust safe_strcat: appends the text when it fits (its own code is verified in p27_append)
#include "p27.h"
#include "argus/internal/cross_platform.h"
char *G_d, *G_r; int g_n, g_app; size_t g_bo; unsigned g_fl, g_got;
static char *vx_cat(char *b, size_t n, const char *s) { VX_ASSERT(!g_app && n <= __CPROVER_OBJECT_SIZE(b) && __CPROVER_POINTER_OFFSET(b) == 0 && n > 48 && (!g_got || g_bo == __CPROVER_POINTER_OBJECT(b)), "into the buffer, with room for all marks"); g_bo = __CPROVER_POINTER_OBJECT(b);
    unsigned k = eq(s, " (exit)") ? FLAG_EXIT : eq(s, " (required)") ? FLAG_REQUIRED : eq(s, " (deprecated)") ? FLAG_DEPRECATED : eq(s, " (experimental)") ? FLAG_EXPERIMENTAL : 0; VX_ASSERT(k && (g_fl & k), "a mark the option has"); VX_ASSERT(!(g_got & k), "once"); VX_ASSERT(k == FLAG_EXIT ? !g_got : k == FLAG_REQUIRED ? !(g_got & ~FLAG_EXIT) : k == FLAG_DEPRECATED ? !(g_got & FLAG_EXPERIMENTAL) : 1, "in order"); g_got |= k; return b; }
#define safe_strcat vx_cat
static char *append_to_description(char *d, const char *s) { VX_ASSERT(g_got && !g_app && d == G_d && __CPROVER_POINTER_OBJECT(s) == g_bo && __CPROVER_POINTER_OFFSET(s) == 0, "adds the part, once"); g_app = 1; return nondet_bool() ? d : G_r; }
static char *append_flag_info(char *description, const argus_option_t *option)
__CPROVER_assigns(g_got, g_app, g_bo);
#include "src0.c"
void harness(void) {
    argus_option_t o; char D[1], R[1]; G_d = D; G_r = R; g_fl = o.flags; g_got = g_app = 0; unsigned want = g_fl & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL);
    char *r = append_flag_info(D, &o); VX_ASSERT(g_got == want && (g_app != 0) == (want != 0), "every mark it has"); if (!want) { VX_ASSERT(r == G_d, "unchanged"); VX_REACH("none"); } else if (want == FLAG_DEPRECATED) VX_REACH("one"); else VX_REACH("several");
}
