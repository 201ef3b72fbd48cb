//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_validator_info append_env_info append_flag_info build_option_description print_option_description
//@ desc append_default_info: adds one part with the default of a single-valued option, in the form of its type; adds nothing without a default or for a flag
//@ enforce append_default_info
//@ trust snprintf for the formats given: writes exactly that text (ISO C)
#include "p27.h"
#include "argus/internal/cross_platform.h"
char *G_d, *G_r, *G_str; int g_st, g_app; size_t g_bo; const argus_option_t *G_o; int g_ok;
static int wr(char *b, size_t n) { size_t o = __CPROVER_POINTER_OFFSET(b); VX_ASSERT(!g_app && (g_st == 0 ? o == 0 : (g_bo == __CPROVER_POINTER_OBJECT(b) && o == 11)), "after what is written so far"); g_bo = __CPROVER_POINTER_OBJECT(b); VX_ASSERT(n <= __CPROVER_OBJECT_SIZE(b) - o && n > 113 - (g_st ? 0 : 0), "inside the buffer, with room for 100 characters"); return 0; }
static int open(const char *f) { return eq(f, " (default: "); }
static int sn0(char *b, size_t n, const char *f) { wr(b, n); if (g_st == 0 && open(f)) { g_st = 1; return 11; } VX_ASSERT(g_st == 1 && eq(f, "null)") && G_o->value_type == VALUE_TYPE_STRING && G_o->default_value.as_string == 0, "a known piece"); g_st = 2; return 5; }
static int sni(char *b, size_t n, const char *f, int64_t v) { wr(b, n); VX_ASSERT(G_o->value_type == VALUE_TYPE_INT && (g_st == 1 ? eq(f, "%ld)") : eq(f, " (default: %ld)")) && v == G_o->default_value.as_int64, "the integer"); g_st = 2; return 1; }
static int snd(char *b, size_t n, const char *f, double v) { wr(b, n); VX_ASSERT(G_o->value_type == VALUE_TYPE_FLOAT && (g_st == 1 ? eq(f, "%.2f)") : eq(f, " (default: %.2f)")) && v == G_o->default_value.as_float, "the number"); g_st = 2; return 1; }
static int sns(char *b, size_t n, const char *f, const char *v) { wr(b, n);
    if (G_o->value_type == VALUE_TYPE_BOOL) VX_ASSERT((g_st == 1 ? eq(f, "%s)") : eq(f, " (default: %s)")) && eq(v, G_o->default_value.as_bool ? "true" : "false"), "the truth value");
    else VX_ASSERT(G_o->value_type == VALUE_TYPE_STRING && v == G_str && G_str && (g_st == 1 ? eq(f, "\"%s\")") : eq(f, " (default: \"%s\")")), "the text in quotes"); g_st = 2; return 1; }
static size_t vx_len(const char *s) { VX_ASSERT(g_st == 1 && g_bo == __CPROVER_POINTER_OBJECT(s) && __CPROVER_POINTER_OFFSET(s) == 0, "length of what is written so far"); return 11; }
static char *vx_cat(char *d, size_t n, const char *s) { VX_ASSERT(g_st == 1 && n <= __CPROVER_OBJECT_SIZE(d) && n > 12 && eq(s, ")"), "closes it"); g_st = 2; return d; }
#define SN_SEL(a, b, c, d, F, ...) F
#define SN3(b, n, f) sn0(b, n, f)
#define SN4(b, n, f, x) _Generic((x) + 0, double: snd, char *: sns, const char *: sns, default: sni)(b, n, f, x)
#undef snprintf
#define snprintf(...) SN_SEL(__VA_ARGS__, SN4, SN3)(__VA_ARGS__)
#define strlen vx_len
#define safe_strcat vx_cat
static char *append_to_description(char *d, const char *s) { VX_ASSERT(g_st == 2 && !g_app && d == G_d && __CPROVER_POINTER_OBJECT(s) == g_bo && __CPROVER_POINTER_OFFSET(s) == 0, "adds the part, once"); g_app = 1; return nondet_bool() ? d : G_r; }
static char *append_default_info(char *description, const argus_option_t *option)
__CPROVER_assigns(g_st, g_app, g_bo);
#include "src0.c"
void harness(void) {
    argus_option_t o; char D[1], R[1], S[1]; G_d = D; G_r = R; G_o = &o; G_str = nondet_bool() ? &S[0] : 0; if (o.value_type == VALUE_TYPE_STRING) o.default_value.as_string = G_str; if (o.value_type == VALUE_TYPE_BOOL) o.default_value.as_bool = nondet_bool(); if (o.value_type == VALUE_TYPE_FLOAT) VX_ASSUME(o.default_value.as_float == o.default_value.as_float); g_st = g_app = 0; g_bo = 0; _Bool hd = o.have_default = nondet_bool(); int vt = o.value_type;
    char *r = append_default_info(D, &o);
    if (!hd || vt == VALUE_TYPE_FLAG) { VX_ASSERT(r == G_d && !g_app, "nothing added"); VX_REACH("nothing"); } else { VX_ASSERT(g_app && (r == G_d || r == G_r), "the part added"); if (vt == VALUE_TYPE_INT) VX_REACH("int"); if (vt == VALUE_TYPE_STRING) VX_REACH("string"); if (vt == VALUE_TYPE_FLOAT) VX_REACH("float"); if (vt == VALUE_TYPE_BOOL) VX_REACH("bool"); }
}
