//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text append_to_description append_default_info append_validator_info append_env_info append_flag_info build_option_description print_option_description
//@ desc print_option_name (with get_collection_format, format_collection_hint): the indentation, then the short name, the long name and the value hint in the form of its collection, each that exists once and in order; returns the width printed; the hint is released
//@ enforce print_option_name
//@ trust printf, snprintf for the formats given: print exactly that text (ISO C), hints of collections up to 50 characters
#include "p27.h"
#include "argus/internal/cross_platform.h"
const argus_option_t *G_o; argus_t *G_a; const char *G_h; int g_st, g_live, g_coll; size_t g_w, g_in, g_bo; 
enum { START, INDENT, SHORT, COMMA, LONG, HINT };
static char *get_smart_hint(argus_t *a, const argus_option_t *o) { VX_ASSERT(a == G_a && o == G_o && !g_live, "the option's hint"); if (!G_h) return 0; g_live = 1; return (char *)G_h; }
static void vx_free(void *p) { if (p) { VX_ASSERT(p == (void *)G_h && g_live, "the hint, once"); g_live = 0; } }
static int out(void) { int k = nondet_int(); VX_ASSUME(k > 0 && k < 1000); g_w += k; return k; }
static int want_before(int s) { const argus_option_t *o = G_o; switch (s) { case SHORT: return INDENT; case COMMA: return SHORT; case LONG: return o->sname ? COMMA : INDENT; default: return o->lname ? LONG : o->sname ? SHORT : INDENT; } }
static int step(int s) { VX_ASSERT(g_st == want_before(s), "each piece once, in order"); g_st = s; return out(); }
static int p_1(const char *f) { VX_ASSERT(eq(f, ", ") && G_o->sname && G_o->lname, "between two names"); return step(COMMA); }
static int p_c(const char *f, int c) { VX_ASSERT(eq(f, "-%c") && c == G_o->sname && c, "the short name"); return step(SHORT); }
static int p_s(const char *f, const char *s) { if (eq(f, "--%s")) { VX_ASSERT(s == G_o->lname && s, "the long name"); return step(LONG); }
    VX_ASSERT(eq(f, " <%s>") && g_live && G_o->value_type != VALUE_TYPE_FLAG, "the hint"); int c = G_o->value_type & VALUE_TYPE_VARIADIC ? 1 : G_o->value_type & VALUE_TYPE_ARRAY ? 2 : G_o->value_type & VALUE_TYPE_MAP ? 3 : 0;
    VX_ASSERT(c == 0 ? s == G_h : g_coll == c && __CPROVER_POINTER_OBJECT(s) == g_bo && __CPROVER_POINTER_OFFSET(s) == 0, "in the form of its collection"); return step(HINT); }
static int sns(char *b, size_t n, const char *f, const char *s) { VX_ASSERT(s == G_h && g_live && n <= __CPROVER_OBJECT_SIZE(b) && n > 50 + 8 && __CPROVER_POINTER_OFFSET(b) == 0, "the hint, with room for it"); g_bo = __CPROVER_POINTER_OBJECT(b); g_coll = eq(f, "%s...") ? 1 : eq(f, "%s,...") ? 2 : eq(f, "KEY=%s,...") ? 3 : 0; VX_ASSERT(g_coll, "a known form"); return 9; }
#undef snprintf
#define snprintf(b, n, f, x) sns(b, n, f, x)
#define free vx_free
#define P_SEL(a, b, F, ...) F
#define P1(f) p_1(f)
#define P2(f, x) _Generic((x) + 0, char *: p_s, const char *: p_s, default: p_c)(f, x)
#define printf(...) P_SEL(__VA_ARGS__, P2, P1)(__VA_ARGS__)
int putnchar(char c, size_t n) { VX_ASSERT(g_st == START && c == ' ' && n == g_in, "the indentation first"); g_st = INDENT; g_w += n; return (int)n; }
size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t indent)
__CPROVER_assigns(g_st, g_live, g_coll, g_w, g_bo);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; static char l[1], h[1]; G_o = &o; G_a = &a; o.lname = nondet_bool() ? &l[0] : 0; G_h = nondet_bool() ? &h[0] : 0; g_st = START; g_live = g_coll = 0; g_w = g_bo = 0; g_in = nondet_size(); VX_ASSUME(g_in < 1000); unsigned t = o.value_type; VX_ASSUME((t & (t - 1)) == 0);
    size_t r = print_option_name(&a, &o, g_in); _Bool hint = t != VALUE_TYPE_FLAG && G_h;
    VX_ASSERT(g_st == (hint ? HINT : o.lname ? LONG : o.sname ? SHORT : INDENT), "every piece it has"); VX_ASSERT(r == g_w && !g_live, "the width; nothing left behind");
    if (hint && (t & VALUE_TYPE_MAP)) VX_REACH("map"); if (hint && t == VALUE_TYPE_INT && o.sname && o.lname) VX_REACH("int"); if (t == VALUE_TYPE_FLAG) VX_REACH("flag");
}
