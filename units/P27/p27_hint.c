//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_collection_format format_collection_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_default_info append_validator_info append_env_info append_flag_info build_option_description print_option_description
//@ desc get_smart_hint, is_short_hint, has_single_validator, get_base_type_name: the declared hint; else the text form of the only restriction when it is short enough; else the name of the (element) type; always a text of its own, everything else released
//@ enforce get_smart_hint is_short_hint has_single_validator get_base_type_name
//@ nodfcc
//@ cbmc --unwind 3 --unwinding-assertions
//@ trust strlen, strchr: ISO C; text forms are arbitrary functions that give a fresh text or none
#include "p27.h"
#include "argus/internal/cross_platform.h"
char *G_hint, *G_txt, *G_new; size_t g_len, g_m; int g_live, g_dup, g_ft; _Bool g_sp, g_mf; argus_valtype_t g_vt; int g_kind;
static char *form(validator_data_t d) { VX_ASSERT(!g_live, "once"); if (nondet_bool()) return 0; g_live = 1; g_ft = 1; return G_txt; }
static void vx_free(void *p) { if (p) { VX_ASSERT(p == G_txt && g_live, "releases the text form"); g_live = 0; } }
static size_t vx_len(const char *s) { VX_ASSERT(s == G_txt && g_live, "of the text form"); return g_len; }
static char *vx_chr(const char *s, int c) { VX_ASSERT(s == G_txt && g_live && c == ' ', "a space in the text form"); return g_sp ? G_txt : 0; }
static int name_of(const char *s) { char c0 = s[0], c1 = c0 ? s[1] : 0, c2 = c1 ? s[2] : 0, c3 = c2 ? s[3] : 0, c4 = c3 ? s[4] : 0, c5 = c4 ? s[5] : 0;
#define IS(a, b, c, d, e) (c0 == a && c1 == b && c2 == c && c3 == d && c4 == e && c5 == 0)
    return IS('N', 'U', 'M', 0, 0) ? 3 : IS('S', 'T', 'R', 0, 0) ? 4 : IS('F', 'L', 'O', 'A', 'T') ? 5 : IS('B', 'O', 'O', 'L', 0) ? 6 : IS('F', 'L', 'A', 'G', 0) ? 7 : IS('V', 'A', 'L', 'U', 'E') ? 8 : 0; }
static char *vx_dup(const char *s) { VX_ASSERT(!g_dup, "one text"); g_dup = 1; if (s == G_hint) g_kind = 1; else if (s == G_txt) g_kind = 2; else g_kind = name_of(s); return g_mf ? 0 : G_new; }
#define strlen vx_len
#define strchr vx_chr
#define free vx_free
#undef safe_strdup
#undef strdup
#define strdup vx_dup
#define safe_strdup vx_dup
char *get_smart_hint(argus_t *argus, const argus_option_t *option)
__CPROVER_assigns(g_live, g_dup, g_kind, g_ft);
#include "src0.c"
#define T(k) (VALUE_TYPE_##k)
static int want(argus_valtype_t t) { switch (t) { case T(INT): case T(ARRAY_INT): case T(MAP_INT): case T(VARIADIC_INT): return 3; case T(STRING): case T(ARRAY_STRING): case T(MAP_STRING): case T(VARIADIC_STRING): return 4; case T(FLOAT): case T(ARRAY_FLOAT): case T(MAP_FLOAT): case T(VARIADIC_FLOAT): return 5; case T(BOOL): case T(MAP_BOOL): return 6; case T(FLAG): return 7; default: return 8; } }
void harness(void) {
    argus_t a; argus_option_t o; static char h[1], t[1], n[1]; validator_entry_t e1, e2, *v[3]; size_t m = nondet_size(); VX_ASSUME(m <= 2); /* the third and later entries are never looked at */ e1.formatter = nondet_bool() ? form : 0; v[0] = m > 0 ? &e1 : 0; v[1] = m > 1 ? &e2 : 0; v[2] = nondet_bool() ? &e2 : 0; o.validators = nondet_bool() ? &v[0] : 0; G_hint = nondet_bool() ? &h[0] : 0; o.hint = G_hint; G_txt = t; G_new = n; g_len = nondet_size(); g_sp = nondet_bool(); g_mf = nondet_bool(); g_live = g_dup = g_kind = g_ft = 0; a.helper.config.smart_hint_allow_spaces = nondet_bool(); argus_valtype_t vt = o.value_type;
    _Bool fits = g_len <= a.helper.config.smart_hint_max_length && (a.helper.config.smart_hint_allow_spaces || !g_sp), single = o.validators && m == 1, hf = e1.formatter != 0;
    char *r = get_smart_hint(&a, &o);
    if (G_hint) { VX_ASSERT(g_kind == 1 && r == (g_mf ? 0 : G_new) && !g_live, "the declared hint"); VX_REACH("declared"); }
    else if (single && hf && fits && g_ft) { VX_ASSERT(g_kind == 2 ? !g_live && r == (g_mf ? 0 : G_new) : g_live && !g_dup && r == G_txt, "the text form of the only restriction"); VX_REACH("restriction"); }
    else { VX_ASSERT(g_kind == want(vt) && r == (g_mf ? 0 : G_new) && !g_live, "the name of the type"); if (single && hf && !fits) VX_REACH("too long"); if (m == 2) VX_REACH("two"); if (single && !hf) VX_REACH("no text form"); }
}
