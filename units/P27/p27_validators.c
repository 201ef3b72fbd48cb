//@ src display/help/help_formatter.c
//@ drop get_default_helper_config get_base_type_name get_collection_format format_collection_hint is_short_hint has_single_validator get_smart_hint get_env_var_name_for_display print_wrapped_text print_option_name append_to_description append_default_info append_env_info append_flag_info build_option_description print_option_description
//@ desc append_validator_info: one part for every restriction that has a text form, in order, in the form of its kind, unless the only restriction's text is shown as the value hint; every text form is released once
//@ enforce append_validator_info
//@ fn append_validator_info 1
//@ loop 0
//@ assigns g_i; g_ph; g_done; g_ap; g_live; g_form; g_bo; __CPROVER_object_whole(G_v); g_cur; G_c
//@ hyp next({i})
//@ inv {i} <= g_m && {p0} == G_c && !g_live && !g_form && !g_shown && ({i} == 0 || (g_done && g_i + 1 == {i} && g_ph))
//@ dec g_m - {i}
//@ trust text forms are arbitrary functions: any text (or none) of at most 240 characters, freshly allocated; snprintf for the formats given writes exactly that text (ISO C)
#include "p27.h"
#include "argus/internal/cross_platform.h"
size_t g_m, g_i, g_bo; int g_ph, g_done, g_ap, g_live, g_form, g_shown; _Bool g_short, g_hintable; char *G_c, *G_r, *G_txt; validator_entry_t **G_v, g_cur, g_e0; argus_t *G_a;
static char *form(validator_data_t d) {
    const validator_entry_t *e = g_ph ? &g_cur : &g_e0; VX_ASSERT(!g_live && d.custom == (g_ph && g_i == 0 ? g_e0.data.custom : e->data.custom), "with its data");
    if (nondet_bool()) { if (g_ph) g_done = 1; return 0; }
    g_live = 1; g_form = g_ph; if (!g_ph && g_hintable && g_m == 1 && g_short) g_shown = 1; return G_txt;
}
static void vx_free(void *p) { if (p) { VX_ASSERT(p == G_txt && g_live && !g_form, "each text form once, after use"); g_live = 0; } }
static bool is_short_hint(argus_t *a, const char *h) { return h && g_short; }
static bool has_single_validator(const argus_option_t *o) { return g_m == 1; }
static const validator_entry_t *ent(void) { return g_i == 0 ? &g_e0 : &g_cur; }
static int sns(char *b, size_t n, const char *f, const char *v) {
    VX_ASSERT(g_form == 1 && v == G_txt && __CPROVER_POINTER_OFFSET(b) == 0 && n <= __CPROVER_OBJECT_SIZE(b) && n >= 256, "the text form, with room for it"); argus_validator_t k = ent()->func;
    VX_ASSERT(eq(f, k == (argus_validator_t)regex_validator ? " (pattern: %s)" : k == (argus_validator_t)choices_string_validator || k == (argus_validator_t)choices_int_validator || k == (argus_validator_t)choices_float_validator ? " [%s]" : k == (argus_validator_t)range_validator ? " (range: %s)" : k == (argus_validator_t)count_validator ? " (count: %s)" : " (%s)"), "in the form of its kind");
    b[0] = ' '; b[1] = 'x'; g_bo = __CPROVER_POINTER_OBJECT(b); g_form = 2; return 5;
}
#undef snprintf
#define snprintf(b, n, f, x) sns(b, n, f, x)
#define free vx_free
static char *append_to_description(char *d, const char *s) { VX_ASSERT(g_form == 2 && !g_done && d == G_c && __CPROVER_POINTER_OBJECT(s) == g_bo && __CPROVER_POINTER_OFFSET(s) == 0, "adds the part, once"); g_form = 0; g_done = 1; if (nondet_bool()) G_c = G_r; return G_c; }
static void kind(validator_entry_t *e) { int k = nondet_int(); e->func = k == 0 ? (argus_validator_t)regex_validator : k == 1 ? (argus_validator_t)choices_string_validator : k == 2 ? (argus_validator_t)choices_int_validator : k == 3 ? (argus_validator_t)choices_float_validator : k == 4 ? (argus_validator_t)length_validator : k == 5 ? (argus_validator_t)range_validator : k == 6 ? (argus_validator_t)count_validator : (argus_validator_t)0; e->formatter = nondet_bool() ? form : 0; e->data.custom = nondet_size(); }
static void next(size_t i) { g_ph = 1; if (i < g_m) { g_i = i; if (i == 0) G_v[0] = &g_e0; else { kind(&g_cur); G_v[i] = &g_cur; } g_done = ent()->formatter == 0; } else G_v[i] = 0; }
static char *append_validator_info(char *description, argus_t *argus, const argus_option_t *option)
__CPROVER_assigns(g_i, g_ph, g_done, g_ap, g_live, g_form, g_shown, g_bo, g_cur, G_c; G_v != 0: __CPROVER_object_whole(G_v));
#include "src0.c"
void harness(void) {
    size_t m; VX_ASSUME(m < 0x7fffff); g_m = m; validator_entry_t *v[m + 1]; argus_t a; argus_option_t o; char D[1], R[1], T[2]; G_v = v; G_a = &a; G_c = D; G_r = R; G_txt = T; kind(&g_e0); if (m) v[0] = &g_e0; else v[0] = 0; g_i = 0; g_ph = g_done = g_ap = g_live = g_form = g_shown = 0; g_short = nondet_bool(); g_bo = 0;
    o.validators = nondet_bool() ? &v[0] : 0; _Bool hv = o.validators != 0; static char h[1]; o.hint = nondet_bool() ? &h[0] : 0; g_hintable = o.type == TYPE_OPTION && o.value_type != VALUE_TYPE_FLAG && !o.hint;
    char *r = append_validator_info(D, &a, &o); VX_ASSERT(r == G_c && !g_live, "the text so far; nothing left behind");
    if (!hv) { VX_ASSERT(r == (char *)D && !g_ph, "nothing added"); VX_REACH("none"); } else if (g_shown) { VX_ASSERT(r == (char *)D && !g_ph, "shown as the hint"); VX_REACH("shown"); } else { VX_ASSERT(g_ph && (m == 0 || (g_done && g_i + 1 == m)), "every restriction stated"); if (m > 3) VX_REACH("several"); if (m == 1) VX_REACH("one"); }
}
