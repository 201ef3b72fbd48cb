#include "nx.h"
#include "argus/internal/help.h"
#include "argus/internal/display.h"
#include "argus/regex.h"
#include <ctype.h>
const char *nx_rule(void) { return "random option and positional definitions of every type with help text, hints, up to three restrictions (built in and custom ones), defaults, environment variables and marks, every display configuration, with and without failing allocations; the description and the printed name are compared with an independent reading of the definition; non-trivial: at least three parts"; }
static argus_t A; static argus_option_t o; static char *R;
static int my_validator(argus_t *a, void *p, validator_data_t d) { (void)a; (void)p; (void)d; return 0; }
char *nx_strdup(const char *s);
static char *my_format(validator_data_t d) { return d.custom ? nx_strdup((char *)d.custom) : NULL; }
static void name(void *p) { (void)p; size_t n = print_option_name(&A, &o, 3); (void)n; }
static char *lit(const char *al, int lo, int hi) { return nx_chance(1, 12) ? nx_word(al, 70, 100) : nx_word(al, lo, hi); }
static char *env_of(void) { if (o.env_name) { if (o.flags & FLAG_NO_ENV_PREFIX) return nx_dup(o.env_name); const char *p = A.env_prefix ? A.env_prefix : ""; size_t n = strlen(p); char *full = n && p[n - 1] == '_' ? nx_dup(p) : n ? nx_fmt("%s_", p) : nx_dup("");
        if (A.env_prefix && !strncmp(o.env_name, full, strlen(full))) return nx_dup(o.env_name); return nx_fmt("%s%s", full, o.env_name); }
    if (!(o.flags & FLAG_AUTO_ENV)) return NULL; const char *p = o.flags & FLAG_NO_ENV_PREFIX || !A.env_prefix ? "" : A.env_prefix; size_t n = strlen(p); char *r = nx_fmt("%s%s%s", p, n && p[n - 1] != '_' ? "_" : "", o.name); for (char *c = r; *c; c++) *c = *c == '-' ? '_' : toupper((unsigned char)*c); return r; }
static char *join(char **part, int k, int ie, unsigned mask) { char *d = nx_dup(o.help ? o.help : ""); for (int i = 0; i < k; i++) if (mask >> i & 1) { size_t n = strlen(d); if (i == ie) d = n && d[n - 1] == ')' ? nx_fmt("%.*s, env: %s)", (int)n - 1, d, part[i]) : nx_fmt("%s (env: %s)", d, part[i]); else d = nx_fmt("%s%s", d, part[i]); } return d; }
void nx_case(void) {
    memset(&A, 0, sizeof A); A.helper.config = get_default_helper_config(); if (nx_chance(1, 3)) A.helper.config.smart_hint_max_length = nx_range(0, 12); A.helper.config.smart_hint_allow_spaces = nx_chance(1, 3); A.env_prefix = nx_chance(1, 3) ? NULL : nx_word("AP_", 0, 3);
    static const argus_valtype_t ty[] = {VALUE_TYPE_INT, VALUE_TYPE_STRING, VALUE_TYPE_FLOAT, VALUE_TYPE_BOOL, VALUE_TYPE_FLAG, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_INT, VALUE_TYPE_MAP_FLOAT, VALUE_TYPE_MAP_BOOL, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_FLOAT, VALUE_TYPE_CUSTOM};
    static const char *tn[] = {"NUM", "STR", "FLOAT", "BOOL", "FLAG", "STR", "NUM", "FLOAT", "STR", "NUM", "FLOAT", "BOOL", "STR", "NUM", "FLOAT", "VALUE"};
    memset(&o, 0, sizeof o); int t = nx_range(0, 15); if (nx_chance(1, 2)) t = nx_range(0, 3); o.value_type = ty[t]; o.type = nx_chance(1, 4) && t != 4 ? TYPE_POSITIONAL : TYPE_OPTION; o.name = lit("ab-", 1, 6); if (o.type == TYPE_OPTION) { if (nx_chance(1, 2)) o.sname = "abc"[nx_below(3)]; if (!o.sname || nx_chance(2, 3)) o.lname = o.name; else { char *s = nx_mem(2); s[0] = o.sname; o.name = s; } }
    o.help = nx_chance(1, 8) ? NULL : lit("ab )%", 0, 8); if (nx_chance(1, 4)) o.hint = nx_word("H %", 0, nx_chance(1, 9) ? 40 : 5);
    char *part[8]; int k = 0, ie = -1, nv = nx_chance(1, 3) ? 0 : nx_range(0, 3); char *vt[3] = {0}, *form[3] = {0};
    if (nv || nx_chance(1, 6)) { validator_entry_t **v = nx_mem((nv + 1) * sizeof *v); for (int i = 0; i < nv; i++) { v[i] = nx_mem(sizeof **v); v[i]->order = ORDER_POST; int64_t a = nx_range(-9, 99), b = nx_range(0, 3) ? nx_range(0, 999) : INT64_MIN;
            switch (nx_range(0, 8)) { case 0: v[i]->func = range_validator; v[i]->formatter = format_range_validator; v[i]->data.range.min = a; v[i]->data.range.max = b; if (nx_chance(1, 2)) *v[i] = *V_RANGE(a, b); vt[i] = nx_fmt("%ld-%ld", a, b); form[i] = " (range: %s)"; break;
            case 1: v[i]->func = length_validator; v[i]->formatter = format_length_validator; v[i]->data.range.min = a; v[i]->data.range.max = b; if (nx_chance(1, 2)) *v[i] = *V_LENGTH(a, b); vt[i] = nx_fmt("%ld-%ld chars", a, b); form[i] = " (%s)"; break;
            case 2: v[i]->func = count_validator; v[i]->formatter = format_count_validator; v[i]->data.range.min = a; v[i]->data.range.max = b; if (nx_chance(1, 2)) *v[i] = *V_COUNT(a, b); vt[i] = nx_fmt("%ld-%ld", a, b); form[i] = " (count: %s)"; break;
            case 3: { static int64_t c[] = {7, -3, INT64_MIN}; v[i]->func = choices_int_validator; v[i]->formatter = format_choices_validator; int n = nx_range(1, 3); if (nx_chance(1, 2)) { n = nx_range(1, 9); int64_t *l = nx_mem(n * sizeof *l); double *g = nx_mem(n * sizeof *g); bool fl = nx_chance(1, 2); char *w = ""; for (int j = 0; j < n; j++) { l[j] = nx_chance(1, 4) ? (int64_t)nx_rand() : nx_range(-200, 200); g[j] = nx_chance(1, 4) ? nx_range(-999, 999) * 1e15 : nx_range(-2000, 2000) / 8.0; w = fl ? nx_fmt("%s%s%.12g", w, j ? "|" : "", g[j]) : nx_fmt("%s%s%lld", w, j ? "|" : "", (long long)l[j]); } v[i]->data.choices.count = n; if (fl) { v[i]->func = choices_float_validator; v[i]->data.choices.as_floats = g; v[i]->data.choices.type = VALUE_TYPE_FLOAT; } else { v[i]->data.choices.as_ints = l; v[i]->data.choices.type = VALUE_TYPE_INT; } if (strlen(w) < 230) { vt[i] = w; form[i] = " [%s]"; break; } n = 3; v[i]->func = choices_int_validator; } v[i]->data.choices.as_ints = c; v[i]->data.choices.count = n; v[i]->data.choices.type = VALUE_TYPE_INT; vt[i] = n == 1 ? "7" : n == 2 ? "7|-3" : "7|-3|-9223372036854775808"; form[i] = " [%s]"; break; }
            case 4: { static char *c[] = {"ab", "", "c d"}; v[i]->func = choices_string_validator; v[i]->formatter = format_choices_validator; int n = nx_range(1, 3); v[i]->data.choices.as_strings = c; v[i]->data.choices.count = n; v[i]->data.choices.type = VALUE_TYPE_STRING; vt[i] = n == 1 ? "ab" : n == 2 ? "ab|" : "ab||c d"; form[i] = " [%s]"; break; }
            case 5: v[i]->func = regex_validator; v[i]->formatter = format_regex_validator; v[i]->data.regex.pattern = nx_chance(1, 2) ? "^a%s$" : nx_word("a%", 1, 15); v[i]->data.regex.hint = nx_chance(1, 2) ? NULL : nx_chance(1, 4) ? "" : nx_word("r ", 1, 6); vt[i] = v[i]->data.regex.hint && *v[i]->data.regex.hint ? (char *)v[i]->data.regex.hint : (char *)v[i]->data.regex.pattern; form[i] = " (pattern: %s)"; break;
            case 6: v[i]->func = my_validator; v[i]->formatter = my_format; vt[i] = lit("m %", 0, 9); v[i]->data.custom = (uintptr_t)vt[i]; form[i] = " (%s)"; break;
            case 7: v[i]->func = my_validator; v[i]->formatter = my_format; break;
            default: v[i]->func = range_validator; break; } }
        v[nv] = NULL; o.validators = v; }
    bool shown = o.type == TYPE_OPTION && t != 4 && !o.hint && nv == 1 && vt[0] && strlen(vt[0]) <= A.helper.config.smart_hint_max_length && (A.helper.config.smart_hint_allow_spaces || !strchr(vt[0], ' '));
    for (int i = 0; i < nv; i++) if (vt[i]) part[k++] = nx_fmt(form[i], vt[i]);
    if (nx_chance(1, 2) && t < 5) { o.have_default = true; switch (t) { case 0: o.default_value.as_int64 = nx_chance(1, 4) ? INT64_MIN : nx_range(-50, 50); if (nx_chance(1, 2)) { int64_t dv = o.default_value.as_int64; argus_option_t dm = OPTION_INT('d', "d", DEFAULT(dv)); o.default_value = dm.default_value; NX_CHECK(dm.default_value.as_int64 == dv && dm.have_default, "the stated default is %lld, not %lld", (long long)dm.default_value.as_int64, (long long)dv); } part[k++] = nx_fmt(" (default: %ld)", o.default_value.as_int64); break; case 1: o.default_value.as_string = nx_chance(1, 9) ? NULL : lit("d\" )%", 0, 6); part[k++] = o.default_value.as_string ? nx_fmt(" (default: \"%s\")", o.default_value.as_string) : " (default: null)"; break; case 2: { double dv = nx_range(-999, 999) / 4.0; argus_option_t dm = OPTION_FLOAT('d', "d", DEFAULT(dv)); o.default_value.as_float = dv; if (nx_chance(1, 2)) { o.default_value = dm.default_value; NX_CHECK(o.default_value.as_float == dv, "the stated default is %g, not %g", o.default_value.as_float, dv); } } part[k++] = nx_fmt(" (default: %.2f)", o.default_value.as_float); break; case 3: o.default_value.as_bool = nx_chance(1, 2); part[k++] = o.default_value.as_bool ? " (default: true)" : " (default: false)"; break; } }
    if (nx_chance(1, 3)) o.env_name = nx_chance(1, 3) ? nx_fmt("%s%s", A.env_prefix ? A.env_prefix : "", nx_word("_XP", 0, 3)) : lit("EX_A", 1, 5); static const int fl[] = {FLAG_REQUIRED, FLAG_HIDDEN, FLAG_ADVANCED, FLAG_DEPRECATED, FLAG_EXPERIMENTAL, FLAG_EXIT, FLAG_ENV_OVERRIDE, FLAG_AUTO_ENV, FLAG_NO_ENV_PREFIX, FLAG_SORTED, FLAG_UNIQUE}; for (int i = 0; i < 11; i++) if (nx_chance(1, 4)) o.flags |= fl[i];
    char *e = env_of(); if (e) { ie = k; part[k++] = e; } char *fp = nx_fmt("%s%s%s%s", o.flags & FLAG_EXIT ? " (exit)" : "", o.flags & FLAG_REQUIRED ? " (required)" : "", o.flags & FLAG_DEPRECATED ? " (deprecated)" : "", o.flags & FLAG_EXPERIMENTAL ? " (experimental)" : ""); part[k++] = fp;
    if (k > 3) nx_mark(); nx_note("type %d value type %d flags %x max %zu spaces %d ", o.type, o.value_type, o.flags, A.helper.config.smart_hint_max_length, A.helper.config.smart_hint_allow_spaces); nx_notestr("name", o.name); nx_notestr(" help", o.help); nx_notestr(" hint", o.hint); nx_notestr(" env", o.env_name); nx_notestr(" prefix", A.env_prefix); for (int i = 0; i < k; i++) nx_notestr(i ? " +" : " parts", part[i]);
    nx_alloc_reset(); if (nx_chance(1, 3)) { nx_fail_at = nx_range(1, 8); nx_fail_all = nx_chance(1, 3); nx_note(" fail at %ld", nx_fail_at); }
    char *saved = join(part, k, ie, shown ? ~1u : ~0u); unsigned f0 = o.flags; R = build_option_description(&A, &o); nx_fail_at = 0; nx_fail_all = false;
    if (!nx_failed) { NX_CHECK(R && !strcmp(R, saved), "description \"%s\", expected \"%s\"", R ? R : "(none)", saved); }
    else if (R) { bool ok = false; for (unsigned m = 0; m < 1u << k && !ok; m++) ok = !strcmp(R, join(part, k, ie, m)); NX_CHECK(ok, "memory ran out and the description \"%s\" is not made of whole parts", R); }
    NX_CHECK(nx_live == (R ? 1 : 0), "%ld blocks left behind", nx_live - 1); NX_CHECK(f0 == (unsigned)o.flags, "definition changed"); nx_alloc_sweep();
    if (o.type == TYPE_OPTION) { nx_alloc_reset(); char *p = nx_capture_out(name, NULL); char *w = o.sname ? nx_fmt("   -%c%s%s%s", o.sname, o.lname ? ", " : "", o.lname ? "--" : "", o.lname ? o.lname : "") : nx_fmt("   --%s", o.lname);
        if (t != 4) { const char *h = o.hint ? o.hint : shown ? vt[0] : tn[t]; w = nx_fmt("%s <%s%s%s>", w, o.value_type & VALUE_TYPE_MAP ? "KEY=" : "", h, o.value_type & VALUE_TYPE_VARIADIC ? "..." : o.value_type & (VALUE_TYPE_MAP | VALUE_TYPE_ARRAY) ? ",..." : ""); } NX_CHECK(!strcmp(p, w), "name printed as \"%s\", expected \"%s\"", p, w); NX_CHECK(nx_live == 0, "%ld blocks left behind", nx_live); }
}
