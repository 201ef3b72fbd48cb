#include "nx.h"
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include "argus/regex.h"
const char *nx_rule(void) { return "random patterns over a small grammar of PCRE syntax (also uncompilable ones, ones that exceed the match limits, the library's own presets and no pattern) on random texts, called directly and through the definition and the command line; the outcome is compared with the pattern engine itself; non-trivial: a compiled pattern of at least three characters"; }
static char *pat(int d) { int k = nx_range(0, d > 3 ? 4 : 13); switch (k) {
    case 0: case 1: return nx_word("abc", 1, 3); case 2: return nx_dup("."); case 3: return nx_dup("[a-b]"); case 4: return nx_word("ab^$.\\wd", 1, 3);
    case 5: return nx_fmt("(%s)", pat(d + 1)); case 6: return nx_fmt("%s*", pat(d + 1)); case 7: return nx_fmt("%s|%s", pat(d + 1), pat(d + 1)); case 8: return nx_fmt("%s%s", pat(d + 1), pat(d + 1)); case 9: return nx_fmt("^%s$", pat(d + 1)); case 10: return nx_fmt("(%s)+", pat(d + 1)); case 11: return nx_fmt("%s{%d,%d}", pat(d + 1), nx_range(0, 2), nx_range(1, 3)); case 12: return nx_word("()[]{}*+?\\|a^", 1, 4); default: return nx_fmt("%s\\b%s", pat(d + 1), pat(d + 1)); } }
long n26_codes, n26_blocks;
static argus_t A; static argus_option_t *T; static char *av[4]; static int r; static void go(void *p) { (void)p; r = argus_parse(&A, 2, av); }
static int want_of(const char *p, const char *v) {
    if (!p) return ARGUS_ERROR_INVALID_VALUE; int e; PCRE2_SIZE off; pcre2_code *c = pcre2_compile((PCRE2_SPTR)p, PCRE2_ZERO_TERMINATED, 0, &e, &off, NULL); if (!c) return ARGUS_ERROR_INVALID_FORMAT;
    pcre2_match_data *m = pcre2_match_data_create_from_pattern(c, NULL); int rc = pcre2_match(c, (PCRE2_SPTR)v, strlen(v), 0, 0, m, NULL); pcre2_match_data_free(m); pcre2_code_free(c);
    if (strlen(p) > 2) nx_mark(); return rc >= 0 ? 0 : rc == PCRE2_ERROR_NOMATCH ? ARGUS_ERROR_INVALID_VALUE : ARGUS_ERROR_INVALID_FORMAT;
}
void nx_case(void) {
    nx_mute(); static const char *own[] = {"(a+)+$", "(*NO_START_OPT)(*LIMIT_MATCH=2)a*b", "(*LIMIT_DEPTH=1)((a)|b)*c", "^\\d+$", "^$", "", "(?i)AB", "\\p{L}+", "a\\Kb", "^.$", "^..$", "^\xc3.$", "[^a]$"}; const char *p; regex_data_t pre[] = {ARGUS_RE_IPV4, ARGUS_RE_EMAIL, ARGUS_RE_ISO_DATE, ARGUS_RE_PORT, ARGUS_RE_USER};
    if (nx_chance(1, 40)) p = NULL; else if (nx_chance(1, 6)) p = own[nx_below(13)]; else if (nx_chance(1, 10)) p = pre[nx_below(5)].pattern; else p = pat(0);
    char *v = nx_chance(1, 8) ? nx_fmt("%saaaaaaaaaaaaaaaaaaaa%s", nx_word("ab", 0, 3), nx_word("ab!", 0, 2)) : nx_chance(1, 8) ? nx_word("0123456789.@-", 0, 12) : nx_chance(1, 20) ? nx_word("ab", 200, 300) : nx_chance(1, 6) ? nx_word(nx_chance(1, 2) ? "\xc3\xa9\xff" : "\xc3\xa9" "a\x01\x7f\r\n", 0, 4) : nx_chance(1, 20) ? nx_dup("\xc3\xa9") : nx_word("abcAB \n.", 0, 8); nx_notestr("pattern", p); nx_notestr(" text", v);
    char *hint = nx_chance(1, 3) ? NULL : nx_word("h%", 0, 3); validator_data_t d = {.regex = {.pattern = p, .hint = hint}}; int want = want_of(p, v);
    argus_option_t h = HELP_OPTION(), o = OPTION_STRING('o', "opt", HELP("x")); T = nx_mem(3 * sizeof *T); T[0] = h; T[1] = o; T[2] = nx_end(); A = argus_init(T, "prog", "1");
    n26_codes = n26_blocks = 0;
    if (nx_chance(1, 2)) { A.error_code = 77; r = regex_validator(&A, v, d); NX_CHECK(r == want, "result %d, the pattern engine says %d", r, want); NX_CHECK(A.error_code == (want ? want : 77), "error code %d, expected %d", A.error_code, want); }
    else { validator_entry_t **e = nx_mem(2 * sizeof *e); e[0] = nx_mem(sizeof **e); *e[0] = (validator_entry_t){.func = regex_validator, .data = d, .order = ORDER_PRE, .formatter = format_regex_validator}; if (nx_chance(1, 2)) { regex_data_t re = MAKE_REGEX(p, hint); *e[0] = *V_REGEX(re); } T[1].validators = e; av[0] = nx_dup("prog"); av[1] = nx_fmt("--opt=%s", v); av[2] = NULL; bool ex = nx_exits(go, NULL); NX_CHECK(!ex, "ended the program"); NX_CHECK(r == want, "parse result %d, the pattern engine says %d", r, want); if (!r) { const char *g = argus_get(&A, "opt").as_string; NX_CHECK(g && !strcmp(g, v), "the accepted text is stored"); argus_free(&A); } else NX_CHECK(!T[1].is_set, "set although rejected"); }
    NX_CHECK(n26_codes == 0 && n26_blocks == 0, "%ld compiled patterns and %ld match blocks left behind", n26_codes, n26_blocks);
}
