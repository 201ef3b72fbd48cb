//@ src callbacks/validators/regex_validator.c
//@ drop format_regex_validator
//@ desc regex_validator: accepts exactly when the pattern compiles and the engine reports a match of that pattern on the given text; every other outcome is its own error, recorded; what the engine gave is released exactly once, after its last use, in every outcome
//@ nodfcc
//@ trust PCRE2 (pcre2_compile, pcre2_match, pcre2_match_data_create_from_pattern, pcre2_match_data_free, pcre2_code_free, pcre2_get_error_message): any result; match with no match data is an engine failure
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code
#define PCRE2_CODE_UNIT_WIDTH 8
#include "vx.h"
#include "argus/internal/utils.h"
#include <pcre2.h>
#include "vx_err.h"
#include "src0.c"
char g_c, g_m; int g_code, g_md, g_rc, g_n, g_em, g_er; _Bool g_comp, g_mdok; const char *g_p, *g_v;
pcre2_code *pcre2_compile(PCRE2_SPTR p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *off, pcre2_compile_context *x) { VX_ASSERT((const char *)p == g_p && n == PCRE2_ZERO_TERMINATED && o == 0, "compiles the given pattern with its own meaning"); *e = g_er; *off = nondet_size(); if (!g_comp) return 0; g_code++; return (pcre2_code *)&g_c; }
int pcre2_get_error_message(int e, PCRE2_UCHAR *b, PCRE2_SIZE n) { VX_ASSERT(e == g_er && n >= 1, "text of the compile error"); b[0] = 0; b[n - 1] = 0; g_em++; return 0; }
pcre2_match_data *pcre2_match_data_create_from_pattern(const pcre2_code *c, pcre2_general_context *x) { VX_ASSERT(c == (const pcre2_code *)&g_c && g_code == 1, "for the compiled pattern"); if (!g_mdok) return 0; g_md++; return (pcre2_match_data *)&g_m; }
int pcre2_match(const pcre2_code *c, PCRE2_SPTR v, PCRE2_SIZE n, PCRE2_SIZE s, uint32_t o, pcre2_match_data *m, pcre2_match_context *x) {
    VX_ASSERT(c == (const pcre2_code *)&g_c && g_code == 1, "with the compiled pattern, before it is released"); VX_ASSERT((const char *)v == g_v && n == PCRE2_ZERO_TERMINATED && s == 0 && o == 0, "on the whole given text"); VX_ASSERT(g_mdok ? m == (pcre2_match_data *)&g_m && g_md == 1 : m == 0, "with live match data");
    g_n++; return g_rc;
}
void pcre2_match_data_free(pcre2_match_data *m) { if (m) { VX_ASSERT(m == (pcre2_match_data *)&g_m && g_md == 1, "match data released once"); g_md = 0; } }
void pcre2_code_free(pcre2_code *c) { if (c) { VX_ASSERT(c == (pcre2_code *)&g_c && g_code == 1, "pattern released once"); g_code = 0; } }
void harness(void) {
    argus_t a; int e0 = a.error_code; char p[2], v[2], h[2]; validator_data_t d; d.regex.pattern = g_p = nondet_bool() ? &p[0] : 0; d.regex.hint = nondet_bool() ? &h[0] : 0; g_v = v; g_code = g_md = g_n = g_em = 0; g_comp = nondet_bool(); g_mdok = nondet_bool(); g_rc = nondet_int(); g_er = nondet_int(); if (!g_mdok) VX_ASSUME(g_rc < 0 && g_rc != PCRE2_ERROR_NOMATCH);
    int r = regex_validator(&a, v, d);
    int want = !g_p ? ARGUS_ERROR_INVALID_VALUE : !g_comp ? ARGUS_ERROR_INVALID_FORMAT : g_rc >= 0 ? ARGUS_SUCCESS : g_rc == PCRE2_ERROR_NOMATCH ? ARGUS_ERROR_INVALID_VALUE : ARGUS_ERROR_INVALID_FORMAT;
    VX_ASSERT(r == want, "accepted exactly when the engine matches; each other outcome has its own error"); VX_ASSERT(a.error_code == (want ? want : e0), "the error is recorded");
    VX_ASSERT(g_code == 0 && g_md == 0, "everything is released"); VX_ASSERT(g_n == (g_p && g_comp ? 1 : 0), "matched once");
    if (!g_p) VX_REACH("no pattern"); else if (!g_comp) VX_REACH("does not compile"); else if (g_rc >= 0) VX_REACH("match"); else if (g_rc == PCRE2_ERROR_NOMATCH) VX_REACH("no match"); else VX_REACH("engine failure");
}
