//@ src callbacks/handlers/array_int_handler.c
//@ drop search_range_separator add_range_values set_value array_int_handler free_array_int_handler
//@ desc parse_int_range: A sep B gives the range from the smaller to the larger bound, a single number gives itself; anything else (incomplete, trailing characters, out of range) is an error
//@ enforce parse_int_range
//@ trust search_range_separator by its contract (discharged in unit p12_sep)
//@ trust strtoll: ISO C contract (value of the longest numeric prefix, its end, ERANGE)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <errno.h>
int g_errno; int *__errno_location(void) { return &g_errno; }
char *G_s; size_t g_len, g_sep, g_e1, g_e2; _Bool g_has, g_r1, g_r2; long long g_v1, g_v2;
long long strtoll(const char *s, char **end, int base) {
    VX_MODEL(base == 10, "decimal");
    VX_MODEL(s == G_s || (g_has && s == G_s + g_sep + 1), "converts the bounds");
    if (s == G_s) { if (end) *end = G_s + g_e1; if (g_r1) g_errno = ERANGE; return g_v1; }
    if (end) *end = G_s + g_e2; if (g_r2) g_errno = ERANGE; return g_v2;
}
#include "src0.c"
const char *search_range_separator(const char *value, const char *separators) {
    VX_ASSERT(value == G_s && ((separators[0] == '-' && separators[1] == ':') || (separators[0] == ':' && separators[1] == '-')) && !separators[2], "separators - and :");
    return g_has ? G_s + g_sep : 0;
}
static int parse_int_range(int_argus_range_t *range, const char *value)
__CPROVER_assigns(*range, g_errno);
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len; char s[len + 1]; VX_ASSUME(s[len] == 0); G_s = s;
    g_has = nondet_bool(); g_sep = nondet_size(); VX_ASSUME(IMPLIES(g_has, 0 < g_sep && g_sep < len && s[g_sep]));
    g_e1 = nondet_size(); g_e2 = nondet_size(); VX_ASSUME(g_e1 <= len && (g_e1 == len || s[g_e1])); VX_ASSUME(g_has ? g_e2 > g_sep && g_e2 <= len && (g_e2 == len || s[g_e2]) : 1);
    g_v1 = nondet_i64(); g_v2 = nondet_i64(); g_r1 = nondet_bool(); g_r2 = nondet_bool();
    VX_ASSUME(IMPLIES(g_e1 == 0, !g_r1) && IMPLIES(g_has && g_e2 == g_sep + 1, !g_r2)); int_argus_range_t r;
    _Bool good = g_has ? g_e1 == g_sep && g_e2 > g_sep + 1 && g_e2 == len && !g_r1 && !g_r2 : g_e1 > 0 && g_e1 == len && !g_r1;
    int st = parse_int_range(&r, s);
    VX_ASSERT((st == 0) == good, "accepted exactly when both bounds are complete numbers in range");
    if (st == 0) {
        if (g_has) { VX_ASSERT(r.start == (g_v1 < g_v2 ? g_v1 : g_v2) && r.end == (g_v1 < g_v2 ? g_v2 : g_v1), "from the smaller to the larger"); VX_REACH("range"); if (g_v1 > g_v2) VX_REACH("reversed"); }
        else { VX_ASSERT(r.start == g_v1 && r.end == g_v1, "a single number"); VX_REACH("single"); }
    } else { if (g_has) VX_REACH("bad range"); else VX_REACH("bad number"); }
}
