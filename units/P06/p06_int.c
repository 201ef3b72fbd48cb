//@ src callbacks/handlers/int_handler.c
//@ desc int_handler stores exactly the converted value of a complete in-range text and otherwise reports an error and leaves the option as it was
//@ enforce int_handler
//@ trust strtoll: ISO C contract (value of the longest numeric prefix, its end, ERANGE outside the 64-bit range)
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <stdlib.h>
#include <errno.h>
int g_errno; int *__errno_location(void) { return &g_errno; }
char *G_s; size_t g_len, g_off; long long g_val; _Bool g_range;
long long strtoll(const char *s, char **end, int base) {
    VX_MODEL(s == G_s, "converts the given text"); VX_MODEL(base == 10, "decimal");
    if (end) *end = G_s + g_off;
    if (g_range) g_errno = ERANGE;
    return g_val;
}
long strtol(const char *s, char **end, int base) { return strtoll(s, end, base); }
int int_handler(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(argus->error_code, option->value, g_errno);
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len;
    char s[len + 1]; VX_ASSUME(s[len] == 0); G_s = s;
    g_off = nondet_size(); VX_ASSUME(g_off <= len && (g_off == len || s[g_off] != 0));
    g_val = nondet_i64(); g_range = nondet_bool();
    VX_ASSUME(IMPLIES(g_off == 0, g_val == 0 && !g_range) && IMPLIES(g_range, g_val == INT64_MAX || g_val == INT64_MIN));
    argus_t a; argus_option_t o; argus_value_t old = o.value; size_t vc = o.value_count; _Bool set = o.is_set; 
    char *v = nondet_bool() ? s : (char *)0;
    int r = int_handler(&a, &o, v);
    if (v && g_off > 0 && g_off == len && !g_range) {
        VX_ASSERT(r == ARGUS_SUCCESS && o.value.as_int64 == g_val, "stored exactly"); VX_REACH("accepted");
        if (g_val > 0x7fffffffffll) VX_REACH("large");
    } else {
        VX_ASSERT(r != ARGUS_SUCCESS && r != ARGUS_SHOULD_EXIT && a.error_code == r, "rejected with an error");
        VX_ASSERT(o.value.raw == old.raw, "previous value kept"); 
        if (!v) VX_REACH("absent"); else if (g_range) VX_REACH("out of range"); else if (len == 0) VX_REACH("empty"); else VX_REACH("not a number");
    }
    VX_ASSERT(o.is_set == set && o.value_count == vc, "nothing else changes");
}
