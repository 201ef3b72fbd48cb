//@ src callbacks/handlers/float_handler.c
//@ desc float_handler stores exactly the converted value of a complete in-range text and otherwise reports an error and leaves the option as it was
//@ enforce float_handler
//@ trust strtod: ISO C contract (value of the longest numeric prefix and its end)
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <stdlib.h>
#include <errno.h>
int g_errno; int *__errno_location(void) { return &g_errno; }
char *G_s; size_t g_len, g_off; double g_val; _Bool g_range;
double strtod(const char *s, char **end) {
    VX_MODEL(s == G_s, "converts the given text");
    if (end) *end = G_s + g_off;
    if (g_range) g_errno = ERANGE;
    return g_val;
}
int float_handler(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(argus->error_code, option->value, g_errno);
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len;
    char s[len + 1]; VX_ASSUME(s[len] == 0); G_s = s;
    g_off = nondet_size(); VX_ASSUME(g_off <= len && (g_off == len || s[g_off] != 0));
    g_val = nondet_double(); g_range = nondet_bool();
    VX_ASSUME(IMPLIES(g_off == 0, g_val == 0 && !g_range));
    argus_t a; argus_option_t o; argus_value_t old = o.value; size_t vc = o.value_count; _Bool set = o.is_set; 
    char *v = nondet_bool() ? s : (char *)0;
    int r = float_handler(&a, &o, v);
    if (v && g_off > 0 && g_off == len) {
        VX_ASSERT(r == ARGUS_SUCCESS && (o.value.as_float == g_val || (g_val != g_val && o.value.as_float != o.value.as_float)), "stored exactly"); VX_REACH("accepted");
    } else {
        VX_ASSERT(r != ARGUS_SUCCESS && r != ARGUS_SHOULD_EXIT && a.error_code == r, "rejected with an error");
        VX_ASSERT(o.value.raw == old.raw, "previous value kept"); 
        if (!v) VX_REACH("absent"); else if (len == 0) VX_REACH("empty"); else VX_REACH("not a number");
    }
    VX_ASSERT(o.is_set == set && o.value_count == vc, "nothing else changes");
}
