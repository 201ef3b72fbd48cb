//@ src callbacks/validators/length_validator.c
//@ drop format_length_validator
//@ desc length_validator accepts exactly the texts whose length lies within non-negative ordered bounds; the option is not changed
//@ enforce length_validator
//@ trust strlen: ISO C contract (any length up to PTRDIFF_MAX)
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <string.h>
char *G_s; size_t g_len;
size_t strlen(const char *s) { VX_MODEL(s == G_s, "length of the value"); VX_ASSERT(s != 0, "length of a text"); return g_len; }
int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
__CPROVER_assigns(argus->error_code);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; validator_data_t d; int e0 = a.error_code;
    g_len = nondet_size(); VX_ASSUME(g_len <= INT64_MAX); G_s = o.value.as_string;
    int64_t lo = d.range.min, hi = d.range.max;
    _Bool ok = G_s && lo >= 0 && hi >= 0 && lo <= hi && (uint64_t)lo <= g_len && g_len <= (uint64_t)hi;
    int r = length_validator(&a, &o, d);
    if (ok) { VX_ASSERT(r == ARGUS_SUCCESS && a.error_code == e0, "accepted"); VX_REACH("accepted"); }
    else { VX_ASSERT(r == (G_s ? ARGUS_ERROR_INVALID_RANGE : ARGUS_ERROR_INVALID_VALUE) && a.error_code == r, "rejected"); if (!G_s) VX_REACH("absent"); else VX_REACH("rejected"); }
}
