//@ src callbacks/validators/count_validator.c
//@ drop format_count_validator
//@ desc count_validator accepts exactly the collections whose element count lies within non-negative ordered bounds; the option is not changed
//@ enforce count_validator
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
__CPROVER_assigns(argus->error_code);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; validator_data_t d; int e0 = a.error_code;
    VX_ASSUME(o.value_count <= INT64_MAX);
    int64_t lo = d.range.min, hi = d.range.max;
    _Bool ok = lo >= 0 && hi >= 0 && lo <= hi && (uint64_t)lo <= o.value_count && o.value_count <= (uint64_t)hi;
    int r = count_validator(&a, &o, d);
    if (ok) { VX_ASSERT(r == ARGUS_SUCCESS && a.error_code == e0, "accepted"); VX_REACH("accepted"); }
    else { VX_ASSERT(r == ARGUS_ERROR_INVALID_RANGE && a.error_code == r, "rejected"); VX_REACH("rejected"); }
}
