//@ src callbacks/validators/range_validator.c
//@ drop format_range_validator
//@ desc range_validator accepts exactly the whole 64-bit integer or double values inside [min, max]; an inverted range accepts nothing; the option is not changed
//@ enforce range_validator
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
__CPROVER_assigns(argus->error_code);
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t o; validator_data_t d; int e0 = a.error_code;
    VX_ASSUME(o.value_type == VALUE_TYPE_INT || o.value_type == VALUE_TYPE_FLOAT);
    int64_t lo = d.range.min, hi = d.range.max; _Bool in;
    if (o.value_type == VALUE_TYPE_INT) in = lo <= o.value.as_int64 && o.value.as_int64 <= hi;
    else in = (double)lo <= o.value.as_float && o.value.as_float <= (double)hi;
    in = in && lo <= hi;
    int r = range_validator(&a, &o, d);
    if (in) { VX_ASSERT(r == ARGUS_SUCCESS && a.error_code == e0, "a value inside is accepted"); VX_REACH("inside"); if (o.value_type == VALUE_TYPE_FLOAT) VX_REACH("inside float"); }
    else { VX_ASSERT(r == ARGUS_ERROR_INVALID_RANGE && a.error_code == r, "any other is an invalid-range error"); VX_REACH("outside"); if (o.value_type == VALUE_TYPE_FLOAT && o.value.as_float != o.value.as_float) VX_REACH("NaN"); }
}
