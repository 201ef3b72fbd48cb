//@ src callbacks/handlers/array_int_handler.c
//@ src callbacks/handlers/array_float_handler.c
//@ src callbacks/handlers/default_free.c
//@ drop array_int_handler set_value add_range_values parse_int_range search_range_separator array_float_handler
//@ desc free_array_int_handler, free_array_float_handler and default_free release the block of the option exactly once and nothing else
//@ nodfcc
//@ enforce free_array_int_handler free_array_float_handler default_free
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include "argus/internal/cross_platform.h"
void *G_p; int g_b;
static void vx_free(void *p) { VX_ASSERT(p == G_p && g_b == 0, "the option's block, once"); g_b++; }
#define free vx_free
#define set_value set_value_i
#include "src0.c"
#undef set_value
#undef MIN
#undef MAX
#define set_value set_value_f
#include "src1.c"
#include "src2.c"
void harness(void) {
    argus_option_t o; argus_value_t a[2]; g_b = 0; int w = nondet_int();
    if (w == 0) { o.value.as_array = a; G_p = a; free_array_int_handler(&o); }
    else if (w == 1) { o.value.as_array = a; G_p = a; free_array_float_handler(&o); }
    else { o.value.as_ptr = a; G_p = a; default_free(&o); }
    VX_ASSERT(g_b == 1, "released"); VX_REACH("end");
}
