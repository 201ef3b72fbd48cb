//@ src callbacks/handlers/array_int_handler.c
//@ drop search_range_separator parse_int_range add_range_values array_int_handler free_array_int_handler
//@ desc set_value of array_int_handler: adds exactly the range the text denotes; a text that denotes none is a format error and adds nothing
//@ enforce set_value
//@ trust parse_int_range, add_range_values by their contracts (discharged in units p12_range, p12_add_range)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
argus_option_t *G_o; char *G_s; _Bool g_ok; int64_t g_lo, g_hi; int g_add, g_st;
#include "src0.c"
int parse_int_range(int_argus_range_t *r, const char *v) { VX_ASSERT(v == G_s && !g_add, "reads the text"); if (!g_ok) { r->start = nondet_i64(); return -1; } r->start = g_lo; r->end = g_hi; return 0; }
int add_range_values(argus_option_t *o, const int_argus_range_t *r) { VX_ASSERT(g_ok && o == G_o && r->start == g_lo && r->end == g_hi && !g_add, "adds that range once"); g_add = 1; g_st = nondet_int(); return g_st; }
static int set_value(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(argus->error_code, g_add, g_st);
void harness(void) {
    argus_t a; argus_option_t o; char s[2]; G_o = &o; G_s = s; g_ok = nondet_bool(); g_lo = nondet_i64(); g_hi = nondet_i64(); VX_ASSUME(g_lo <= g_hi); g_add = 0;
    int r = set_value(&a, &o, s);
    if (g_ok) { VX_ASSERT(g_add && r == g_st, "the range is added"); VX_REACH("added"); }
    else { VX_ASSERT(!g_add && r == ARGUS_ERROR_INVALID_FORMAT && a.error_code == r, "format error"); VX_REACH("error"); }
}
