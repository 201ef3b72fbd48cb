//@ src callbacks/validators/choices_validator.c
//@ drop format_choices_validator
//@ desc choices_string_validator accepts exactly the listed values, for any number of choices; the option is not changed and the text built for the report is released
//@ enforce choices_string_validator
//@ fn choices_string_validator 1
//@ loop 0
//@ assigns g_e
//@ hyp (g_e = {i}), __CPROVER_assume({i} < g_n ==> G_c[{i}] != 0)
//@ inv {i} <= g_n && (g_k < {i} ==> !g_mk) && g_live == 0
//@ dec g_n - {i}
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust format_choices_validator: NULL or a fresh text owned by the caller
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
//@ trust strcmp: returns 0 exactly for equal texts (equality with the value is an uninterpreted relation)
#include "vx.h"
#include "nounion.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <stdlib.h>
#include <string.h>
#include "argus/internal/cross_platform.h"
char **G_c; size_t g_e, g_n, g_k; _Bool g_mk; int g_live; char g_txt[1];
_Bool __CPROVER_uninterpreted_eq(const char *); char *G_v;
int strcmp(const char *a, const char *b) {
    VX_MODEL(a && b && (a == G_v || b == G_v), "compares the value with a choice");
    int r = nondet_int(); VX_ASSUME((r == 0) == __CPROVER_uninterpreted_eq(a == G_v ? b : a)); return r;
}
#define EQ(x) (G_v && __CPROVER_uninterpreted_eq(x))
static void vx_free(void *p) { VX_ASSERT(p == (void *)g_txt && g_live == 1, "releases the report text once"); g_live = 0; }
#define free vx_free
int choices_string_validator(argus_t *argus, void *option_ptr, validator_data_t data)
__CPROVER_assigns(argus->error_code, g_e, g_live);
#include "src0.c"
char *format_choices_validator(validator_data_t data) { if (nondet_bool()) return 0; g_live++; return g_txt; }
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffff); g_n = n;
    char * c[n + 1]; argus_t a; argus_option_t o; int e0 = a.error_code;
    validator_data_t d = {.choices = {.as_strings = &c[0], .count = n, .type = nondet_int()}}; G_c = &c[0]; g_live = 0;
    G_v = o.value.as_string;
    size_t k; VX_ASSUME(k < n); g_k = k; g_mk = EQ(c[k]);
    int r = choices_string_validator(&a, &o, d);
    VX_ASSERT(g_live == 0, "nothing is kept");
    if (r == ARGUS_SUCCESS) { VX_ASSERT(g_e < n && EQ(c[g_e]) && a.error_code == e0, "accepted only when listed"); VX_REACH("accepted"); }
    else { VX_ASSERT(!g_mk, "a listed value is accepted"); VX_ASSERT((G_v ? r == ARGUS_ERROR_INVALID_CHOICE : r == ARGUS_ERROR_INVALID_VALUE) && a.error_code == r, "invalid-choice error"); if (n > 2) VX_REACH("rejected"); }
}
