//@ src api/argus_init.c
//@ desc V_CHOICE_INT, V_CHOICE_FLOAT and V_CHOICE_STR with three hundred choices, REQUIRE, CONFLICT and VALIDATOR with forty: every entry is in the list at its place, the number is exact and the end is there
//@ nodfcc
#include "vx.h"
#include "nounion.h"
#include "src0.c"
#include "argus/options.h"
int validate_structure(argus_t *argus, argus_option_t *options) { return 0; }
argus_helper_config_t get_default_helper_config(void) { argus_helper_config_t c; return c; }
#define T(f, x) f(x), f((x) + 1), f((x) + 2), f((x) + 3), f((x) + 4), f((x) + 5), f((x) + 6), f((x) + 7), f((x) + 8), f((x) + 9)
#define H(f, x) T(f, x), T(f, (x) + 10), T(f, (x) + 20), T(f, (x) + 30), T(f, (x) + 40), T(f, (x) + 50), T(f, (x) + 60), T(f, (x) + 70), T(f, (x) + 80), T(f, (x) + 90)
#define I(x) (base ^ (int64_t)(x))
#define D(x) ((double)(x) + 0.5)
#define S(x) &s[x]
#define R(x) V_RANGE(x, base)
void harness(void) {
    char s[301]; int64_t base = nondet_i64(); int k = nondet_int(); VX_ASSUME(k >= 0 && k < 300);
    argus_option_t i = OPTION_INT('i', "i", VALIDATOR(V_CHOICE_INT(H(I, 0), H(I, 100), H(I, 200)))), d = OPTION_FLOAT('d', "d", VALIDATOR(V_CHOICE_FLOAT(H(D, 0), H(D, 100), H(D, 200)))), t = OPTION_STRING('s', "s", VALIDATOR(V_CHOICE_STR(H(S, 0), H(S, 100), H(S, 200))));
    VX_ASSERT(i.validators[0]->data.choices.count == 300 && !i.validators[1] && d.validators[0]->data.choices.count == 300 && !d.validators[1] && t.validators[0]->data.choices.count == 300 && !t.validators[1], "three hundred choices are three hundred choices");
    VX_ASSERT(i.validators[0]->data.choices.as_ints[k] == (base ^ (int64_t)k), "each integer"); VX_ASSERT(d.validators[0]->data.choices.as_floats[k] == k + 0.5, "each number"); VX_ASSERT(t.validators[0]->data.choices.as_strings[k] == &s[k], "each text"); VX_REACH("long choices");
    argus_option_t r = OPTION_FLAG('r', "r", REQUIRE(T(S, 0), T(S, 10), T(S, 20), T(S, 30)), CONFLICT(T(S, 40), T(S, 50), T(S, 60), T(S, 70)), VALIDATOR(T(R, 0), T(R, 10), T(R, 20), T(R, 30))); VX_ASSUME(k < 40);
    VX_ASSERT(r.require[k] == &s[k] && !r.require[40], "every required name, then the end"); VX_ASSERT(r.conflict[k] == &s[40 + k] && !r.conflict[40], "every conflicting name, then the end");
    VX_ASSERT(r.validators[k]->func == range_validator && r.validators[k]->data.range.min == k && r.validators[k]->data.range.max == base && !r.validators[40], "every restriction, then the end"); VX_REACH("long lists");
}
