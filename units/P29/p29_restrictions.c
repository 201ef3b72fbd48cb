//@ src api/argus_init.c
//@ desc VALIDATOR with V_RANGE, V_LENGTH, V_COUNT, V_REGEX, V_CHOICE_STR, V_CHOICE_INT, V_CHOICE_FLOAT, own checks, MAKE_REGEX: every restriction is in the list, in order, with its check, text form, phase and exactly the stated bounds, pattern or choices (one to seven choices, every one symbolic; longer lists: p29_long), then the end
//@ nodfcc
#include "vx.h"
#include "nounion.h"
#include "src0.c"
#include "argus/options.h"
#include "argus/regex.h"
int validate_structure(argus_t *argus, argus_option_t *options) { return 0; }
argus_helper_config_t get_default_helper_config(void) { argus_helper_config_t c; return c; }
static int chk(argus_t *a, void *p, validator_data_t d) { return 0; }
static char *fmt(validator_data_t d) { return 0; }
void harness(void) {
    char s[8]; char *p = nondet_bool() ? &s[0] : 0, *hint = nondet_bool() ? &s[7] : 0, *c0 = nondet_bool() ? &s[0] : &s[1], *c1 = nondet_bool() ? &s[2] : &s[3], *c2 = nondet_bool() ? &s[4] : &s[5]; uintptr_t cu;
    int64_t lo = nondet_i64(), hi = nondet_i64(), x1 = nondet_i64(), x2 = nondet_i64(), x3 = nondet_i64(); double d1 = nondet_double(), d2 = nondet_double(); regex_data_t re = { p, hint };
    argus_option_t v = OPTION_STRING('v', "v", VALIDATOR(V_RANGE(lo, hi), V_LENGTH(hi, lo), V_COUNT(x1, x2), V_REGEX(re), V_CHOICE_STR(c0, c1, c2), V_CHOICE_INT(x1, x2, x3), V_CHOICE_FLOAT(d1, d2), MAKE_VALIDATOR(chk, fmt, _V_DATA_CUSTOM_(cu), ORDER_PRE)));
    validator_entry_t **e = v.validators;
    VX_ASSERT(e[0] && e[1] && e[2] && e[3] && e[4] && e[5] && e[6] && e[7] && !e[8], "every restriction, then the end");
    VX_ASSERT(e[0]->func == range_validator && e[0]->formatter == format_range_validator && e[0]->order == ORDER_POST && e[0]->data.range.min == lo && e[0]->data.range.max == hi, "range");
    VX_ASSERT(e[1]->func == length_validator && e[1]->formatter == format_length_validator && e[1]->order == ORDER_POST && e[1]->data.range.min == hi && e[1]->data.range.max == lo, "length");
    VX_ASSERT(e[2]->func == count_validator && e[2]->formatter == format_count_validator && e[2]->order == ORDER_POST && e[2]->data.range.min == x1 && e[2]->data.range.max == x2, "count");
    VX_ASSERT(e[3]->func == regex_validator && e[3]->formatter == format_regex_validator && e[3]->order == ORDER_PRE && e[3]->data.regex.pattern == p && e[3]->data.regex.hint == hint, "pattern");
    VX_ASSERT(e[4]->func == choices_string_validator && e[4]->formatter == format_choices_validator && e[4]->order == ORDER_POST && e[4]->data.choices.count == 3 && e[4]->data.choices.type == VALUE_TYPE_STRING, "text choices");
    VX_ASSERT(e[4]->data.choices.as_strings[0] == c0 && e[4]->data.choices.as_strings[1] == c1 && e[4]->data.choices.as_strings[2] == c2, "each text");
    VX_ASSERT(e[5]->func == choices_int_validator && e[5]->formatter == format_choices_validator && e[5]->order == ORDER_POST && e[5]->data.choices.count == 3 && e[5]->data.choices.type == VALUE_TYPE_INT, "integer choices");
    VX_ASSERT(e[5]->data.choices.as_ints[0] == x1 && e[5]->data.choices.as_ints[1] == x2 && e[5]->data.choices.as_ints[2] == x3, "each integer at full width");
    VX_ASSERT(e[6]->func == choices_float_validator && e[6]->formatter == format_choices_validator && e[6]->order == ORDER_POST && e[6]->data.choices.count == 2 && e[6]->data.choices.type == VALUE_TYPE_FLOAT, "number choices");
    if (d1 == d1 && d2 == d2) VX_ASSERT(e[6]->data.choices.as_floats[0] == d1 && e[6]->data.choices.as_floats[1] == d2, "each number");
    VX_ASSERT(e[7]->func == chk && e[7]->formatter == fmt && e[7]->order == ORDER_PRE && e[7]->data.custom == cu, "an own restriction"); VX_REACH("restrictions");
    regex_data_t mr = MAKE_REGEX(p, hint); VX_ASSERT(mr.pattern == p && mr.hint == hint, "a pattern and its hint");
    argus_option_t w7 = OPTION_STRING('v', "v", VALIDATOR(V_CHOICE_STR(c0, c1, c2, c0, c1, c2, c1), V_CHOICE_INT(x1, x2, x3, x1, x2, x3, lo), V_CHOICE_FLOAT(d1, d2, d1, d2, d1, d2, d2))), w1 = OPTION_STRING('v', "v", VALIDATOR(V_CHOICE_STR(c1))); e = w7.validators;
    VX_ASSERT(e[0]->data.choices.count == 7 && e[1]->data.choices.count == 7 && e[2]->data.choices.count == 7 && !e[3], "seven choices"); VX_ASSERT(e[0]->data.choices.as_strings[6] == c1 && e[1]->data.choices.as_ints[6] == lo && e[1]->data.choices.as_ints[5] == x3, "the last of seven"); if (d2 == d2) VX_ASSERT(e[2]->data.choices.as_floats[6] == d2, "the last of seven");
    VX_ASSERT(w1.validators[0]->data.choices.count == 1 && w1.validators[0]->data.choices.as_strings[0] == c1 && !w1.validators[1], "a single choice"); VX_REACH("long lists");
}
