//@ src api/argus_init.c
//@ desc DEFAULT, REQUIRE, CONFLICT, HINT, FLAGS, ENV_VAR, ACTION, HANDLER, FREE_HANDLER: for every value the definition holds exactly what was stated, integers at full width and floating-point values as such; lists are complete, in order and terminated (lists of one to seven entries, every entry symbolic)
//@ nodfcc
#include "vx.h"
#include "src0.c"
#include "argus/options.h"
#include "argus/regex.h"
int validate_structure(argus_t *argus, argus_option_t *options) { return 0; }
argus_helper_config_t get_default_helper_config(void) { argus_helper_config_t c; return c; }
static int own(argus_t *a, argus_option_t *o, char *v) { return 0; }
static int own_free(argus_option_t *o) { return 0; }
static int act(argus_t *a, void *d) { return 0; }
#define DEFS_OF(o) ((o).is_set && (o).have_default)
static uint64_t bits(double d) { union { double d; uint64_t u; } x; x.d = d; return x.u; }
void harness(void) {
    char s[8]; int64_t i = nondet_i64(); int n = nondet_int(); double d = nondet_double(); float f; _Bool b = nondet_bool(); char *p = nondet_bool() ? &s[0] : 0;
    argus_option_t oi = OPTION_INT('i', "i", DEFAULT(i)), on = OPTION_INT('n', "n", DEFAULT(n)), od = OPTION_FLOAT('d', "d", DEFAULT(d)), of = OPTION_FLOAT('f', "f", DEFAULT(f)), ob = OPTION_BOOL('b', "b", DEFAULT(b)), os = OPTION_STRING('s', "s", DEFAULT(p)), ol = OPTION_FLOAT('l', "l", DEFAULT(0.8));
    VX_ASSERT(DEFS_OF(oi) && oi.value.as_int64 == i && oi.default_value.as_int64 == i, "an integer default at full width");
    VX_ASSERT(DEFS_OF(on) && on.value.as_int64 == n && on.default_value.as_int64 == n && on.value.as_int == n, "an int default");
    if (d == d) VX_ASSERT(DEFS_OF(od) && bits(od.value.as_float) == bits(d) && bits(od.default_value.as_float) == bits(d), "a floating-point default");
    if (f == f) VX_ASSERT(DEFS_OF(of) && of.value.as_float == f && of.default_value.as_float == f, "a float default");
    VX_ASSERT(DEFS_OF(ol) && ol.value.as_float == 0.8 && ol.default_value.as_float == 0.8, "a floating-point literal");
    VX_ASSERT(DEFS_OF(ob) && ob.value.as_bool == b && ob.default_value.as_bool == b, "a boolean default");
    VX_ASSERT(DEFS_OF(os) && os.value.as_string == p && os.default_value.as_string == p, "a text default");
    VX_ASSERT(oi.handler == int_handler && od.handler == float_handler && os.handler == string_handler, "a default changes nothing else"); VX_REACH("defaults");
    char *c0 = nondet_bool() ? &s[0] : &s[1], *c1 = nondet_bool() ? &s[2] : &s[3], *c2 = nondet_bool() ? &s[4] : &s[5], *env = &s[6], *hint = &s[7];
    argus_optflags_t fl;
    argus_option_t m = OPTION_STRING('m', "m", HINT(hint), FLAGS(fl), ENV_VAR(env), REQUIRE(c0, c1, c2), CONFLICT(c2, c0));
    VX_ASSERT(m.hint == hint && m.flags == fl && m.env_name == env, "hint, flags, variable");
    VX_ASSERT(m.require[0] == c0 && m.require[1] == c1 && m.require[2] == c2 && m.require[3] == 0, "every required name, in order, then the end");
    VX_ASSERT(m.conflict[0] == c2 && m.conflict[1] == c0 && m.conflict[2] == 0, "every conflicting name, in order, then the end");
    argus_option_t m1 = OPTION_STRING('m', "m", REQUIRE(c1), CONFLICT(c0)), m7 = OPTION_STRING('m', "m", REQUIRE(c0, c1, c2, c0, c1, c2, c0), CONFLICT(c0, c1, c2, c0, c1, c2, c1));
    VX_ASSERT(m1.require[0] == c1 && m1.require[1] == 0 && m1.conflict[0] == c0 && m1.conflict[1] == 0, "a single name");
    VX_ASSERT(m7.require[0] == c0 && m7.require[3] == c0 && m7.require[4] == c1 && m7.require[5] == c2 && m7.require[6] == c0 && m7.require[7] == 0 && m7.conflict[5] == c2 && m7.conflict[6] == c1 && m7.conflict[7] == 0, "seven names");
    argus_option_t u = OPTION_BASE('u', "u", VALUE_TYPE_CUSTOM, HANDLER(own), FREE_HANDLER(own_free)), pf = POSITIONAL_INT("p", FLAGS(fl)), sc = SUBCOMMAND("s", &m, ACTION(act), FLAGS(fl)), hh = OPTION_STRING('u', "u", HANDLER(own), FREE_HANDLER(own_free));
    VX_ASSERT(u.handler == own && u.free_handler == own_free && u.value_type == VALUE_TYPE_CUSTOM, "own handlers"); VX_ASSERT(hh.handler == own && hh.free_handler == own_free && hh.value_type == VALUE_TYPE_STRING, "own handlers replace the usual ones");
    VX_ASSERT(pf.flags == fl && pf.type == TYPE_POSITIONAL, "stated flags replace required"); VX_ASSERT(sc.action == act && sc.flags == fl && sc.sub_options == &m, "action"); VX_REACH("modifiers");
}
