//@ src api/argus_init.c
//@ desc the flag and type constants: every flag and every value type is one bit of its own, the kinds and phases differ, the families of types are exactly the types named after them, and argus_init starts a context with the stated table, name and version, nothing selected and no error
//@ nodfcc
#include "vx.h"
#include "src0.c"
#include "argus/options.h"
#include "argus/api.h"
#include "argus/errors.h"
int g_checked;
int validate_structure(argus_t *argus, argus_option_t *options) { g_checked++; return nondet_int(); }
argus_helper_config_t get_default_helper_config(void) { argus_helper_config_t c; return c; }
static _Bool one(unsigned x) { return x && !(x & (x - 1)); }
static const unsigned FL[] = {FLAG_REQUIRED, FLAG_HIDDEN, FLAG_ADVANCED, FLAG_DEPRECATED, FLAG_EXPERIMENTAL, FLAG_EXIT, FLAG_ENV_OVERRIDE, FLAG_AUTO_ENV, FLAG_NO_ENV_PREFIX, FLAG_SORTED, FLAG_UNIQUE, FLAG_SORTED_VALUE, FLAG_SORTED_KEY, FLAG_UNIQUE_VALUE, FLAG_EXCLUSIVE};
static const unsigned VT[] = {VALUE_TYPE_INT, VALUE_TYPE_STRING, VALUE_TYPE_FLOAT, VALUE_TYPE_BOOL, VALUE_TYPE_FLAG, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_INT, VALUE_TYPE_MAP_FLOAT, VALUE_TYPE_MAP_BOOL, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_FLOAT, VALUE_TYPE_CUSTOM};
void harness(void) {
    size_t i, j; VX_ASSUME(i < 15 && j < 15 && i != j); VX_ASSERT(one(FL[i]) && !(FL[i] & FL[j]), "every flag is a bit of its own"); VX_ASSERT(FLAG_OPTIONAL == 0 && FLAG_NONE == 0, "no flag");
    size_t k, l; VX_ASSUME(k < 16 && l < 16 && k != l); VX_ASSERT(one(VT[k]) && !(VT[k] & VT[l]), "every type is a bit of its own"); VX_ASSERT(VALUE_TYPE_NONE == 0, "no type");
    VX_ASSERT(!!(VALUE_TYPE_ARRAY & VT[k]) == (k >= 5 && k <= 7), "the array types"); VX_ASSERT(!!(VALUE_TYPE_MAP & VT[k]) == (k >= 8 && k <= 11), "the map types"); VX_ASSERT(!!(VALUE_TYPE_VARIADIC & VT[k]) == (k >= 12 && k <= 14), "the variadic types");
    VX_ASSERT(!!(VALUE_TYPE_PRIMITIVE & VT[k]) == (k <= 3), "the single values"); VX_ASSERT(!!(VALUE_TYPE_ANY_NUMERIC & VT[k]) == (k == 0 || k == 2), "the numbers");
    VX_ASSERT(TYPE_NONE == 0 && TYPE_OPTION != TYPE_GROUP && TYPE_OPTION != TYPE_POSITIONAL && TYPE_OPTION != TYPE_SUBCOMMAND && TYPE_GROUP != TYPE_POSITIONAL && TYPE_GROUP != TYPE_SUBCOMMAND && TYPE_POSITIONAL != TYPE_SUBCOMMAND && TYPE_OPTION && TYPE_GROUP && TYPE_POSITIONAL && TYPE_SUBCOMMAND && ORDER_PRE != ORDER_POST, "kinds and phases differ");
    VX_REACH("bits");
    argus_option_t t[1]; char n[1], v[1]; g_checked = 0; argus_t a = argus_init(t, n, nondet_bool() ? &v[0] : 0);
    VX_ASSERT(a.options == t && a.program_name == n && (a.version == v || a.version == 0) && a.description == 0 && a.env_prefix == 0 && a.subcommand_depth == 0 && a.error_code == ARGUS_SUCCESS && !g_checked, "a fresh context, not checked in release builds"); VX_REACH("init");
}
