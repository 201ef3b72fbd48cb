//@ src api/argus_init.c
//@ desc OPTION_*, POSITIONAL_*, GROUP_*, SUBCOMMAND, HELP_OPTION, VERSION_OPTION: for every short character, long name and help text the definition has exactly the stated kind, names and texts, the type its name says, the handler of that type and its release, and nothing else set; a positional is required; the ready-made options are exit options with their own handlers
//@ nodfcc
#include "vx.h"
#include "src0.c"
#include "argus/options.h"
int validate_structure(argus_t *argus, argus_option_t *options) { return 0; }
argus_helper_config_t get_default_helper_config(void) { argus_helper_config_t c; return c; }
static void plain(argus_option_t o) {
    VX_ASSERT(o.value.raw == 0 && o.default_value.raw == 0 && !o.have_default && !o.is_set, "no value unless one is stated");
    VX_ASSERT(!o.is_allocated && o.value_count == 0 && o.value_capacity == 0, "holds nothing yet");
    VX_ASSERT(o.hint == 0 && o.env_name == 0 && o.validators == 0 && o.conflict == 0 && o.require == 0 && o.action == 0, "nothing that was not stated");
}
static void opt(argus_option_t o, char c, const char *l, const char *h, argus_valtype_t t, argus_handler_t hd, argus_free_handler_t fr) {
    VX_ASSERT(o.type == TYPE_OPTION && o.value_type == t, "an option of the type named");
    VX_ASSERT(o.sname == c && o.lname == l && o.help == h, "the stated names and help text");
    if (l) VX_ASSERT(o.name == l, "known by its long name"); else VX_ASSERT(o.name && o.name[0] == c && (c == 0 || o.name[1] == 0), "known by its short name");
    VX_ASSERT(o.handler == hd, "the handler of its type"); VX_ASSERT(o.free_handler == fr, "its elements are released");
    VX_ASSERT(o.flags == FLAG_NONE && o.sub_options == 0, "no flags, no table"); plain(o);
}
static void pos(argus_option_t o, const char *n, const char *h, argus_valtype_t t, argus_handler_t hd, argus_free_handler_t fr) {
    VX_ASSERT(o.type == TYPE_POSITIONAL && o.value_type == t, "a positional of the type named");
    VX_ASSERT(o.name == n && o.sname == 0 && o.lname == 0 && o.help == h, "the stated name and help text");
    VX_ASSERT(o.handler == hd, "the handler of its type"); VX_ASSERT(o.free_handler == fr, "its elements are released");
    VX_ASSERT(o.flags == FLAG_REQUIRED && o.sub_options == 0, "required"); plain(o);
}
#define O(M, T, H, F) do { argus_option_t o_ = M(c, l, HELP(h)); opt(o_, c, l, h, T, H, F); } while (0)
#define P(M, T, H, F) do { argus_option_t o_ = M(l, HELP(h)); pos(o_, l, h, T, H, F); } while (0)
void harness(void) {
    char a[2], b[2]; char c = nondet_char(); const char *l = nondet_bool() ? &a[0] : 0, *h = nondet_bool() ? &b[0] : 0;
    O(OPTION_FLAG, VALUE_TYPE_FLAG, flag_handler, default_free);
    O(OPTION_BOOL, VALUE_TYPE_BOOL, bool_handler, default_free);
    O(OPTION_STRING, VALUE_TYPE_STRING, string_handler, default_free);
    O(OPTION_INT, VALUE_TYPE_INT, int_handler, default_free);
    O(OPTION_FLOAT, VALUE_TYPE_FLOAT, float_handler, default_free);
    O(OPTION_ARRAY_STRING, VALUE_TYPE_ARRAY_STRING, array_string_handler, free_array_string_handler);
    O(OPTION_ARRAY_INT, VALUE_TYPE_ARRAY_INT, array_int_handler, default_free);
    O(OPTION_ARRAY_FLOAT, VALUE_TYPE_ARRAY_FLOAT, array_float_handler, default_free);
    O(OPTION_MAP_STRING, VALUE_TYPE_MAP_STRING, map_string_handler, free_map_string_handler);
    O(OPTION_MAP_INT, VALUE_TYPE_MAP_INT, map_int_handler, free_map_int_handler);
    O(OPTION_MAP_FLOAT, VALUE_TYPE_MAP_FLOAT, map_float_handler, free_map_float_handler);
    O(OPTION_MAP_BOOL, VALUE_TYPE_MAP_BOOL, map_bool_handler, free_map_bool_handler);
    VX_REACH("options");
    P(POSITIONAL_STRING, VALUE_TYPE_STRING, string_handler, default_free);
    P(POSITIONAL_INT, VALUE_TYPE_INT, int_handler, default_free);
    P(POSITIONAL_BOOL, VALUE_TYPE_BOOL, bool_handler, default_free);
    P(POSITIONAL_FLOAT, VALUE_TYPE_FLOAT, float_handler, default_free);
    P(POSITIONAL_MANY_STRING, VALUE_TYPE_VARIADIC_STRING, variadic_string_handler, free_variadic_string_handler);
    P(POSITIONAL_MANY_INT, VALUE_TYPE_VARIADIC_INT, variadic_int_handler, default_free);
    P(POSITIONAL_MANY_FLOAT, VALUE_TYPE_VARIADIC_FLOAT, variadic_float_handler, default_free);
    VX_REACH("positionals");
    argus_option_t t[1];
    argus_option_t g = GROUP_START(l), e = GROUP_END(), s = SUBCOMMAND(l, &t[0], HELP(h)), n = OPTION_END(), hp = HELP_OPTION(), v = VERSION_OPTION();
    VX_ASSERT(g.type == TYPE_GROUP && g.name == l && g.flags == FLAG_NONE && !g.handler && !g.sub_options && g.value_type == VALUE_TYPE_NONE, "a group of that name"); plain(g);
    VX_ASSERT(e.type == TYPE_GROUP && e.name == 0, "the end of a group"); plain(e);
    VX_ASSERT(s.type == TYPE_SUBCOMMAND && s.name == l && s.help == h && s.sub_options == &t[0] && !s.handler && s.flags == FLAG_NONE && s.value_type == VALUE_TYPE_NONE, "a subcommand of that name with that table"); plain(s);
    VX_ASSERT(n.type == TYPE_NONE && n.name == 0 && n.value_type == VALUE_TYPE_NONE && n.flags == FLAG_NONE && !n.handler && !n.sub_options, "the end of a table"); plain(n);
    VX_ASSERT(hp.type == TYPE_OPTION && hp.value_type == VALUE_TYPE_FLAG && hp.handler == help_handler && hp.flags == FLAG_EXIT && hp.sname == 'h' && hp.lname && hp.name == hp.lname && hp.help, "the help option"); plain(hp);
    VX_ASSERT(hp.lname[0] == 'h' && hp.lname[1] == 'e' && hp.lname[2] == 'l' && hp.lname[3] == 'p' && hp.lname[4] == 0, "--help");
    VX_ASSERT(v.type == TYPE_OPTION && v.value_type == VALUE_TYPE_FLAG && v.handler == version_handler && v.flags == FLAG_EXIT && v.sname == 'V' && v.lname && v.name == v.lname && v.help, "the version option"); plain(v);
    VX_ASSERT(v.lname[0] == 'v' && v.lname[1] == 'e' && v.lname[2] == 'r' && v.lname[3] == 's' && v.lname[4] == 'i' && v.lname[5] == 'o' && v.lname[6] == 'n' && v.lname[7] == 0, "--version");
    VX_REACH("the rest");
}
