//@ src api/argus_init.c
//@ desc _argus_init_validate: the context is filled from the arguments; when checking is asked for and the table does not pass, the program ends with a failure status, otherwise it goes on
//@ nodfcc
//@ trust validate_structure: its status (discharged in p20_structure); exit does not return
#include "vx.h"
#include "src0.c"
argus_option_t t[1]; int g_n, g_st; _Bool g_val;
int validate_structure(argus_t *a, argus_option_t *o) { VX_ASSERT(o == t && a->options == t && g_val, "the table is checked when asked"); g_n++; return g_st; }
void exit(int s) { VX_ASSERT(g_val && g_n == 1 && g_st != 0 && s != 0, "ends only for a table that does not pass"); VX_REACH("ended"); VX_ASSUME(0); }
static argus_helper_config_t cfg;
argus_helper_config_t get_default_helper_config(void) { return cfg; }
void harness(void) {
    char p[2], v[2]; g_n = 0; g_st = nondet_int(); g_val = nondet_bool();
    argus_t a = _argus_init_validate(t, p, v, g_val);
    VX_ASSERT(!g_val || (g_n == 1 && g_st == 0), "goes on only when the table passes"); VX_ASSERT(a.program_name == p && a.version == v && a.options == t && a.subcommand_depth == 0 && a.error_code == 0 && a.env_prefix == 0, "the context is what was given, nothing selected, no error");
    if (g_val) VX_REACH("checked"); else VX_REACH("unchecked");
}
