#include "cmdline.h"
const char *nx_rule(void) { return "random tables and argument vectors compared with a reference interpreter (--NAME / --NAME=VALUE tokens over tables with short and 55-75 character names); non-trivial: non-empty table and at least 2 tokens"; }
void nx_case(void) { G = (gen_t){.max_opt=6,.max_pos=2,.max_sub=2,.max_depth=1,.names="ab",.longnames=true,.exits=true,.failures=true}; run_cmdline(); }
