#include "cmdline.h"
const char *nx_rule(void) { return "random tables and argument vectors compared with a reference interpreter (short clusters up to 40 characters, failing handlers); non-trivial: non-empty table and at least 2 tokens"; }
void nx_case(void) { G = (gen_t){.max_opt=8,.max_pos=2,.max_sub=1,.max_depth=1,.names="ab",.failures=true,.exits=true}; run_cmdline(); }
