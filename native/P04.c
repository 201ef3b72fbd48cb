#include "cmdline.h"
const char *nx_rule(void) { return "random tables and argument vectors compared with a reference interpreter (token vectors of 0-40 tokens of every form); non-trivial: non-empty table and at least 2 tokens"; }
void nx_case(void) { G = (gen_t){.max_opt=6,.max_pos=4,.max_sub=3,.max_depth=3,.names="abc",.failures=true,.exits=true}; run_cmdline(); }
