#include "cmdline.h"
const char *nx_rule(void) { return "random tables and argument vectors compared with a reference interpreter (1-4 pre/post checks per option with scripted outcomes, failing handlers, exit options); non-trivial: non-empty table and at least 2 tokens"; }
void nx_case(void) { G = (gen_t){.max_opt=5,.max_pos=3,.max_sub=1,.max_depth=1,.names="ab",.failures=true,.validators=true,.exits=true}; run_cmdline(); }
