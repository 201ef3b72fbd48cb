#include "cmdline.h"
const char *nx_rule(void) { return "random tables and argument vectors compared with a reference interpreter (subcommand tables with shared prefixes, nesting up to 11); non-trivial: non-empty table and at least 2 tokens"; }
void nx_case(void) {
    if (nx_chance(1, 8)) G = (gen_t){.max_opt=1,.max_pos=1,.max_sub=1,.max_depth=11,.names="ab",.prefixes=true,.deep=true};
    else G = (gen_t){.max_opt=1,.max_pos=1,.max_sub=5,.max_depth=2,.names="ab",.prefixes=true};
    run_cmdline();
}
