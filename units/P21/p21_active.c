//@ src utils/option_lookup.c
//@ drop find_option_by_sname find_option_by_lname find_option_by_name find_positional find_from_relative_path find_option_by_active_path
//@ nodfcc
//@ desc get_active_options: the table of the innermost active subcommand, the program's own table when none is active
//@ enforce get_active_options
#include "p21.h"
#include "src0.c"
void harness(void) {
    argus_t a; argus_option_t s[MAX_SUBCOMMAND_DEPTH]; for (int i = 0; i < MAX_SUBCOMMAND_DEPTH; i++) a.subcommand_stack[i] = &s[i]; size_t d = a.subcommand_depth; VX_ASSUME(d <= MAX_SUBCOMMAND_DEPTH);
    const argus_option_t *r = get_active_options(&a); if (d) { VX_ASSERT(r == s[d - 1].sub_options, "of the innermost"); VX_REACH("deep"); } else { VX_ASSERT(r == a.options, "the program's"); VX_REACH("none"); }
    VX_ASSERT(a.subcommand_depth == d, "nothing changes");
}
