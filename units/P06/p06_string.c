//@ src callbacks/handlers/string_handler.c
//@ desc string_handler stores exactly the given text, whatever it holds
//@ enforce string_handler
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
int string_handler(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(option->value);
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); char s[len + 1]; VX_ASSUME(s[len] == 0);
    argus_t a; argus_option_t o; char *v = nondet_bool() ? s : (char *)0;
    int r = string_handler(&a, &o, v);
    VX_ASSERT(r == ARGUS_SUCCESS && o.value.as_string == v, "stored exactly"); VX_REACH("done");
}
