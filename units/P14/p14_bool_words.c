//@ src callbacks/handlers/map_bool_handler.c
//@ drop set_kv_pair map_bool_handler free_map_bool_handler
//@ desc string_to_bool of map_bool_handler accepts exactly the documented words in any letter case, for texts of every length; any other text is rejected and changes nothing (loops over constant-size tables are unrolled completely)
//@ enforce string_to_bool
//@ cbmc --unwind 9 --unwinding-assertions
//@ trust strlen, tolower: ISO C contracts in the C locale; strcmp: modelled by its definition on texts up to 7 characters
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <string.h>
#include <ctype.h>
#include "boolwords.h"
char *G_s; size_t g_len;
size_t strlen(const char *s) { VX_MODEL(s == G_s, "length of the text"); return g_len; }
int tolower(int c) { return LOW(c); }
#define NE(i) (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (a[i] == 0) return 0
int strcmp(const char *a, const char *b) {
    if NE(0); if NE(1); if NE(2); if NE(3); if NE(4); if NE(5); if NE(6);
    VX_MODEL(0, "compares texts longer than the words"); return 1;
}
static int string_to_bool(const char *arg)
__CPROVER_requires(1) __CPROVER_ensures(1) __CPROVER_assigns();
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len;
    char s[len + 1]; VX_ASSUME(s[len] == 0); G_s = s;
    VX_ASSUME(IMPLIES(len > 0, s[0]) && IMPLIES(len > 1, s[1]) && IMPLIES(len > 2, s[2]) && IMPLIES(len > 3, s[3]) && IMPLIES(len > 4, s[4]) && IMPLIES(len > 5, s[5]));
    int w = ref_bool(s, len);
    int r = string_to_bool(s);
    VX_ASSERT(r == w, "1 for a true word, 0 for a false word, -1 for anything else");
    if (w == 1) VX_REACH("true"); if (w == 0) VX_REACH("false"); if (w < 0 && len > 6) VX_REACH("long text"); if (w < 0 && len < 4) VX_REACH("other");
}
