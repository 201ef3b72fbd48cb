//@ src callbacks/validators/range_validator.c
//@ src callbacks/validators/length_validator.c
//@ src callbacks/validators/count_validator.c
//@ drop range_validator length_validator count_validator
//@ desc format_range_validator, format_length_validator, format_count_validator: a fresh text, with room for every pair of bounds, that states both bounds in order and in full; no text only when memory runs out
//@ enforce format_range_validator format_length_validator format_count_validator
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust snprintf of the formats given prints exactly those two numbers, in at most 20 characters each (ISO C)
#include "vx.h"
#include "nounion.h"
#include "argus/types.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <inttypes.h>
#include "argus/internal/cross_platform.h"
size_t g_size; int g_buf, g_out, g_w; int64_t g_lo, g_hi; char g_txt[1];
static void *vx_malloc(size_t n) { VX_ASSERT(!g_buf, "one block"); if (nondet_bool()) return 0; g_buf = 1; g_size = n; return g_txt; }
#define E(k) if (f[k] != s[k]) return 0; if (!f[k]) return 1;
static _Bool eq(const char *f, const char *s) { E(0) E(1) E(2) E(3) E(4) E(5) E(6) E(7) E(8) E(9) E(10) E(11) E(12) E(13) E(14) E(15) return 0; }
static int put(char *b, size_t n, const char *f, int64_t lo, int64_t hi) {
    VX_ASSERT(b == &g_txt[0] && g_buf && n <= g_size, "into the block, within its size"); VX_ASSERT(lo == g_lo && hi == g_hi && !g_out, "both bounds, in order, once"); g_out = 1;
    VX_MODEL(eq(f, "%ld-%ld") || eq(f, "%lld-%lld") || eq(f, "%ld-%ld chars") || eq(f, "%lld-%lld chars"), "the form"); VX_ASSERT(n >= 20 + 1 + 20 + 1 + (g_w == 1 ? 6 : 0), "room for every pair of bounds"); return 5; }
#undef snprintf
#define snprintf(b, n, f, x, y) put(b, n, f, x, y)
#define malloc vx_malloc
char *format_range_validator(validator_data_t data)
__CPROVER_assigns(g_buf, g_size, g_out);
char *format_length_validator(validator_data_t data)
__CPROVER_assigns(g_buf, g_size, g_out);
char *format_count_validator(validator_data_t data)
__CPROVER_assigns(g_buf, g_size, g_out);
#include "src0.c"
#include "src1.c"
#include "src2.c"
void harness(void) {
    validator_data_t v; g_size = 0; g_buf = g_out = 0; g_lo = v.range.min; g_hi = v.range.max; int w = nondet_int(); VX_ASSUME(w >= 0 && w < 3); g_w = w;
    char *r = w == 0 ? format_range_validator(v) : w == 1 ? format_length_validator(v) : format_count_validator(v);
    if (!r) { VX_ASSERT(!g_buf && !g_out, "no text only without memory"); VX_REACH("no memory"); return; }
    VX_ASSERT(r == &g_txt[0] && g_out, "the text"); if (w == 0) VX_REACH("range"); if (w == 1) VX_REACH("length"); if (w == 2) VX_REACH("count");
}
