//@ src utils/strings.c
//@ drop split cleanup_split free_split word_len count_words skip_charset putnchar
//@ desc starts_with: a pointer just behind the prefix exactly when the text begins with it, NULL otherwise or when either is missing
//@ nodfcc
//@ trust strlen: the length; strncmp with the prefix's length: 0 exactly when the text begins with the prefix (then it is at least as long)
#include "vx.h"
#include "argus/internal/cross_platform.h"
#include <string.h>
#include "argus/internal/utils.h"
const char *G_p, *G_s; size_t g_n, g_m; _Bool g_eq;
size_t strlen(const char *p) { VX_MODEL(p && (p == G_p || p == G_s), "length of one of the two"); return p == G_p ? g_n : g_m; }
int strncmp(const char *a, const char *b, size_t n) { VX_ASSERT(a && b && ((a == G_s && b == G_p) || (a == G_p && b == G_s)) && n == g_n, "compares the whole prefix"); int r = nondet_int(); VX_ASSUME((r == 0) == g_eq); return r; }
#include "src0.c"
void harness(void) {
    g_n = nondet_size(); g_m = nondet_size(); VX_ASSUME(g_n < 1000000 && g_m < 1000000); char p[g_n + 1], s[g_m + 1]; G_p = nondet_bool() ? &p[0] : 0; G_s = nondet_bool() ? &s[0] : 0; g_eq = nondet_bool(); VX_ASSUME(IMPLIES(g_eq, g_n <= g_m));
    char *r = starts_with(G_p, G_s);
    if (G_p && G_s && g_eq) { VX_ASSERT(r == s + g_n, "just behind the prefix"); VX_REACH("prefix"); } else { VX_ASSERT(r == 0, "NULL otherwise"); VX_REACH("no prefix"); }
}
