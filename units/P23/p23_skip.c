//@ src utils/strings.c
//@ drop split cleanup_split free_split count_words word_len starts_with putnchar
//@ desc skip_charset: the number of separators from here to the next run or the end; no run begins among them
//@ enforce skip_charset
//@ fn skip_charset 1
//@ loop 0
//@ hyp at(g_o + (size_t){i})
//@ inv 0 <= {i} && (size_t){i} <= g_n - g_o && (g_k < (size_t){i} ==> g_ksep) && G_W[g_o + (size_t){i}] == G_W[g_o] && ({i} > 0 ==> SEP(G_s[g_o + (size_t){i} - 1]))
//@ dec (int)g_n - {i}
//@ trust strchr: non-NULL exactly for a member of the set or the terminator (membership is an arbitrary table)
#include "p23_w.h"
size_t g_o, g_k; _Bool g_ksep;
static int skip_charset(const char *str, const char *charset)
__CPROVER_assigns(g_zero);
#include "src0.c"
void harness(void) {
    SETUP; g_o = nondet_size(); VX_ASSUME(g_o <= n); g_k = nondet_size(); VX_ASSUME(g_k < n - g_o); g_ksep = SEP(s[g_o + g_k]);
    int r = skip_charset(s + g_o, G_cs);
    VX_ASSERT(r >= 0 && (size_t)r <= n - g_o && (s[g_o + r] == 0 || !SEP(s[g_o + r])), "stops at the next character that is no separator, or the end"); VX_ASSERT(IMPLIES(g_k < r, g_ksep), "skips separators only"); VX_ASSERT(W[g_o + r] == W[g_o], "no run begins among them");
    if (r > 3) VX_REACH("skipped");
}
