//@ src utils/strings.c
//@ drop split cleanup_split free_split count_words skip_charset starts_with putnchar
//@ desc word_len: from the beginning of a run, its length up to the next separator or the end
//@ enforce word_len
//@ fn word_len 1
//@ loop 0
//@ hyp at(g_o + {i})
//@ inv {i} <= g_n - g_o && (g_k < {i} ==> !g_ksep) && ({i} > 0 ==> G_W[g_o + {i}] == G_W[g_o] + 1 && !SEP(G_s[g_o + {i} - 1]) && G_s[g_o + {i} - 1] != 0)
//@ dec g_n - {i}
//@ trust strchr: non-NULL exactly for a member of the set or the terminator (membership is an arbitrary table)
#include "p23_w.h"
size_t g_o, g_k; _Bool g_ksep;
static size_t word_len(const char *str, const char *charset)
__CPROVER_assigns(g_zero);
#include "src0.c"
void harness(void) {
    SETUP; g_o = nondet_size(); VX_ASSUME(g_o <= n && (g_o == n || START(g_o))); g_k = nondet_size(); VX_ASSUME(g_k < n - g_o); g_ksep = SEP(s[g_o + g_k]);
    size_t r = word_len(s + g_o, G_cs);
    VX_ASSERT(r <= n - g_o && (s[g_o + r] == 0 || SEP(s[g_o + r])), "ends at a separator or the end"); VX_ASSERT(IMPLIES(g_k < r, !g_ksep), "no separator inside"); VX_ASSERT(IMPLIES(g_o < n, r > 0 && W[g_o + r] == W[g_o] + 1), "exactly the run that begins here");
    if (r > 3) VX_REACH("run");
}
