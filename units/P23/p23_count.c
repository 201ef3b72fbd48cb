//@ src utils/strings.c
//@ drop split cleanup_split free_split word_len skip_charset starts_with putnchar
//@ desc count_words: for every text and separator set, the number of places where a separator-free run begins
//@ enforce count_words
//@ fn count_words 2
//@ loop 0
//@ hyp at({i})
//@ inv {i} <= g_n && {l:size_t#0} == G_W[{i}] && ({i} == 0 || SEP(G_s[{i} - 1]) || G_s[{i}] == 0 || SEP(G_s[{i}]))
//@ dec g_n - {i}
//@ loop 1
//@ hyp at({i})
//@ inv __CPROVER_loop_entry({i}) <= {i} && {i} <= g_n && ({i} == 0 || SEP(G_s[{i} - 1]) ? {l:size_t#0} == G_W[{i}] + 1 && G_s[{i}] != 0 && !SEP(G_s[{i}]) : {l:size_t#0} == G_W[{i}])
//@ dec g_n - {i}
//@ trust strchr: non-NULL exactly for a member of the set or the terminator (membership is an arbitrary table)
#include "p23_w.h"
static size_t count_words(const char *str, const char *charset)
__CPROVER_assigns(g_zero);
#include "src0.c"
void harness(void) {
    SETUP; size_t r = count_words(s, G_cs);
    VX_ASSERT(r == G_W[n], "the number of parts"); if (n > 5 && r == 2) VX_REACH("two parts"); if (r == 0) VX_REACH("none");
}
