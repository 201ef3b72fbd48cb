//@ src utils/strings.c
//@ drop cleanup_split free_split count_words word_len skip_charset starts_with putnchar
//@ desc split: the result has exactly as many entries as the text has maximal separator-free runs; entry k is a copy of the k-th run, complete, then NULL; when memory runs out everything allocated is released and the result is NULL
//@ enforce split
//@ fn split 1
//@ loop 0
//@ assigns __CPROVER_object_whole({l:char **#0}); g_i; g_blk; g_st; g_ln; g_o; g_ph; g_tick; g_fail; g_cl
//@ hyp next({i})
//@ inv {i} <= g_nb && {l:size_t#0} == g_nb && __CPROVER_same_object({l:char *#0}, G_s) && __CPROVER_POINTER_OFFSET({l:char *#0}) <= g_n && !g_fail && g_cl == 0
//@ inv G_W[__CPROVER_POINTER_OFFSET({l:char *#0})] == {i} && (__CPROVER_POINTER_OFFSET({l:char *#0}) == 0 || G_s[__CPROVER_POINTER_OFFSET({l:char *#0})] == 0 || SEP(G_s[__CPROVER_POINTER_OFFSET({l:char *#0})]))
//@ inv {l:char **#0} == G_r && (g_k < {i} ==> {l:char **#0}[g_k] == g_blk && g_blk == &g_b1[0] && g_st <= g_n && G_W[g_st] == g_k && g_ln <= g_n - g_st && g_ln > 0 && START(g_st) && (G_s[g_st + g_ln] == 0 || SEP(G_s[g_st + g_ln])) && G_W[g_st + g_ln] == g_k + 1)
//@ dec g_nb - {i}
//@ trust count_words, skip_charset, word_len, cleanup_split, safe_strndup by their contracts (discharged in p23_count, p23_skip, p23_word, p23_cleanup, p23_strndup)
//@ trust malloc: a fresh block of the size asked for, or NULL
#include "p23_w.h"
#include "argus/internal/utils.h"
static char *cp(const char *p, size_t n);
#define safe_strndup cp
size_t g_i, g_k, g_st, g_ln, g_o, g_nb; int g_ph, g_tick, g_cl; _Bool g_fail; char *g_blk, g_b1[2], g_b2[2], **G_r; _Bool g_mf;
static void next(size_t i) { g_i = i; g_ph = 0; }
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
static int skip_charset(const char *p, const char *c) {
    VX_ASSERT(c == G_cs && __CPROVER_same_object(p, G_s) && OFF(p) <= g_n && g_ph == 0, "from the end of the last part"); size_t k = nondet_size(), o = OFF(p); VX_ASSUME(k <= g_n - o && (G_s[o + k] == 0 || !SEP(G_s[o + k])) && G_W[o + k] == G_W[o] && IMPLIES(k > 0, SEP(G_s[o + k - 1])) && IMPLIES(k == 0 && o == 0 && G_s[0] && !SEP(G_s[0]), START(0)) && ((o + k == g_n) == (G_s[o + k] == 0)));
    g_o = o + k; g_ph = 1; return (int)k;
}
static size_t word_len(const char *p, const char *c) {
    VX_ASSERT(c == G_cs && __CPROVER_same_object(p, G_s) && OFF(p) == g_o && g_ph == 1, "of the part that begins here"); VX_ASSERT(START(g_o), "there is another part");
    size_t l = nondet_size(); VX_ASSUME(l > 0 && l <= g_n - g_o && (G_s[g_o + l] == 0 || SEP(G_s[g_o + l])) && G_W[g_o + l] == G_W[g_o] + 1); g_ln = g_i == g_k ? l : g_ln; g_tick = (int)l; g_ph = 2; return l;
}
static char *cp(const char *p, size_t n) {
    VX_ASSERT(__CPROVER_same_object(p, G_s) && OFF(p) == g_o && n == (size_t)g_tick && g_ph == 2, "copies exactly the part"); VX_ASSERT(G_W[g_o] == g_i, "in order"); g_ph = 3;
    if (nondet_bool()) { g_fail = 1; return 0; } if (g_i == g_k) { g_st = g_o; g_blk = g_b1; return g_b1; } return g_b2;
}
static size_t count_words(const char *p, const char *c) { VX_ASSERT(p == G_s && c == G_cs, "of the whole text"); return g_nb; }
static void cleanup_split(char **p, size_t n) { VX_ASSERT(p == G_r && n == g_i && g_fail && g_cl == 0, "releases the parts made so far and the result, once"); VX_ASSERT(IMPLIES(g_k < n, p[g_k] == g_blk), "every part made so far is in the result"); g_cl = 1; }
char *R;
void *vx_alloc(size_t n) { VX_ASSERT(n == (g_nb + 1) * sizeof(char *), "room for every part and the end mark"); return g_mf ? 0 : G_r; }
#define malloc vx_alloc
char **split(const char *str, const char *charset)
__CPROVER_assigns(g_i, g_blk, g_st, g_ln, g_o, g_ph, g_tick, g_fail, g_cl, __CPROVER_object_whole(G_r));
#include "src0.c"
void harness(void) {
    SETUP; g_nb = W[n]; VX_ASSUME(g_nb <= n); char *res[g_nb + 1]; G_r = res; g_k = nondet_size(); VX_ASSUME(g_k < g_nb); g_mf = nondet_bool(); g_fail = 0; g_cl = 0; g_ph = 0; g_st = g_ln = 0; g_blk = 0;
    char **r = split(s, G_cs);
    if (g_mf) { VX_ASSERT(r == 0 && !g_cl && !g_fail, "no memory, no result"); VX_REACH("no memory"); }
    else if (g_fail) { VX_ASSERT(r == 0 && g_cl == 1, "memory ran out: everything is released"); VX_REACH("memory ran out"); }
    else { VX_ASSERT(r == G_r && r[g_nb] == 0 && !g_cl, "ends with NULL after as many entries as there are parts"); VX_ASSERT(r[g_k] == g_b1 && W[g_st] == g_k && START(g_st) && (s[g_st + g_ln] == 0 || SEP(s[g_st + g_ln])), "entry k is a copy of the k-th part"); VX_REACH("parts"); if (g_nb > 3 && g_k == 2) VX_REACH("many"); }
}
