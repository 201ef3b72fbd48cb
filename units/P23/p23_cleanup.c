//@ src utils/strings.c
//@ drop split word_len count_words skip_charset starts_with putnchar
//@ desc cleanup_split, free_split: every part is released exactly once, then the list itself, and nothing else
//@ enforce cleanup_split free_split
//@ fn cleanup_split 1
//@ loop 0
//@ assigns g_i; g_fr; g_kf; __CPROVER_object_whole(G_r)
//@ hyp next({i})
//@ inv {i} <= g_nb && g_fr == {i} && g_kf == (g_k < {i} ? 1 : 0)
//@ dec g_nb - {i}
//@ fn free_split 1
//@ loop 0
//@ assigns g_i; g_fr; g_kf; __CPROVER_object_whole(G_r)
//@ hyp next({i})
//@ inv {i} <= g_nb && g_fr == {i} && g_kf == (g_k < {i} ? 1 : 0)
//@ dec g_nb - {i}
//@ trust free: releases one block
#include "p23_w.h"
#include "argus/internal/utils.h"
size_t g_i, g_k, g_nb, g_fr; int g_kf, g_list; char g_b[2], **G_r;
static void next(size_t i) { g_i = i; if (i < g_nb) G_r[i] = g_b; else if (i == g_nb) G_r[i] = 0; }
void free(void *p) {
    if (p == G_r) { VX_ASSERT(g_fr == g_nb && !g_list, "the list last, once"); g_list = 1; return; }
    VX_ASSERT(p == g_b && g_i < g_nb && g_fr == g_i && !g_list, "each part once, in order"); g_fr++; if (g_i == g_k) g_kf++;
}
static void cleanup_split(char **split, size_t nb_words)
__CPROVER_assigns(g_i, g_fr, g_kf, g_list, __CPROVER_object_whole(G_r));
void free_split(char **split)
__CPROVER_assigns(g_i, g_fr, g_kf, g_list, __CPROVER_object_whole(G_r));
#include "src0.c"
void harness(void) {
    size_t nb; VX_ASSUME(nb < 0x3fffffff); g_nb = nb; char *r[nb + 1]; r[nb] = g_b; r[nb] = 0; G_r = r; g_k = nondet_size(); VX_ASSUME(g_k < nb); g_fr = 0; g_kf = g_list = 0; _Bool w = nondet_bool();
    if (w) cleanup_split(r, nb); else free_split(r);
    VX_ASSERT(g_fr == nb && g_kf == 1 && g_list == 1, "everything is released once"); if (w) VX_REACH("cleanup"); else if (nb > 3) VX_REACH("release");
}
