//@ src utils/multi_values.c
//@ desc make_map_values_unique: an entry is removed exactly when an earlier kept entry has an equal value, kept entries are unchanged and in their order, the texts of removed entries are released once; unchanged when memory runs out
//@ enforce make_map_values_unique
//@ fn make_map_values_unique 3
//@ loop 0
//@ assigns g_i; g_w; g_marked; __CPROVER_object_whole(G_d)
//@ hyp mark({i})
//@ inv {i} <= g_n && (g_p < {i} && !G_d[g_p] && !G_d[g_q] ==> !EQ(G_m[g_p], G_m[g_q]))
//@ inv G_d[g_k] ==> (g_marked ? g_w : {i} - 1) < g_k && (g_marked || {i} >= 1) && (g_marked ? g_w : {i} - 1) < {i} && !G_d[g_marked ? g_w : {i} - 1] && EQ(G_m[g_marked ? g_w : {i} - 1], G_m[g_k])
//@ inv g_marked ==> G_d[g_k]
//@ dec g_n - {i}
//@ loop 1
//@ assigns __CPROVER_object_whole(G_d)
//@ inv g_i < {i} && {i} <= g_n && !G_d[g_i] && (g_p < g_i || (g_p == g_i && g_q < {i}) ==> G_d[g_p] || G_d[g_q] || !EQ(G_m[g_p], G_m[g_q]))
//@ inv G_d[g_k] ==> (g_marked ? g_w : g_i) < g_k && (g_marked ? g_w : g_i) <= g_i && !G_d[g_marked ? g_w : g_i] && EQ(G_m[g_marked ? g_w : g_i], G_m[g_k])
//@ inv g_marked ==> G_d[g_k]
//@ dec g_n - {i}
//@ loop 2
//@ assigns g_i; g_pos; g_posp; g_posq; g_src; g_kf; g_vf; g_ck; g_cv; __CPROVER_object_whole(G_m)
//@ hyp keep({i}, {l:size_t#0})
//@ inv {i} <= g_n && {l:size_t#0} <= {i} && ({l:size_t#0} < {i} || {i} == 0 || {l:size_t#0} == {i})
//@ inv g_k >= {i} ==> SAME(G_m[g_k], g_ok) && g_kf == 0 && g_vf == 0
//@ inv g_k < {i} && !G_d[g_k] ==> g_pos < {l:size_t#0} && SAME(G_m[g_pos], g_ok) && g_kf == 0 && g_vf == 0
//@ inv g_k < {i} && G_d[g_k] ==> g_kf == 1 && g_vf == (TEXT && g_ok.value.raw != 0)
//@ inv g_p < {i} && !G_d[g_p] ==> g_posp < {l:size_t#0}
//@ inv g_q < {i} && !G_d[g_p] && !G_d[g_q] ==> g_posp < g_posq && g_posq < {l:size_t#0}
//@ inv g_x < {l:size_t#0} ==> g_src < {i} && !G_d[g_src]
//@ dec g_n - {i}
//@ trust float values are modelled as 64-bit integers (distance 0 or at least 1); strcmp is 0 exactly within a class of texts
//@ cbmc --no-signed-overflow-check
#include "vx.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define double int64_t
#include "argus/internal/utils.h"
static argus_pair_t *G_m, g_ok; static bool *G_d; static size_t g_n, g_i, g_k, g_p, g_q, g_w, g_x, g_pos, g_posp, g_posq, g_src, g_ck, g_cv; static int g_kf, g_vf, g_df; static _Bool g_marked; static argus_valtype_t g_t;
#define CLS(p) ((uintptr_t)(p) >> 32)
#define TEXT (g_t == VALUE_TYPE_STRING || g_t == VALUE_TYPE_MAP_STRING)
#define EQ(x, y) (TEXT ? (x).value.raw != 0 && (y).value.raw != 0 && CLS((x).value.raw) == CLS((y).value.raw) : g_t == VALUE_TYPE_BOOL || g_t == VALUE_TYPE_MAP_BOOL ? (x).value.as_bool == (y).value.as_bool : g_t == VALUE_TYPE_FLOAT || g_t == VALUE_TYPE_MAP_FLOAT ? (x).value.as_float == (y).value.as_float : (x).value.as_int == (y).value.as_int)
#define SAME(x, y) ((x).key == (y).key && (x).value.raw == (y).value.raw)
static void mark(size_t i) { g_i = i; if (G_d[g_k] && !g_marked) { g_w = i - 1; g_marked = 1; } }
/* fresh working memory is not the text of an entry */
static void keep(size_t i, size_t u) { VX_ASSUME((uintptr_t)G_m[i].key != (uintptr_t)G_d && G_m[i].value.raw != (uintptr_t)G_d); g_i = i; g_ck = g_cv = 0; if (!G_d[i]) { if (i == g_k) g_pos = u; if (i == g_p) g_posp = u; if (i == g_q) g_posq = u; if (u == g_x) g_src = i; } }
int strcmp(const char *a, const char *b) { VX_ASSERT(a && b, "compares two texts"); int r = nondet_int(); VX_ASSUME((r == 0) == (CLS(a) == CLS(b))); return r; }
void *vx_calloc(size_t n, size_t s) { VX_ASSERT(n * s >= g_n, "one mark for each entry"); return G_d; }
static void vx_free(const void *p) {
    if (p == (void *)G_d) { g_df++; return; }
    VX_ASSERT(G_d[g_i], "releases only texts of removed entries");
    if ((uintptr_t)p == (uintptr_t)G_m[g_i].key && !g_ck) { g_ck = 1; if (g_i == g_k) g_kf++; return; }
    VX_ASSERT(TEXT && (uintptr_t)p == G_m[g_i].value.raw && !g_cv, "releases the value of a removed text entry once"); g_cv = 1; if (g_i == g_k) g_vf++;
}
size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t type)
__CPROVER_assigns(g_i, g_w, g_marked, g_pos, g_posp, g_posq, g_src, g_kf, g_vf, g_ck, g_cv, g_df; G_m != 0: __CPROVER_object_whole(G_m); G_d != 0: __CPROVER_object_whole(G_d));
#define fabs(d) ((d) != 0 ? 1 : 0)
#define calloc vx_calloc
#define free vx_free
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7ffff); g_n = n; argus_pair_t a[n + 1]; G_m = a; bool d[n + 1]; _Bool oom = nondet_bool(); if (oom) G_d = 0; else { G_d = d; __CPROVER_array_set(d, 0); }
    g_marked = 0; g_kf = g_vf = g_df = 0; VX_ASSUME(g_k < n && g_p < g_q && g_q < n && g_x < n); g_ok = a[g_k];
    VX_ASSUME(g_t == VALUE_TYPE_MAP_INT || g_t == VALUE_TYPE_MAP_STRING || g_t == VALUE_TYPE_MAP_FLOAT || g_t == VALUE_TYPE_MAP_BOOL);
    _Bool eq = EQ(a[g_p], a[g_q]);
    size_t r = make_map_values_unique(a, n, g_t);
    if (n <= 1 || oom) { VX_ASSERT(r == n && SAME(a[g_k], g_ok), "unchanged"); return; }
    VX_ASSERT(r <= n && g_df == 1, "working memory released");
    if (!d[g_k]) { VX_ASSERT(g_pos < r && SAME(a[g_pos], g_ok), "a kept entry is unchanged"); VX_ASSERT(g_kf == 0 && g_vf == 0, "texts of kept entries stay"); }
    else { size_t w = g_marked ? g_w : n - 1; VX_ASSERT(w < g_k && !d[w], "a removed entry has an equal earlier one that is kept"); VX_ASSERT(g_kf == 1 && g_vf == (TEXT && g_ok.value.raw != 0), "texts of a removed entry released once"); VX_REACH("removed"); }
    if (!d[g_p] && !d[g_q]) { VX_ASSERT(g_posp < g_posq && g_posq < r, "kept entries stay in order"); VX_ASSERT(!eq, "no two kept entries have equal values"); if (r < n) VX_REACH("two kept"); }
    VX_ASSERT(IMPLIES(g_x < r, g_src < n && !d[g_src]), "every remaining place holds a kept entry");
}
