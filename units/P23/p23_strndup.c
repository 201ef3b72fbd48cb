//@ src includes/argus/internal/cross_platform.h
//@ desc safe_strndup: a fresh text holding exactly the first n characters of s, or all of s when it is shorter; NULL when memory runs out
//@ enforce safe_strndup
//@ fn safe_strndup 1
//@ loop 0
//@ hyp at({i})
//@ inv {i} <= g_m && {i} <= {p1}
//@ dec {p1} - {i}
//@ trust malloc: a fresh block of the size asked for, or NULL; memcpy copies
#include "vx.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
size_t g_m, g_k, g_len; char g_kc, *G_b; const char *G_s; int g_zero, g_al, g_cp; _Bool g_mf;
static void at(size_t i) { VX_ASSUME(IMPLIES(i < g_m, G_s[i] != 0)); }
void *vx_alloc(size_t n) { VX_ASSERT(g_al == 0 && n == g_len + 1, "one block with room for the text and its end"); g_al = 1; return g_mf ? 0 : G_b; }
void *vx_copy(void *d, const void *s, size_t n) { VX_ASSERT(g_al && d == G_b && s == G_s && n == g_len, "copies the text"); g_cp = 1; if (g_k < n) G_b[g_k] = g_kc; return d; }
#define malloc vx_alloc
#define memcpy vx_copy
static inline char *safe_strndup(const char *s, size_t n)
__CPROVER_assigns(g_al, g_cp; G_b != 0: __CPROVER_object_whole(G_b));
#include "argus/internal/cross_platform.h"
void harness(void) {
    size_t m; VX_ASSUME(m < 0x3fffffff); g_m = m; char s[m + 1]; VX_ASSUME(s[m] == 0); G_s = s; size_t n = nondet_size(), l = nondet_size(); VX_ASSUME(l <= n && l <= m && (l == n || s[l] == 0) && (l == m || l == n)); g_len = l;
    g_k = nondet_size(); VX_ASSUME(g_k < l); g_kc = s[g_k]; char b[l + 1]; G_b = b; g_mf = nondet_bool(); g_al = g_cp = 0;
    char *r = safe_strndup(s, n);
    if (g_mf) { VX_ASSERT(r == 0, "no memory, no text"); VX_REACH("no memory"); } else { VX_ASSERT(r == G_b && g_cp && r[l] == 0 && r[g_k] == g_kc, "exactly the first n characters, ended"); if (l == n && n > 2) VX_REACH("part"); if (l < n) VX_REACH("whole"); }
}
