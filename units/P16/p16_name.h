/* The name of an option's environment variable, for whichever function computes it. */
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include <ctype.h>
char *G_p, *G_nm, *G_buf; size_t g_pl, g_nl, g_j, g_len, g_at; char g_oj; _Bool g_starts; int g_sn;
#define up(c) ((c) == '-' ? '_' : (c) >= 'a' && (c) <= 'z' ? (char)((c) - 32) : (c))
static size_t slen(const char *s) { if (s == G_p) return g_pl; if (s == G_nm) return g_nl; VX_ASSERT(s[0] == 0, "a text of the declaration or empty"); return 0; }
static char chr(const char *s, size_t i) { return s == G_p ? G_p[i] : s == G_nm ? G_nm[i] : 0; }
static int vx_sn(char *b, size_t n, const char *f, const char *x, const char *y) {
    VX_ASSERT(f[0] == '%' && f[1] == 's', "format"); int u = 0; size_t xl = slen(x), yl = 0;
    if (f[2] == 0) VX_ASSERT(y == 0, "one text"); else { u = f[2] == '_'; VX_ASSERT(f[2 + u] == '%' && f[3 + u] == 's' && f[4 + u] == 0, "format"); yl = slen(y); }
    g_len = xl + u + yl; VX_ASSERT(n > 127, "room for 127 characters"); VX_ASSUME(g_len < 128);
    __CPROVER_havoc_object(b); b[g_len] = 0; G_buf = b; g_sn++;
    if (g_j <= g_len) { if (g_j < g_len) VX_ASSUME(b[g_j] == (g_j < xl ? chr(x, g_j) : g_j < xl + u ? '_' : chr(y, g_j - xl - u))); g_oj = b[g_j]; }
    else g_oj = b[g_j];
    return (int)g_len;
}
static void at(size_t i) { g_at = i; if (i < g_len) VX_ASSUME(G_buf[i] != 0); }
#define VX_SN(b, n, f, x, y, ...) vx_sn(b, n, f, x, y)
#undef snprintf
#define snprintf(b, n, f, ...) VX_SN(b, n, f, __VA_ARGS__, 0, 0)
#undef toupper
#define toupper(c) vx_up(c)
static int vx_up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
size_t strlen(const char *s) { return slen(s); }
int strncmp(const char *a, const char *b, size_t n) { VX_ASSERT(((a == G_nm && b == G_p) || (a == G_p && b == G_nm)) && n == g_pl, "compares the declared name with the whole prefix"); return g_starts ? 0 : 1; }
static const char *NAME(argus_t *argus, NAME_CONST argus_option_t *option)
__CPROVER_assigns(G_buf, g_len, g_oj, g_sn, g_at);
#include "src0.c"
void harness(void) {
    size_t pl, nl; VX_ASSUME(pl < 128 && nl < 128 && pl + nl < 127); g_pl = pl; g_nl = nl; char P[pl + 1], N[nl + 1]; VX_ASSUME(P[pl] == 0 && N[nl] == 0); G_nm = N; g_j = nondet_size(); g_sn = 0; VX_ASSUME(g_j < 128);
    argus_t a; argus_option_t o; _Bool hp = nondet_bool(), expl = nondet_bool(); G_p = P; if (pl > 0) VX_ASSUME(P[pl - 1] != 0);
    g_starts = nondet_bool(); if (pl == 0) g_starts = 1; VX_ASSUME(IMPLIES(g_starts, nl >= pl && IMPLIES(g_j < pl, P[g_j] == N[g_j]))); if (nl > pl) VX_ASSUME(N[pl] != 0);
    a.env_prefix = hp ? &P[0] : 0; o.env_name = expl ? &N[0] : 0; _Bool nm = nondet_bool(); static char other[1]; o.name = expl ? &other[0] : nm ? &N[0] : 0; o.lname = expl || nm ? &other[0] : &N[0];
    _Bool pf = hp && pl > 0 && !(o.flags & FLAG_NO_ENV_PREFIX), aut = (o.flags & FLAG_AUTO_ENV) != 0, us = pf && P[pl - 1] != '_'; 
    const char *r = NAME(&a, &o);
    if (!expl && !aut) { VX_ASSERT(r == 0, "no variable"); VX_REACH("none"); return; }
    VX_ASSERT(r != 0, "a variable");
    _Bool add = pf && !(expl && g_starts && (!us || N[pl] == '_')); size_t h = add ? pl + us : 0, L = h + nl;
    if (g_j <= L) {
        char c = g_j == L ? 0 : g_j < h ? (g_j < pl ? P[g_j] : '_') : N[g_j - h]; if (!expl) c = up(c);
        VX_ASSERT(r[g_j] == c, "every character of the name");
    }
    if (expl && add) VX_REACH("prefixed"); if (expl && pf && !add) VX_REACH("already prefixed"); if (!expl && add) VX_REACH("automatic"); if (!expl && !pf) VX_REACH("automatic plain"); if (expl && !pf) VX_REACH("plain");
}
