/* What is printed, read as lines of the text: g_pos is the next character to
 * print, g_ls the start of its line, g_q any one position of the text. */
#include "vx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
size_t g_m, g_q, g_pos, g_ls, g_w, g_in; int g_ind; const char *G_t;
static void at(size_t i) { VX_ASSUME(IMPLIES(i < g_m, G_t[i] != 0)); }
static void seg(const char *p, size_t n) {
    VX_ASSERT(g_ind == 0, "the indentation comes first"); VX_ASSERT(p == G_t + g_pos, "the next characters of the text"); VX_ASSERT(n <= g_m - g_pos && g_pos - g_ls + n <= g_w, "no more than there is and fits");
    VX_ASSERT(IMPLIES(g_q >= g_pos && g_q - g_pos < n, G_t[g_q] != '\n'), "no line end inside"); g_pos += n;
}
static void nl(void) {
    size_t e = g_pos, n = e; VX_ASSERT(g_ind == 0 && e < g_m, "a line ends only where the text goes on");
    if (G_t[e] == '\n') n = e + 1;
    else {
        VX_ASSERT(g_w < g_m - g_ls && IMPLIES(g_q >= g_ls && g_q <= g_ls + g_w, G_t[g_q] != '\n'), "broken only when the line does not fit");
        if (G_t[e] == ' ' && e > g_ls) { VX_ASSERT(IMPLIES(g_q > e && g_q <= g_ls + g_w, G_t[g_q] != ' '), "broken at the last space that fits"); n = e + 1; }
        else VX_ASSERT(e - g_ls == g_w && IMPLIES(g_q > g_ls && g_q <= e, G_t[g_q] != ' '), "inside a word only when it fills the line");
    }
    g_pos = g_ls = n; g_ind = n < g_m;
}
int putnchar(char c, size_t n) { VX_ASSERT(g_ind == 1 && c == ' ' && n == g_in + 2, "the indentation, once after a break with more to come"); g_ind = 0; return (int)n; }
static int eq(const char *f, const char *s) { return f[0] == s[0] && (!f[0] || (f[1] == s[1] && (!f[1] || (f[2] == s[2] && (!f[2] || (f[3] == s[3] && (!f[3] || (f[4] == s[4] && (!f[4] || (f[5] == s[5] && (!f[5] || (1)))))))))))); }
static int p1(const char *f) { VX_ASSERT(eq(f, "\n"), "a line end"); nl(); return 1; }
static int p2(const char *f, const char *p) { int k = eq(f, "%s\n"); VX_ASSERT(k || eq(f, "%s"), "the text as it is"); seg(p, g_m - g_pos); if (k) nl(); return 0; }
static int p3(const char *f, int n, const char *p) { if (eq(f, "%*s")) return putnchar(' ', n); int k = eq(f, "%.*s\n"); VX_ASSERT((k || eq(f, "%.*s")) && n >= 0, "part of the text as it is"); seg(p, n); if (k) nl(); return 0; }
static size_t vx_fwrite(const void *p, size_t s, size_t n) { seg(p, s * n); return n; }
static int vx_putchar(int c) { VX_ASSERT(c == '\n', "a line end"); nl(); return c; }
size_t vx_len(const char *s) { VX_ASSERT(s == G_t, "length of the text"); return g_m; }
#define strlen vx_len
#define P_SEL(a, b, c, f, ...) f
#define printf(...) P_SEL(__VA_ARGS__, p3, p2, p1)(__VA_ARGS__)
#define fwrite(p, s, n, f) vx_fwrite(p, s, n)
#define putchar(c) vx_putchar(c)
#define fputc(c, f) vx_putchar(c)
void print_wrapped_text(const char *text, size_t indent, size_t line_width)
__CPROVER_assigns(g_pos, g_ls, g_ind);
