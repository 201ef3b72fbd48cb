#include "nx.h"
#include "argus/internal/help.h"
const char *nx_rule(void) { return "random texts of words, spaces, line breaks and arbitrary bytes with random indentations and widths (also none, tiny and the largest), wrapped and compared with an independent greedy wrapping; non-trivial: at least two broken lines"; }
static char *T; static size_t I, W; static void go(void *p) { (void)p; print_wrapped_text(T, I, W); }
void nx_case(void) {
    static const char *al[] = {"ab ", "a  \n", "abc \n", " ", "a", "ab -\t\x80\xff%"}; const char *a = al[nx_below(6)]; T = nx_chance(1, 50) ? NULL : nx_word(a, 0, nx_chance(1, 4) ? 80 : 16); I = nx_chance(1, 5) ? 0 : nx_range(0, 40); static const size_t big[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, SIZE_MAX};
    W = nx_chance(1, 8) ? big[nx_below(9)] : I + 2 + (nx_chance(1, 9) ? 0 : nx_range(1, nx_chance(1, 4) ? 30 : 8)); if (nx_chance(1, 9)) W = nx_range(0, 30); nx_notestr("text", T); nx_note(" indent %zu width %zu", I, W);
    char *o = nx_capture_out(go, NULL); size_t w = W > I + 2 ? W - I - 2 : 1, n = T ? strlen(T) : 0, k = 0, br = 0; char *e = nx_mem((n + 2) * (I + 4) + 1); size_t m = 0;
    while (k < n) { /* one line */
        size_t end = k, sp = 0; while (end < n && end - k < w && T[end] != '\n') { if (T[end] == ' ' && end > k) sp = end; end++; }
        size_t next; if (end == n) next = n; else if (T[end] == '\n') next = end + 1; else { if (T[end] == ' ') sp = end; if (sp) { end = sp; next = sp + 1; } else next = end; }
        memcpy(e + m, T + k, end - k); m += end - k; if (end < n) { e[m++] = '\n'; br++; if (next < n) { memset(e + m, ' ', I + 2); m += I + 2; } } k = next;
    }
    e[m] = 0; if (br > 1) nx_mark(); if (strcmp(o, e)) { nx_note("\nprinted: "); nx_notestr("", o); nx_note("\nexpected: "); nx_notestr("", e); nx_fail("the wrapped text differs"); }
}
