#include "nx.h"
#include "argus/internal/utils.h"
const char *nx_rule(void) { return "texts and separator sets over small alphabets (also bytes above 127, empty sets and empty texts) with every or no allocation failing; the returned parts are compared with the maximal separator-free runs of the text, allocations are counted and the source compared; non-trivial: at least two parts"; }
char **split(const char *str, const char *charset); void free_split(char **split); char *starts_with(const char *prefix, const char *str);
void nx_case(void) {
    static const char *al[] = {"a,", "ab, ", "abc,;= ", "\x80\xff,a", "=a,"}; const char *A = al[nx_below(5)]; size_t n = nx_chance(1, 30) ? nx_below(nx_thorough ? 20000 : 2000) : nx_below(14); char *t = nx_word(A, n, n); if (nx_chance(1, 400)) { /* words around 2^8 and 2^16 characters */ size_t k = nx_chance(1, 2) ? 65536 : 256, w = k + (size_t)nx_range(-2, 2) + (nx_chance(1, 3) ? k : 0), pre = nx_below(4); t = nx_mem(w + pre + 4); memset(t, 'z', w + pre + 2); for (size_t i = 0; i < pre; i++) t[i] = A[nx_below(strlen(A))]; t[pre + w] = A[nx_below(strlen(A))]; t[w + pre + 2] = 0; n = w + pre + 2; } char *c = nx_word(nx_chance(1, 2) ? ",;" : A, nx_chance(1, 12) ? 0 : 1, 3), *keep = nx_dup(t), *ck = nx_dup(c);
    if (n > 2000) nx_note("text of %zu characters, \"%.8s\"...\"%s\"", n, t, t + n - 4); else nx_notestr("text", t); nx_notestr(" separators", c); size_t nw = 0, *st = nx_mem((n + 2) * sizeof *st), *ln = nx_mem((n + 2) * sizeof *ln);
    for (size_t i = 0; i < n;) { if (memchr(c, t[i], strlen(c))) { i++; continue; } st[nw] = i; while (i < n && !memchr(c, t[i], strlen(c))) i++; ln[nw] = i - st[nw]; nw++; } if (nw > 1) nx_mark();
    long live = nx_live; nx_alloc_reset(); long f = nx_chance(1, 3) ? nx_range(1, (int)(nw > 12 ? 12 : nw) + 2) : 0; nx_fail_at = f; if (f) nx_note(" allocation %ld fails", f); char **r = split(t, c); bool failed = nx_failed; nx_fail_at = 0;
    NX_CHECK(!strcmp(t, keep) && !strcmp(c, ck), "the text or the separators were changed");
    if (failed) { NX_CHECK(!r, "a result although memory ran out"); NX_CHECK(nx_live == live, "%ld blocks kept after memory ran out", nx_live - live); }
    else { NX_CHECK(r != NULL, "no result"); for (size_t i = 0; i < nw; i++) { NX_CHECK(r[i], "%zu parts, expected %zu", i, nw); NX_CHECK(strlen(r[i]) == ln[i] && !memcmp(r[i], t + st[i], ln[i]), "part %zu is \"%s\"", i, r[i]); } NX_CHECK(!r[nw], "more than %zu parts", nw); free_split(r); NX_CHECK(nx_live == live, "%ld blocks kept after release", nx_live - live); }
    char *p = nx_word("ab", 0, 3), *s = nx_word("ab", 0, 5); char *w = starts_with(nx_chance(1, 20) ? (p = NULL) : p, nx_chance(1, 20) ? (s = NULL) : s); bool is = p && s && strlen(p) <= strlen(s) && !memcmp(p, s, strlen(p)); NX_CHECK(w == (is ? s + strlen(p) : NULL), "starts_with");
}
