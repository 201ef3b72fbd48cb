#include "nx.h"
#include <ctype.h>
#include <math.h>
const char *nx_rule(void) { return "sequences of 1-30 occurrences of int/string/float arrays (options by =value, token, cluster, and the environment) and variadic positionals; parts: numbers up to the 64-bit limits, ranges A-B, A:B, reversed, negative, up to 600 wide and at the limits, malformed parts, empty parts; compared element by element with a reference reader; non-trivial: more elements than the initial capacity or a range"; }
static bool ref_ll(const char *s, const char *end, int64_t *out) {   /* [blank] [sign] digits, exactly up to end */
    while (s < end && isspace((unsigned char)*s)) s++;
    bool neg = false; if (s < end && (*s == '+' || *s == '-')) neg = *s++ == '-';
    if (s >= end) return false;
    __int128 v = 0;
    for (; s < end; s++) { if (!isdigit((unsigned char)*s)) return false; v = v * 10 + (*s - '0'); if (v > (__int128)1 << 70) v = (__int128)1 << 70; }
    if (neg) v = -v; 
    if (v > INT64_MAX || v < INT64_MIN) return false;
    *out = (int64_t)v; return true;
}
typedef struct { int64_t i; double f; const char *s; } el_t;
static el_t want[4000000]; static size_t nw;
static int kind; static bool var;
static bool ref_part(const char *p) {
    const char *e = p + strlen(p);
    if (kind == 1) { want[nw++].s = p; return true; }
    if (kind == 2) { char *q; double d = strtod(p, &q); if (q == p || *q) return false; want[nw++].f = d; return true; }
    if (!var) for (const char *c = p + 1; *p && *c; c++) if ((*c == '-' || *c == ':') && isdigit((unsigned char)c[-1]) && (isdigit((unsigned char)c[1]) || c[1] == '-')) {
        int64_t a, b; if (!ref_ll(p, c, &a) || !ref_ll(c + 1, e, &b)) return false;
        if (a > b) { int64_t t = a; a = b; b = t; }
        for (int64_t v = a;; v++) { want[nw++].i = v; if (v == b) break; }
        return true;
    }
    int64_t v; if (!ref_ll(p, e, &v)) return false; 
    want[nw++].i = v; return true;
}
static char *num(void) {
    if (nx_chance(1, 15)) { static const char *b[] = {"9223372036854775807", "-9223372036854775808", "9223372036854775808", "4294967296", "2147483648", "-9223372036854775809", "", " ", "x", "1x", "+5", " 7", "7 ", "0x10", "1e3", "-", "--1"}; return nx_dup(b[nx_below(17)]); }
    return nx_chance(1, 6) ? nx_fmt("-%s", nx_word("0123456789", 1, 12)) : nx_word("0123456789", 1, nx_chance(1, 6) ? 19 : 4);
}
static int wide; /* the width of one very wide range */
static char *part(void) {
    if (kind == 1) return nx_word("ab=.-: ", 0, nx_chance(1, 10) ? nx_chance(1, 30) ? (size_t)4000 << nx_below(6) : 200 : 4);
    if (kind == 2) return nx_chance(1, 3) ? num() : nx_fmt("%s%s.%s%s", nx_chance(1, 4) ? "-" : "", nx_word("0123456789", 1, 6), nx_word("0123456789", 0, 16), nx_chance(1, 6) ? nx_word("e-0123", 1, 3) : "");
    if (nx_chance(1, 4)) {
        nx_mark(); int64_t a = nx_chance(1, 8) ? (nx_chance(1, 2) ? INT64_MAX - nx_range(0, 3) : INT64_MIN + nx_range(0, 3)) : nx_range(-50, 1000); int64_t b;
        int64_t w = wide ? wide : nx_chance(1, 8) ? nx_range(0, 600) : nx_range(0, 5); wide = 0; b = a > INT64_MAX - w ? INT64_MAX : a + w;
        if (nx_chance(1, 3)) { int64_t t = a; a = b; b = t; }
        return nx_fmt("%lld%c%lld%s", (long long)a, nx_chance(1, 3) ? ':' : '-', (long long)b, nx_chance(1, 20) ? "x" : "");
    }
    return num();
}
void nx_case(void) {
    nx_mute(); nw = 0; wide = nx_chance(1, 400) ? nx_chance(1, 10) ? nx_range(1 << 20, (1 << 20) + 9) : nx_range(65000, 140000) : 0; kind = (int)nx_below(3); var = nx_chance(1, 4);
    argus_option_t o = kind == 0 ? OPTION_ARRAY_INT('a', "arr") : kind == 1 ? OPTION_ARRAY_STRING('a', "arr") : OPTION_ARRAY_FLOAT('a', "arr");
    if (var) o = kind == 0 ? POSITIONAL_MANY_INT("arr") : kind == 1 ? POSITIONAL_MANY_STRING("arr") : POSITIONAL_MANY_FLOAT("arr");
    argus_option_t tab[3] = {o, nx_end(), nx_end()}; argus_t a = argus_init_no_validate(tab, "prog", "1");
    size_t occ = 1 + nx_below(nx_chance(1, 4) ? 30 : 4); bool good = true; int ac = 0; char *av[80]; av[ac++] = "prog"; if (var) av[ac++] = "--";
    bool env = !var && nx_chance(1, 8); if (env) occ = 1;
    nx_note("kind %d%s%s:", kind, var ? " variadic" : "", env ? " env" : "");
    for (size_t i = 0; i < occ; i++) {
        char *text;
        if (var) { text = part(); if (kind != 0 && strchr(text, 0) == text) {} }
        else {
            size_t np = nx_chance(1, 3) ? 1 : 1 + nx_below(nx_chance(1, 5) ? 40 : 5); text = part();
            for (size_t j = 1; j < np; j++) text = nx_fmt("%s%s%s", text, nx_chance(1, 12) ? ",," : ",", part());
            if (nx_chance(1, 15)) text = nx_fmt(",%s", text);
            if (nx_chance(1, 15)) text = nx_fmt("%s,", text);
        }
        if (env && !*text) return;
        nx_notestr(" ", text);
        if (good) {
            if (!var && strchr(text, ',')) { char *c = nx_dup(text); for (char *s = c; good && s; ) { char *k = strchr(s, ','); if (k) *k = 0; if (*s) good = ref_part(s); s = k ? k + 1 : NULL; } }
            else good = ref_part(text);
        }
        if (env) { tab[0].env_name = "NX_P12"; setenv("NX_P12", text, 1); }
        else if (var) av[ac++] = text;
        else if (nx_chance(1, 3)) { av[ac++] = "--arr"; av[ac++] = text; }
        else if (!*text || nx_chance(1, 2)) av[ac++] = nx_fmt("--arr=%s", text);
        else av[ac++] = nx_fmt("-a%s", text);
    }
    if (nw > 8) nx_mark();
    if (nx_chance(1, 8)) { nx_fail_at = 1 + (long)nx_below(nx_chance(1, 2) ? 6 : 60); nx_note(" allocation %ld fails", nx_fail_at); }
    int st = argus_parse(&a, ac, av); unsetenv("NX_P12"); bool oom = nx_failed; nx_alloc_reset();
    if (oom && st != ARGUS_SUCCESS) { argus_free(&a); return; }
    NX_CHECK((st == ARGUS_SUCCESS) == good, "status %d although %s", st, good ? "every part is valid" : "a part is not valid");
    if (good) {
        NX_CHECK(argus_count(&a, "arr") == nw, "%zu elements, want %zu", argus_count(&a, "arr"), nw);
        for (size_t i = 0; i < nw; i++) {
            argus_value_t v = tab[0].value.as_array[i];
            if (kind == 0) NX_CHECK(v.as_int64 == want[i].i, "element %zu is %lld, want %lld", i, (long long)v.as_int64, (long long)want[i].i);
            if (kind == 1) NX_CHECK(v.as_string && !strcmp(v.as_string, want[i].s), "element %zu is '%s', want '%s'", i, v.as_string, want[i].s);
            if (kind == 2) NX_CHECK(!memcmp(&v.as_float, &want[i].f, sizeof(double)) || (isnan(v.as_float) && isnan(want[i].f)), "element %zu is %.17g, want %.17g", i, v.as_float, want[i].f);
        }
    }
    argus_free(&a);
}
