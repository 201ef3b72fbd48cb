#include "nx.h"
#include <math.h>
const char *nx_rule(void) { return "1-6 occurrences of int/string/float arrays, variadic positionals and int/string/float/bool maps under every combination of ordering flags; 32-bit integers, floats well apart or infinite, up to 300 parts with many repetitions; compared with an occurrence-by-occurrence reference (as a multiset, in order where no sort flag is set); non-trivial: a duplicate was removed or an element moved"; }
typedef struct { const char *k, *s; int64_t i; double f; bool b; } el_t;
static el_t want[4000]; static size_t nw; static int kind; static bool sorted, uniq, skey, sval;
static int cmpv(const el_t *a, const el_t *b) {
    if (kind == 0) return (a->i > b->i) - (a->i < b->i);
    if (kind == 1) return strcmp(a->s, b->s);
    if (kind == 2) return (a->f > b->f) - (a->f < b->f);
    return a->b - b->b;
}
static void ref_unique(void) {
    size_t n = 0;
    for (size_t i = 0; i < nw; i++) { bool dup = false; for (size_t j = 0; j < n && !dup; j++) dup = cmpv(&want[j], &want[i]) == 0; if (!dup) want[n++] = want[i]; else nx_mark(); }
    nw = n;
}
static void ref_sort(bool bykey) {
    for (size_t i = 1; i < nw; i++) { el_t e = want[i]; size_t j = i; while (j > 0 && (bykey ? strcmp(want[j - 1].k, e.k) : cmpv(&want[j - 1], &e)) > 0) { want[j] = want[j - 1]; j--; nx_mark(); } want[j] = e; }
}
static char *value(el_t *e) {
    static const char *T[] = {"true", "yes", "ON", "1"}, *F[] = {"false", "no", "OFF", "0"};
    bool small = !nx_chance(1, 4);
    switch (kind) {
    case 0: e->i = small ? nx_range(-4, 6) : nx_chance(1, 6) ? (nx_chance(1, 2) ? INT32_MAX : INT32_MIN) + 0LL : nx_range(-100000, 100000); return nx_fmt("%lld", (long long)e->i);
    case 1: e->s = nx_word(small ? "ab" : "abcAB", nx_chance(1, 20) ? 0 : 1, small ? 2 : 5); if (!*e->s) e->s = nx_dup("a"); return (char *)e->s;
    case 2: if (nx_chance(1, 25)) { bool n = nx_chance(1, 2); e->f = n ? -INFINITY : INFINITY; return nx_dup(n ? "-inf" : "inf"); }
            { long q = small ? nx_range(-5, 5) : nx_range(-100000, 100000); e->f = q * 0.25; if (nx_chance(1, 12)) e->f *= 1e12; return nx_fmt("%.10g", e->f); }
    default: e->b = nx_chance(1, 2); return nx_dup((e->b ? T : F)[nx_below(4)]);
    }
}
void nx_case(void) {
    nx_mute(); nw = 0; bool map = nx_chance(1, 2), var = !map && nx_chance(1, 4); kind = (int)nx_below(map ? 4 : 3);
    sorted = uniq = skey = sval = false; uint32_t fl = 0;
    if (map) { size_t o = nx_below(3); skey = o == 1; sval = o == 2; uniq = nx_chance(1, 2); fl = (skey ? FLAG_SORTED_KEY : 0) | (sval ? FLAG_SORTED_VALUE : 0) | (uniq ? FLAG_UNIQUE_VALUE : 0); }
    else { sorted = nx_chance(1, 2); uniq = nx_chance(1, 2); fl = (sorted ? FLAG_SORTED : 0) | (uniq ? FLAG_UNIQUE : 0); }
    argus_option_t o;
    if (map) o = kind == 0 ? OPTION_MAP_INT('a', "arr", FLAGS(fl)) : kind == 1 ? OPTION_MAP_STRING('a', "arr", FLAGS(fl)) : kind == 2 ? OPTION_MAP_FLOAT('a', "arr", FLAGS(fl)) : OPTION_MAP_BOOL('a', "arr", FLAGS(fl));
    else if (var) o = kind == 0 ? POSITIONAL_MANY_INT("arr", FLAGS(fl)) : kind == 1 ? POSITIONAL_MANY_STRING("arr", FLAGS(fl)) : POSITIONAL_MANY_FLOAT("arr", FLAGS(fl));
    else o = kind == 0 ? OPTION_ARRAY_INT('a', "arr", FLAGS(fl)) : kind == 1 ? OPTION_ARRAY_STRING('a', "arr", FLAGS(fl)) : OPTION_ARRAY_FLOAT('a', "arr", FLAGS(fl));
    o.flags |= nx_marks() | (nx_chance(1, 4) ? FLAG_REQUIRED : 0); argus_option_t tab[3] = {o, nx_end(), nx_end()}; argus_t a = argus_init_no_validate(tab, "prog", "1");
    size_t occ = 1 + nx_below(var ? 40 : 6); int ac = 0; char *av[80]; av[ac++] = "prog"; if (var) av[ac++] = "--";
    nx_note("%s kind %d flags %s%s%s%s:", map ? "map" : var ? "variadic" : "array", kind, sorted ? "sorted " : "", uniq ? "unique " : "", skey ? "sorted-key " : "", sval ? "sorted-value " : "");
    for (size_t i = 0; i < occ; i++) {
        size_t np = var ? 1 : 1 + nx_below(nx_chance(1, 12) ? 300 : 8); char *text = NULL;
        for (size_t j = 0; j < np; j++) {
            el_t e = {0}; char *v = value(&e);
            if (map) { e.k = nx_name("abcd", 1, nx_chance(1, 3) ? 4 : 2); v = nx_fmt("%s=%s", e.k, v);
                size_t w = 0; while (w < nw && strcmp(want[w].k, e.k)) w++; if (w < nw) want[w] = e; else want[nw++] = e;
            } else want[nw++] = e;
            text = text ? nx_fmt("%s,%s", text, v) : v;
        }
        nx_notestr(" ", text);
        if (uniq && sorted) { ref_sort(false); ref_unique(); }
        else { if (uniq) ref_unique(); if (sorted || sval) ref_sort(false); }
        if (skey) ref_sort(true);
        av[ac++] = var ? text : nx_fmt("--arr=%s", text);
    }
    int st = argus_parse(&a, ac, av);
    NX_CHECK(st == ARGUS_SUCCESS, "status %d although every part is valid", st);
    size_t n = argus_count(&a, "arr"); NX_CHECK(n == nw, "%zu elements, want %zu", n, nw);
    static el_t got[4000]; static bool used[4000]; memset(used, 0, sizeof used);
    for (size_t i = 0; i < n; i++) {
        argus_value_t v = map ? tab[0].value.as_map[i].value : tab[0].value.as_array[i]; got[i] = (el_t){.k = map ? tab[0].value.as_map[i].key : NULL};
        if (kind == 0) got[i].i = v.as_int64; else if (kind == 1) got[i].s = v.as_string; else if (kind == 2) got[i].f = v.as_float; else got[i].b = v.as_bool;
        if (kind == 1) NX_CHECK(v.as_string, "element %zu is missing", i);
    }
    bool anysort = sorted || skey || sval;
    for (size_t i = 0; i < n; i++) {
        if (!anysort) { NX_CHECK(!cmpv(&got[i], &want[i]) && (!map || !strcmp(got[i].k, want[i].k)), "place %zu does not hold the expected element", i); continue; }
        bool f = false; for (size_t j = 0; j < n && !f; j++) if (!used[j] && !cmpv(&got[i], &want[j]) && (!map || !strcmp(got[i].k, want[j].k))) f = used[j] = true;
        NX_CHECK(f, "the element at place %zu was not given (or not so often)", i);
        if (i) NX_CHECK((skey ? strcmp(got[i - 1].k, got[i].k) : cmpv(&got[i - 1], &got[i])) <= 0, "places %zu and %zu are out of order", i - 1, i);
    }
    argus_free(&a);
}
