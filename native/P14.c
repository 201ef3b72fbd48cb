#include "nx.h"
#include <ctype.h>
#include <math.h>
#include <strings.h>
const char *nx_rule(void) { return "1-20 occurrences of string/int/float/bool maps (by =value, token, cluster, or by calling the handler again and again): up to 60 parts, repeated keys, empty keys and values, values with = signs, numbers up to and over the limits, every boolean word, malformed parts; entries and order compared with a reference after every occurrence; non-trivial: a key was updated or more than 8 keys"; }
typedef struct { const char *k, *s; int64_t i; double f; bool b; } el_t;
static el_t want[4000]; static size_t nw; static int kind;
static bool ref_ll(const char *s, int64_t *out) {
    while (isspace((unsigned char)*s)) s++;
    bool neg = false; if (*s == '+' || *s == '-') neg = *s++ == '-';
    if (!*s) return false;
    __int128 v = 0;
    for (; *s; s++) { if (!isdigit((unsigned char)*s)) return false; v = v * 10 + (*s - '0'); if (v > (__int128)1 << 70) v = (__int128)1 << 70; }
    if (neg) v = -v;
    if (v > INT64_MAX || v < INT64_MIN) return false;
    *out = (int64_t)v; return true;
}
static const char *TW[] = {"1", "true", "yes", "y", "on", "0x1", "0b1"}, *FW[] = {"0", "false", "no", "n", "off", "0x0", "0b0"};
static bool ref_part(const char *p) {
    const char *e = strchr(p, '='); if (!e) return false;
    el_t n = {0}; char *k = nx_mem((size_t)(e - p) + 1); memcpy(k, p, (size_t)(e - p)); k[e - p] = 0; n.k = k; const char *v = e + 1;
    if (kind == 0) n.s = v;
    if (kind == 1 && !ref_ll(v, &n.i)) return false;
    if (kind == 2) { char *q; n.f = strtod(v, &q); if (q == v || *q) return false; }
    if (kind == 3) { int r = -1; for (int i = 0; i < 7; i++) { if (!strcasecmp(v, TW[i])) r = 1; if (!strcasecmp(v, FW[i])) r = 0; } if (r < 0) return false; n.b = r; }
    for (size_t i = 0; i < nw; i++) if (!strcmp(want[i].k, k)) { want[i] = n; nx_mark(); return true; }
    want[nw++] = n; if (nw > 8) nx_mark(); return true;
}
static char *value(void) {
    switch (kind) {
    case 0: return nx_word("ab=.-: ", 0, nx_chance(1, 10) ? nx_chance(1, 30) ? (size_t)4000 << nx_below(6) : 100 : 4);
    case 1: if (nx_chance(1, 20)) { static const char *b[] = {"9223372036854775807", "-9223372036854775808", "9223372036854775808", "4294967296", "2147483648", "-9223372036854775809", "", " ", "x", "1x", "+5", " 7", "7 ", "0x10", "1e3", "-", "--1"}; return nx_dup(b[nx_below(17)]); }
            return nx_chance(1, 6) ? nx_fmt("-%s", nx_word("0123456789", 1, 12)) : nx_word("0123456789", 1, nx_chance(1, 6) ? 18 : 4);
    case 2: return nx_chance(1, 25) ? nx_word("0.e-x", 0, 3) : nx_fmt("%s%s.%s%s", nx_chance(1, 4) ? "-" : "", nx_word("0123456789", 1, 6), nx_word("0123456789", 0, 16), nx_chance(1, 20) ? nx_word("e-0123", 1, 3) : "");
    default: { char *w = nx_dup(nx_chance(1, 2) ? TW[nx_below(7)] : FW[nx_below(7)]); for (char *c = w; *c; c++) if (nx_chance(1, 3)) *c = (char)toupper((unsigned char)*c); if (nx_chance(1, 30)) w = nx_fmt("%s%s", w, nx_word("eas0", 1, 2)); return w; }
    }
}
static bool big; /* many keys */
static char *part(void) {
    if (nx_chance(1, big ? 2000 : 60)) return nx_word("ab", 1, 3);
    return nx_fmt("%s=%s", nx_chance(1, 40) ? "" : big ? nx_word("abcdefg", 3, 6) : nx_chance(1, 4) ? nx_name(nx_chance(1, 2) ? "ab .:\t\xe9" : "abcdefg.-", 1, 6) : nx_name("abc", 1, 3), value());
}
static argus_option_t tab[3];
static void compare(argus_t *a) {
    argus_option_t *o = &tab[0];
    NX_CHECK(o->value_count == nw, "%zu entries, want %zu", o->value_count, nw);
    for (size_t i = 0; i < nw; i++) {
        argus_pair_t p = o->value.as_map[i]; NX_CHECK(p.key && !strcmp(p.key, want[i].k), "entry %zu has key '%s', want '%s'", i, p.key, want[i].k);
        if (kind == 0) NX_CHECK(p.value.as_string && !strcmp(p.value.as_string, want[i].s), "value of '%s' is '%s', want '%s'", p.key, p.value.as_string, want[i].s);
        if (kind == 1) NX_CHECK(p.value.as_int64 == want[i].i, "value of '%s' is %lld, want %lld", p.key, (long long)p.value.as_int64, (long long)want[i].i);
        if (kind == 2) NX_CHECK(!memcmp(&p.value.as_float, &want[i].f, sizeof(double)) || (isnan(p.value.as_float) && isnan(want[i].f)), "value of '%s' is %.17g, want %.17g", p.key, p.value.as_float, want[i].f);
        if (kind == 3) NX_CHECK(p.value.as_bool == want[i].b, "value of '%s' is %d", p.key, p.value.as_bool);
    }
}
void nx_case(void) {
    nx_mute(); nw = 0; kind = (int)nx_below(4); big = nx_chance(1, 60); if (big) kind = (int)nx_below(2) * 3;
    argus_option_t o = kind == 0 ? OPTION_MAP_STRING('a', "map") : kind == 1 ? OPTION_MAP_INT('a', "map") : kind == 2 ? OPTION_MAP_FLOAT('a', "map") : OPTION_MAP_BOOL('a', "map");
    tab[0] = o; tab[1] = tab[2] = nx_end(); argus_t a = argus_init_no_validate(tab, "prog", "1");
    bool direct = nx_chance(1, 2); size_t occ = 1 + nx_below(nx_chance(1, 4) ? 20 : 4); bool good = true; int ac = 0; char *av[80]; av[ac++] = "prog"; char *texts[20];
    nx_note("kind %d%s:", kind, direct ? " handler" : "");
    for (size_t i = 0; i < occ; i++) {
        size_t np = big && !i ? 120 + nx_below(200) : nx_chance(1, 3) ? 1 : 1 + nx_below(nx_chance(1, 6) ? 60 : 5); char *text = part();
        for (size_t j = 1; j < np; j++) text = nx_fmt("%s%s%s", text, nx_chance(1, 12) ? ",," : ",", part());
        if (nx_chance(1, 25)) text = nx_fmt(",%s", text);
        if (nx_chance(1, 25)) text = nx_fmt("%s,", text);
        texts[i] = text; nx_notestr(" ", text);
    }
    for (size_t i = 0; i < occ; i++) {
        char *text = texts[i]; bool was = good;
        if (good || direct) {
            bool ok = true;
            if (strchr(text, ',')) { char *c = nx_dup(text); for (char *s = c; ok && s; ) { char *k = strchr(s, ','); if (k) *k = 0; if (*s) ok = ref_part(s); s = k ? k + 1 : NULL; } }
            else ok = ref_part(text);
            good = good && ok; (void)was;
            if (direct) {
                int st = tab[0].handler(&a, &tab[0], text);
                NX_CHECK((st == ARGUS_SUCCESS) == ok, "status %d for '%s' although %s", st, text, ok ? "every part is valid" : "a part is not valid");
                compare(&a);
            }
        }
        if (nx_chance(1, 3)) { av[ac++] = "--map"; av[ac++] = text; }
        else if (!*text || nx_chance(1, 2)) av[ac++] = nx_fmt("--map=%s", text);
        else av[ac++] = nx_fmt("-a%s", text);
    }
    if (!direct) {
        if (nx_chance(1, 6)) { nx_fail_at = 1 + (long)nx_below(nx_chance(1, 2) ? 6 : 60); nx_note(" allocation %ld fails", nx_fail_at); }
        int st = argus_parse(&a, ac, av); bool oom = nx_failed; nx_alloc_reset();
        if (oom && st != ARGUS_SUCCESS) { argus_free(&a); return; }
        NX_CHECK((st == ARGUS_SUCCESS) == good, "status %d although %s", st, good ? "every part is valid" : "a part is not valid");
        if (good) { compare(&a); NX_CHECK(argus_count(&a, "map") == nw, "count %zu, want %zu", argus_count(&a, "map"), nw); }
    }
    tab[0].is_allocated = true;
    argus_free(&a);
}
