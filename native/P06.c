#include "nx.h"
#include <ctype.h>
#include <math.h>
const char *nx_rule(void) { return "numeric texts (limits +-1..3, signs, blanks, hex, exponents, trailing characters, random digit strings up to 25 digits, leading zeros, arbitrary texts for string options) given to int/float/string options by handler, =value, next token, short cluster, positional and environment, compared with a 128-bit reference reader / strtod; non-trivial: text with at least one digit"; }
static bool ref_int(const char *s, int64_t *out) {
    while (isspace((unsigned char)*s)) s++;
    bool neg = false; if (*s == '+' || *s == '-') neg = *s++ == '-';
    if (!isdigit((unsigned char)*s)) return false;
    __int128 v = 0; 
    for (; isdigit((unsigned char)*s); s++) { v = v * 10 + (*s - '0'); if (v > (__int128)1 << 70) v = (__int128)1 << 70; }
    if (*s) return false;
    if (neg) v = -v;
    if (v > INT64_MAX || v < INT64_MIN) return false;
    *out = (int64_t)v; return true;
}
static bool ref_float(const char *s, double *out) { char *e; *out = strtod(s, &e); return e != s && *e == 0; }
static char *text(void) {
    switch (nx_below(5)) {
        case 0: return nx_word("ab=,-\"'%\\ \t\n.:/~@#", 0, 8);
        case 1: return nx_fmt("%s%s%s", nx_word("=\"'- \t,:@~%", 0, 2), nx_word("abC0", 0, 5), nx_word("=\"'- \t\n,:%", 0, 2));
        case 2: return nx_word("ab \xc3\xa9\xff\x01\x7f", 0, 8);
        case 3: return nx_word("abcdefghij0123", 200, 1100);
        default: { char c = "\"'([{"[nx_below(5)]; return nx_fmt("%c%s%c", c, nx_word("ab ", 0, 4), c == '(' ? ')' : c == '[' ? ']' : c == '{' ? '}' : c); }
    }
}
static char *number(void) {
    switch (nx_below(14)) {
        case 12: return nx_fmt("%s%s%s", nx_chance(1, 3) ? "-" : nx_chance(1, 4) ? "+" : "", nx_word("0", 1, nx_chance(1, 8) ? 300 : 22), nx_word("0123456789", 0, 19));
        case 13: return nx_fmt("%s%s%s", nx_word(" \t\n\v\f\r", 0, 3), nx_word("0123456789", 1, 3), nx_chance(1, 3) ? nx_word(" \n\r\t%'\"", 1, 1) : "");
        case 0: { static const char *b[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967296", "2147483648", "-2147483649", "18446744073709551616", "18446744073709551615", "0", "-0", "+7"}; return nx_dup(b[nx_below(12)]); }
        case 1: return nx_word("0123456789", 1, 25);
        case 2: return nx_fmt("-%s", nx_word("0123456789", 1, 22));
        case 3: return nx_word("0123456789+- .exXaf", 0, 8);
        case 4: return nx_fmt("%s%s", nx_word("0123456789", 1, 4), nx_word(" ,.x:-ke", 1, 2));
        case 5: return nx_fmt("%s%s", nx_word(" \t", 1, 2), nx_word("0123456789", 1, 19));
        case 6: return nx_fmt("%s.%se%s", nx_word("0123456789", 0, 4), nx_word("0123456789", 0, 18), nx_word("-0123456789", 0, 3));
        case 7: return nx_fmt("0x%s", nx_word("0123456789abcdef", 0, 6));
        case 8: { static const char *b[] = {"inf", "nan", "-inf", "infinity", "1e400", "-1e400", "1e-400", "0x1p3", "1e", "1e+", ".5", "5.", ".", "-.5", "+.5e1", "4.9e-324", "1.7976931348623157e308", "0.1", "1,5", "1_000"}; return nx_dup(b[nx_below(20)]); }
        case 9: return nx_fmt("%s%s", nx_chance(1, 2) ? "-" : "", nx_fmt("92233720368547758%s", nx_word("0123456789", 2, 2)));
        case 10: return nx_dup("");
        default: return nx_fmt("%d", nx_range(-1000, 1000));
    }
}
static argus_t *A; static int AC; static char **AV; static int ST;
static void parse(void *x) { (void)x; ST = argus_parse(A, AC, AV); }
void nx_case(void) {
    nx_mute();
    int kind = (int)nx_below(3), way = (int)nx_below(7); char *t = kind == 2 && nx_chance(2, 3) ? text() : number(); nx_notestr("text ", t);
    for (char *c = t; *c; c++) if (isdigit((unsigned char)*c)) { nx_mark(); break; }
    nx_note(" kind %d way %d", kind, way);
    int64_t iv = 0; double fv = 0; bool ok = kind == 0 ? ref_int(t, &iv) : kind == 1 ? ref_float(t, &fv) : true;
    argus_option_t o = kind == 0 ? OPTION_INT('n', "num") : kind == 1 ? OPTION_FLOAT('n', "num") : OPTION_STRING('n', "num");
    if (way == 5) o = kind == 0 ? POSITIONAL_INT("num") : kind == 1 ? POSITIONAL_FLOAT("num") : POSITIONAL_STRING("num");
    uintptr_t before = nx_chance(1, 2) ? 0 : (uintptr_t)nx_rand(); o.value.raw = before;
    argus_option_t tab[2] = {o, nx_end()}; argus_t a = argus_init_no_validate(tab, "prog", "1");
    argus_value_t v; int st, ec;
    char *av[4] = {"prog", NULL, NULL, NULL}; int ac = 2;
    if (way == 6) {
        argus_option_t d = tab[0]; (void)d;
        tab[0].env_name = "NX_P06"; setenv("NX_P06", t, 1);
        ac = 1; if (!*t) { unsetenv("NX_P06"); return; }
    } else if (way == 1) av[1] = nx_fmt("--num=%s", t);
    else if (way == 2) { av[1] = "--num"; av[2] = t; ac = 3; }
    else if (way == 3) { if (!*t) return; av[1] = nx_fmt("-n%s", t); }
    else if (way == 4) { av[1] = "-n"; av[2] = t; ac = 3; }
    else if (way == 5) { av[1] = "--"; av[2] = t; ac = 3; }
    if (way == 0) { st = tab[0].handler(&a, &tab[0], t); v = tab[0].value; ec = a.error_code; }
    else { A = &a; AC = ac; AV = av; parse(0); st = ST; ec = a.error_code; v = argus_get(&a, "num"); }
    if (way == 6) unsetenv("NX_P06");
    if (!ok) {
        NX_CHECK(st != ARGUS_SUCCESS, "a text that is not a number was accepted");
        NX_CHECK(ec == st, "status %d but recorded %d", st, ec);
        NX_CHECK(tab[0].value.raw == before, "rejected text changed the value");
        NX_CHECK(!tab[0].is_set || way == 0, "rejected value marked as set");
    } else {
        NX_CHECK(st == ARGUS_SUCCESS, "rejected with status %d", st);
        if (kind == 0) NX_CHECK(v.as_int64 == iv, "stored %lld, want %lld", (long long)v.as_int64, (long long)iv);
        if (kind == 1) NX_CHECK(memcmp(&v.as_float, &fv, sizeof fv) == 0 || (isnan(fv) && isnan(v.as_float)), "stored %.17g, want %.17g", v.as_float, fv);
        if (kind == 2) NX_CHECK(v.as_string && !strcmp(v.as_string, t), "string differs");
    }
    argus_free(&a);
}
