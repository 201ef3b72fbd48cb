#include "argus.h"
enum { H_NUMERIC = VALUE_TYPE_ANY_NUMERIC, H_PRIMITIVE = VALUE_TYPE_PRIMITIVE, H_ARRAY = VALUE_TYPE_ARRAY, H_MAP = VALUE_TYPE_MAP, H_VARIADIC = VALUE_TYPE_VARIADIC };
#include "nx.h"
#include <math.h>
#include "argus/regex.h"
const char *nx_rule(void) { return "tables written with the public macros: every kind of option and positional declared, given a value, read and released; defaults of every type (64-bit integers, floating-point, boolean, text) read before and after a value is given; every V_ restriction with random bounds, pattern or one to twelve choices and a value beside or inside; lists of one to eight required or conflicting names; every flag; groups, subcommands with actions, the ready-made options; non-trivial: every case"; }
static argus_t A; static int ac; static char **av; static int st; static bool ex;
static void callp(void *x) { (void)x; st = argus_parse(&A, ac, av); }
static char *args[40]; static int na;
static void arg(const char *s) { args[na++] = nx_dup(s); nx_notestr(" ", s); }
static void go(argus_option_t *t) {
    const char *ver = nx_chance(1, 4) ? NULL : "1.2"; A = argus_init(t, "prog", ver); NX_CHECK(A.version == ver && A.options == t && !A.subcommand_depth && !A.error_code && !A.env_prefix && !strcmp(A.program_name, "prog"), "argus_init"); A.env_prefix = "NX29P";
    av = nx_mem((size_t)(na + 2) * sizeof *av); av[0] = nx_dup("prog"); for (int i = 0; i < na; i++) av[i + 1] = args[i]; ac = na + 1; st = -1; ex = nx_exits(callp, NULL);
}
static void done(void) { argus_free(&A); NX_CHECK(nx_live == 0, "%ld blocks are still allocated after argus_free", nx_live); }
static int64_t big(void) { static const int64_t b[] = {0, 1, -1, 127, 128, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, (int64_t)1 << 32, -((int64_t)1 << 40), INT64_MAX, INT64_MIN, 42}; return nx_chance(1, 3) ? (int64_t)nx_rand() : b[nx_below(16)]; }
static double num(void) { switch (nx_below(6)) { case 0: return 0.8; case 1: return -1.5; case 2: return 1e300; case 3: return (double)big(); case 4: return nx_range(-1000, 1000) / 8.0; default: return 0.1 * nx_range(-50, 50); } }
static void defaults(void) {
    int64_t i = big(); int n = (int)big(); double d = num(); float f = (float)(nx_range(-1000, 1000) / 16.0); bool b = nx_chance(1, 2); char *s = nx_chance(1, 6) ? NULL : nx_word("abc ", 0, 9); bool give = nx_chance(1, 4);
    argus_option_t t[] = {HELP_OPTION(), OPTION_INT('i', "int", HELP("h"), DEFAULT(i)), OPTION_INT('n', "small", HELP("h"), DEFAULT(n)), OPTION_FLOAT('d', "dbl", HELP("h"), DEFAULT(d)), OPTION_FLOAT('f', "flt", HELP("h"), DEFAULT(f)), OPTION_FLOAT('l', "lit", HELP("h"), DEFAULT(0.8)), OPTION_BOOL('b', "bool", HELP("h"), DEFAULT(b)), OPTION_STRING('s', "str", HELP("h"), DEFAULT(s)), OPTION_INT('x', "none", HELP("h")), POSITIONAL_INT("p", HELP("h"), FLAGS(FLAG_OPTIONAL), DEFAULT(i)), POSITIONAL_FLOAT("q", HELP("h"), FLAGS(FLAG_OPTIONAL), DEFAULT(d)), OPTION_END()};
    nx_note("defaults %lld %d %.17g %g %d ", (long long)i, n, d, (double)f, b); nx_notestr("", s);
    if (give) { arg("--int=5"); arg("-d"); arg("2.5"); arg("-b"); arg(b ? "no" : "yes"); arg("--str"); arg("given"); arg("7"); }
    go(t); NX_CHECK(!ex && st == 0, "parse %d", st);
    NX_CHECK(argus_get(&A, "int").as_int64 == (give ? 5 : i), "integer %lld", (long long)argus_get(&A, "int").as_int64); NX_CHECK(argus_get(&A, "small").as_int == n && argus_get(&A, "small").as_int64 == n, "int %d", argus_get(&A, "small").as_int);
    NX_CHECK(argus_get(&A, "dbl").as_float == (give ? 2.5 : d), "double %.17g", argus_get(&A, "dbl").as_float); NX_CHECK(argus_get(&A, "flt").as_float == (double)f, "float %.17g", argus_get(&A, "flt").as_float); NX_CHECK(argus_get(&A, "lit").as_float == 0.8, "literal %.17g", argus_get(&A, "lit").as_float);
    NX_CHECK(argus_get(&A, "bool").as_bool == (give ? !b : b), "boolean"); char *g = argus_get(&A, "str").as_string; if (give) NX_CHECK(g && !strcmp(g, "given"), "text"); else NX_CHECK(g == s, "text default");
    NX_CHECK(argus_get(&A, "p").as_int64 == (give ? 7 : i), "positional %lld", (long long)argus_get(&A, "p").as_int64); NX_CHECK(argus_get(&A, "q").as_float == d, "positional %.17g", argus_get(&A, "q").as_float);
    static const char *const nm[] = {"int", "small", "dbl", "flt", "lit", "bool", "str", "p", "q"}; for (int k = 0; k < 9; k++) NX_CHECK(argus_is_set(&A, nm[k]), "%s is not set", nm[k]); NX_CHECK(!argus_is_set(&A, "none") && argus_get(&A, "none").raw == 0, "an option without default is set");
    for (int k = 1; k < 11; k++) { NX_CHECK(t[k].have_default == (k != 8), "have_default"); if (k != 8) { argus_value_t w = t[k].default_value; if (k == 1 || k == 9) NX_CHECK(w.as_int64 == i, "default value"); if (k == 2) NX_CHECK(w.as_int64 == n, "default value"); if (k == 3 || k == 10) NX_CHECK(w.as_float == d, "default value"); if (k == 4) NX_CHECK(w.as_float == (double)f, "default value"); if (k == 6) NX_CHECK(w.as_bool == b, "default value"); if (k == 7) NX_CHECK(w.as_string == s, "default value"); } }
    done();
}
static void kinds(void) {
    char c = nx_chance(1, 4) ? 0 : "zqw1"[nx_below(4)]; const char *l = !c || nx_chance(2, 3) ? nx_name("opq", 1, 4) : NULL; char ref[2] = {c, 0}; const char *name = l ? l : ref; const char *h = nx_word("abc ", 1, 6); int k = nx_range(0, 18); bool pos = k >= 12; if (pos && !l) { l = "word"; name = l; }
    if (l && (!strcmp(l, "help") || !strcmp(l, "version"))) return;
    argus_option_t o; char *sn; nx_note("kind %d %c %s ", k, c ? c : '-', l ? l : "-");
    switch (k) {
    case 0: { argus_option_t x = OPTION_FLAG(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 1: { argus_option_t x = OPTION_BOOL(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 2: { argus_option_t x = OPTION_STRING(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; }
    case 3: { argus_option_t x = OPTION_INT(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 4: { argus_option_t x = OPTION_FLOAT(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; }
    case 5: { argus_option_t x = OPTION_ARRAY_STRING(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 6: { argus_option_t x = OPTION_ARRAY_INT(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 7: { argus_option_t x = OPTION_ARRAY_FLOAT(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; }
    case 8: { argus_option_t x = OPTION_MAP_STRING(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 9: { argus_option_t x = OPTION_MAP_INT(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 10: { argus_option_t x = OPTION_MAP_FLOAT(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 11: { argus_option_t x = OPTION_MAP_BOOL(c, l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; }
    case 12: { argus_option_t x = POSITIONAL_STRING(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 13: { argus_option_t x = POSITIONAL_INT(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 14: { argus_option_t x = POSITIONAL_BOOL(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 15: { argus_option_t x = POSITIONAL_FLOAT(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; }
    case 16: { argus_option_t x = POSITIONAL_MANY_STRING(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } case 17: { argus_option_t x = POSITIONAL_MANY_INT(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; } default: { argus_option_t x = POSITIONAL_MANY_FLOAT(l, HELP(h)); o = x; sn = nx_dup(x.name ? x.name : ""); break; }
    }
    if (!pos && !l) { NX_CHECK(sn[0] == c && (!c || !sn[1]), "an option without long name is known as '%s'", sn); o.name = sn; /* the literal ends with its block */ }
    static const argus_valtype_t vt[] = {VALUE_TYPE_FLAG, VALUE_TYPE_BOOL, VALUE_TYPE_STRING, VALUE_TYPE_INT, VALUE_TYPE_FLOAT, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_INT, VALUE_TYPE_MAP_FLOAT, VALUE_TYPE_MAP_BOOL, VALUE_TYPE_STRING, VALUE_TYPE_INT, VALUE_TYPE_BOOL, VALUE_TYPE_FLOAT, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_FLOAT};
    NX_CHECK(o.type == (pos ? TYPE_POSITIONAL : TYPE_OPTION) && o.value_type == vt[k] && o.help == h && o.sname == (pos ? 0 : c) && o.lname == (pos ? NULL : l) && (!l || o.name == l), "kind, type, names or help text are not the stated ones");
    NX_CHECK(!o.is_set && !o.have_default && !o.validators && !o.require && !o.conflict && !o.env_name && !o.hint && !o.action && !o.sub_options && !o.value_count && !o.value.raw && o.flags == (pos ? FLAG_REQUIRED : 0), "something is set that was not stated");
    argus_option_t t[] = {HELP_OPTION(), o, OPTION_END()}; bool absent = nx_chance(1, 6);
    if (absent) { nx_note("absent"); go(t); NX_CHECK(!ex && st == (pos ? ARGUS_ERROR_MISSING_REQUIRED : 0), "absent: %d", st); done(); return; }
    static const char *const v1[] = {NULL, "yes", "text", "9000000000", "2.25", "a,bc", "4-6,9", "1.5,-2", "k=v,m=n=o", "k=-3,m=9000000000", "k=0.5,m=2", "k=on,m=off", "text", "-9000000000", "no", "-2.25", "a,b", "12", "0.5"};
    if (!pos) { arg(l && nx_chance(1, 2) ? nx_fmt("--%s", l) : c ? nx_fmt("-%c", c) : nx_fmt("--%s", l)); if (k) arg(v1[k]); } else { if (nx_chance(1, 3)) arg("--"); else if (k == 13 || k == 15) { } arg(v1[k]); if (k >= 16) arg(k == 16 ? "" : k == 17 ? "-7" : "-1e3"); }
    go(t); NX_CHECK(!ex && st == 0, "parse %d", st); NX_CHECK(argus_is_set(&A, name), "not set"); argus_value_t v = argus_get(&A, name);
    switch (k) {
    case 0: case 1: NX_CHECK(v.as_bool, "value"); break; case 2: case 12: NX_CHECK(!strcmp(v.as_string, "text"), "value"); break; case 3: NX_CHECK(v.as_int64 == 9000000000, "value"); break; case 4: NX_CHECK(v.as_float == 2.25, "value"); break;
    case 13: NX_CHECK(v.as_int64 == -9000000000, "value"); break; case 14: NX_CHECK(!v.as_bool, "value"); break; case 15: NX_CHECK(v.as_float == -2.25, "value"); break;
    case 5: NX_CHECK(argus_count(&A, name) == 2 && !strcmp(argus_array_get(&A, name, 0).as_string, "a") && !strcmp(argus_array_get(&A, name, 1).as_string, "bc"), "elements"); break;
    case 6: NX_CHECK(argus_count(&A, name) == 4 && argus_array_get(&A, name, 0).as_int64 == 4 && argus_array_get(&A, name, 3).as_int64 == 9, "elements"); break; case 7: NX_CHECK(argus_count(&A, name) == 2 && argus_array_get(&A, name, 0).as_float == 1.5 && argus_array_get(&A, name, 1).as_float == -2, "elements"); break;
    case 8: NX_CHECK(argus_count(&A, name) == 2 && !strcmp(argus_map_get(&A, name, "k").as_string, "v") && !strcmp(argus_map_get(&A, name, "m").as_string, "n=o"), "entries"); break; case 9: NX_CHECK(argus_count(&A, name) == 2 && argus_map_get(&A, name, "k").as_int64 == -3 && argus_map_get(&A, name, "m").as_int64 == 9000000000, "entries"); break;
    case 10: NX_CHECK(argus_count(&A, name) == 2 && argus_map_get(&A, name, "k").as_float == 0.5 && argus_map_get(&A, name, "m").as_float == 2, "entries"); break; case 11: NX_CHECK(argus_count(&A, name) == 2 && argus_map_get(&A, name, "k").as_bool && !argus_map_get(&A, name, "m").as_bool, "entries"); break;
    case 16: NX_CHECK(argus_count(&A, name) == 2 && !strcmp(argus_array_get(&A, name, 0).as_string, "a,b") && !*argus_array_get(&A, name, 1).as_string, "elements"); break; case 17: NX_CHECK(argus_count(&A, name) == 2 && argus_array_get(&A, name, 0).as_int64 == 12 && argus_array_get(&A, name, 1).as_int64 == -7, "elements"); break;
    default: NX_CHECK(argus_count(&A, name) == 2 && argus_array_get(&A, name, 0).as_float == 0.5 && argus_array_get(&A, name, 1).as_float == -1000, "elements");
    }
    done();
}
static int own_check(argus_t *a, void *p, validator_data_t d) { (void)a; (void)p; return (int)d.custom; }
static int own_handler(argus_t *a, argus_option_t *o, char *v) { (void)a; o->value.as_string = v ? v + 1 : NULL; return ARGUS_SUCCESS; }
static int freed; static int own_free(argus_option_t *o) { (void)o; freed++; return ARGUS_SUCCESS; }
static void fin(bool ok) { NX_CHECK(!ex && (st == 0) == ok, ok ? "a value that is allowed is refused with %d" : "a value that is not allowed is accepted (%d)", st); done(); }
#define TN(x) x, (x) + 1, (x) + 2, (x) + 3, (x) + 4, (x) + 5, (x) + 6, (x) + 7, (x) + 8, (x) + 9
#define HN(x) TN(x), TN((x) + 10), TN((x) + 20), TN((x) + 30), TN((x) + 40), TN((x) + 50), TN((x) + 60), TN((x) + 70), TN((x) + 80), TN((x) + 90)
#define TS(x) x "0", x "1", x "2", x "3", x "4", x "5", x "6", x "7", x "8", x "9"
#define HS(x) TS(x "0"), TS(x "1"), TS(x "2"), TS(x "3"), TS(x "4"), TS(x "5"), TS(x "6"), TS(x "7"), TS(x "8"), TS(x "9")
static void restrictions(void) {
    int64_t lo = nx_chance(1, 2) ? nx_range(-9, 9) : big(), hi = nx_chance(1, 2) ? nx_range(-9, 20) : big(); if (lo > hi) { int64_t x = lo; lo = hi; hi = x; } int64_t v = nx_chance(1, 2) ? lo : hi; int dd = nx_range(-1, 1); if ((dd > 0 && v < INT64_MAX) || (dd < 0 && v > INT64_MIN)) v += dd;
    int k = nx_range(0, 11); bool ok; char *c[12]; int64_t ci[12]; double cf[12]; for (int j = 0; j < 12; j++) { c[j] = nx_name("abc", 1, 3); ci[j] = big(); cf[j] = num(); } int which = nx_range(0, 14); nx_note("restriction %d [%lld,%lld] %lld #%d", k, (long long)lo, (long long)hi, (long long)v, which);
    int ls = nx_range(0, 4), hs = nx_range(0, 6); if (ls > hs) { int x = ls; ls = hs; hs = x; } char *text = nx_word("abc", 0, 8), *list = nx_fmt("1%s", nx_word(",", 0, 0)); int cnt = nx_range(1, 8); for (int j = 1; j < cnt; j++) list = nx_fmt("%s,%d", list, j);
    switch (k) {
    case 0: { ok = lo <= v && v <= hi; argus_option_t t[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_RANGE(lo, hi))), OPTION_END()}; arg(nx_fmt("--x=%lld", (long long)v)); go(t); fin(ok); break; }
    case 1: { ok = (int)strlen(text) >= ls && (int)strlen(text) <= hs; argus_option_t t[] = {HELP_OPTION(), OPTION_STRING('x', "x", HELP("h"), VALIDATOR(V_LENGTH(ls, hs))), OPTION_END()}; arg(nx_fmt("--x=%s", text)); nx_note("length %d..%d", ls, hs); go(t); fin(ok); break; }
    case 2: { ok = cnt >= ls && cnt <= hs; argus_option_t t[] = {HELP_OPTION(), OPTION_ARRAY_INT('x', "x", HELP("h"), VALIDATOR(V_COUNT(ls, hs))), OPTION_END()}; arg(nx_fmt("--x=%s", list)); nx_note("count %d..%d", ls, hs); go(t); fin(ok); break; }
    case 3: { ok = strchr(text, 'b') != NULL; argus_option_t t[] = {HELP_OPTION(), OPTION_STRING('x', "x", HELP("h"), VALIDATOR(V_REGEX(MAKE_REGEX("b", "has b")))), OPTION_END()}; arg(nx_fmt("--x=%s", text)); go(t); fin(ok); break; }
    case 4: { char *w = which < 12 ? c[which] : which == 12 ? nx_name("abc", 1, 3) : nx_fmt("%s%s", c[11], which == 13 ? "z" : ""); int n = nx_chance(1, 4) ? 1 : nx_chance(1, 2) ? 12 : 3; ok = false; for (int j = 0; j < n; j++) ok |= !strcmp(w, c[j]);
        argus_option_t t1[] = {HELP_OPTION(), OPTION_STRING('x', "x", HELP("h"), VALIDATOR(V_CHOICE_STR(c[0]))), OPTION_END()}, t3[] = {HELP_OPTION(), OPTION_STRING('x', "x", HELP("h"), VALIDATOR(V_CHOICE_STR(c[0], c[1], c[2]))), OPTION_END()}, tn[] = {HELP_OPTION(), OPTION_STRING('x', "x", HELP("h"), VALIDATOR(V_CHOICE_STR(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11]))), OPTION_END()};
        for (int j = 0; j < n; j++) nx_note("%s|", c[j]);
        arg(nx_fmt("--x=%s", w)); go(n == 1 ? t1 : n == 3 ? t3 : tn); fin(ok); break; }
    case 5: { int64_t w = which < 12 ? ci[which] : which == 12 ? big() : which == 13 ? (int64_t)(int32_t)ci[0] : ci[11] ^ ((int64_t)1 << 33); int n = nx_chance(1, 4) ? 1 : nx_chance(1, 2) ? 12 : 3; ok = false; for (int j = 0; j < n; j++) ok |= w == ci[j];
        argus_option_t t1[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_INT(ci[0]))), OPTION_END()}, t3[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_INT(ci[0], ci[1], ci[2]))), OPTION_END()}, tn[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_INT(ci[0], ci[1], ci[2], ci[3], ci[4], ci[5], ci[6], ci[7], ci[8], ci[9], ci[10], ci[11]))), OPTION_END()};
        for (int j = 0; j < n; j++) nx_note("%lld|", (long long)ci[j]);
        arg(nx_fmt("--x=%lld", (long long)w)); go(n == 1 ? t1 : n == 3 ? t3 : tn); fin(ok); break; }
    case 6: { double w = which < 12 ? cf[which] : 12345.5; int n = nx_chance(1, 4) ? 1 : nx_chance(1, 2) ? 12 : 3; ok = false; bool near = false; for (int j = 0; j < n; j++) { ok |= w == cf[j]; near |= w != cf[j] && fabs(w - cf[j]) < 1e-3; } if (near) return;
        argus_option_t t1[] = {HELP_OPTION(), OPTION_FLOAT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(cf[0]))), OPTION_END()}, t3[] = {HELP_OPTION(), OPTION_FLOAT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(cf[0], cf[1], cf[2]))), OPTION_END()}, tn[] = {HELP_OPTION(), OPTION_FLOAT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(cf[0], cf[1], cf[2], cf[3], cf[4], cf[5], cf[6], cf[7], cf[8], cf[9], cf[10], cf[11]))), OPTION_END()};
        for (int j = 0; j < n; j++) nx_note("%.17g|", cf[j]);
        arg(nx_fmt("--x=%.17g", w)); go(n == 1 ? t1 : n == 3 ? t3 : tn); fin(ok); break; }
    case 7: { int r = nx_chance(1, 2) ? 0 : ARGUS_ERROR_INVALID_FORMAT, r2 = nx_chance(1, 2) ? 0 : ARGUS_ERROR_INVALID_VALUE; ok = !r && !r2; argus_option_t t[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(MAKE_VALIDATOR(own_check, NULL, _V_DATA_CUSTOM_(r), ORDER_PRE), MAKE_VALIDATOR(own_check, NULL, _V_DATA_CUSTOM_(r2), ORDER_POST))), OPTION_END()};
        arg("--x=3"); go(t); NX_CHECK(st == (r ? r : r2), "own checks give %d and %d, the parse %d", r, r2, st); fin(ok); break; }
    case 8: { int w = nx_range(-1, 22); ok = w >= 0 && w < 20; argus_option_t t[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_INT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19))), OPTION_STRING('s', "s", HELP("h"), VALIDATOR(V_CHOICE_STR("0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19"))), OPTION_FLOAT('f', "f", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19))), OPTION_END()}; arg(nx_fmt("--%c=%d", "xsf"[nx_below(3)], w)); go(t); fin(ok); break; }
    case 9: { int w = nx_range(0, 9); ok = w >= 5; argus_option_t t1[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_RANGE(0, 9), V_RANGE(1, 9), V_RANGE(2, 9), V_RANGE(3, 9), V_RANGE(4, 9), V_RANGE(5, 9))), OPTION_END()}, t4[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_RANGE(0, 9), V_RANGE(1, 9), V_RANGE(2, 9), V_RANGE(5, 9))), OPTION_END()}; arg(nx_fmt("--x=%d", w)); go(nx_chance(1, 2) ? t1 : t4); fin(ok); break; }
    case 10: { int w = nx_range(98, 402); ok = w >= 100 && w < 400; argus_option_t t[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_CHOICE_INT(HN(100), HN(200), HN(300)))), OPTION_FLOAT('f', "f", HELP("h"), VALIDATOR(V_CHOICE_FLOAT(HN(100), HN(200), HN(300)))), OPTION_STRING('s', "s", HELP("h"), VALIDATOR(V_CHOICE_STR(HS("1"), HS("2"), HS("3")))), OPTION_END()}; arg(nx_fmt("--%c=%d", "xsf"[nx_below(3)], w)); go(t); fin(ok); break; }
    default: { ok = lo <= v && v <= hi && v >= 3 && v <= 40; argus_option_t t[] = {HELP_OPTION(), OPTION_INT('x', "x", HELP("h"), VALIDATOR(V_RANGE(lo, hi), V_RANGE(3, 40))), OPTION_END()}; arg(nx_fmt("--x=%lld", (long long)v)); go(t); fin(ok); }
    }
}
static void lists(void) {
    char *nm[8]; for (int j = 0; j < 8; j++) nm[j] = nx_fmt("o%d", j); bool req = nx_chance(1, 2), own = nx_chance(1, 4); int n = nx_chance(1, 3) ? 1 : nx_chance(1, 2) ? 3 : 8; unsigned set = nx_chance(1, 2) ? (req ? 255u & ~(1u << nx_below(8)) : 1u << nx_below(8)) : nx_chance(1, 2) ? (req ? 255 : 0) : (unsigned)nx_below(256);
    nx_note("%s %d names set %x", req ? "require" : "conflict", n, set);
#define FL(j) OPTION_FLAG((char)('0' + j), nm[j], HELP("h"))
#define T(x) argus_option_t x[] = {HELP_OPTION(), FL(0), FL(1), FL(2), FL(3), FL(4), FL(5), FL(6), FL(7)
    T(r1), OPTION_FLAG('z', "z", HELP("h"), REQUIRE(nm[0])), OPTION_END()}; T(r3), OPTION_FLAG('z', "z", HELP("h"), REQUIRE(nm[0], nm[1], nm[2])), OPTION_END()}; T(r8), OPTION_FLAG('z', "z", HELP("h"), REQUIRE(nm[0], nm[1], nm[2], nm[3], nm[4], nm[5], nm[6], nm[7])), OPTION_END()};
    T(c1), OPTION_FLAG('z', "z", HELP("h"), CONFLICT(nm[0])), OPTION_END()}; T(c3), OPTION_FLAG('z', "z", HELP("h"), CONFLICT(nm[0], nm[1], nm[2])), OPTION_END()}; T(c8), OPTION_FLAG('z', "z", HELP("h"), CONFLICT(nm[0], nm[1], nm[2], nm[3], nm[4], nm[5], nm[6], nm[7])), OPTION_END()};
    T(pl), OPTION_FLAG('z', "z", HELP("h")), OPTION_END()};
    for (int j = 0; j < 8; j++) if (set >> j & 1) arg(nx_fmt("--o%d", j));
    arg("-z"); unsigned m = n == 8 ? 255 : n == 3 ? 7 : 1; int want = own ? 0 : req ? (set & m) == m ? 0 : ARGUS_ERROR_MISSING_REQUIRED : set & m ? ARGUS_ERROR_CONFLICTING_OPTIONS : 0;
    go(own ? pl : req ? n == 1 ? r1 : n == 3 ? r3 : r8 : n == 1 ? c1 : n == 3 ? c3 : c8); NX_CHECK(!ex && (st == 0) == (want == 0), "%d, expected %d", st, want); done();
}
static int ran; static void *rd; static int act(argus_t *a, void *d) { (void)a; ran++; rd = d; return 7; }
static void get_out(void *p) { (void)p; ex = nx_exits(callp, NULL); }
static void flags(void) {
    static const unsigned fl[] = {FLAG_REQUIRED, FLAG_HIDDEN, FLAG_ADVANCED, FLAG_DEPRECATED, FLAG_EXPERIMENTAL, FLAG_EXIT, FLAG_ENV_OVERRIDE, FLAG_AUTO_ENV, FLAG_NO_ENV_PREFIX, FLAG_SORTED, FLAG_UNIQUE, FLAG_SORTED_VALUE, FLAG_SORTED_KEY, FLAG_UNIQUE_VALUE, FLAG_EXCLUSIVE};
    for (int i = 0; i < 15; i++) { NX_CHECK(fl[i] && !(fl[i] & (fl[i] - 1)), "flag %d is not one bit", i); for (int j = 0; j < i; j++) NX_CHECK(!(fl[i] & fl[j]), "flags %d and %d share a bit", i, j); }
    NX_CHECK(!FLAG_NONE && !FLAG_OPTIONAL, "no flag");
    static const unsigned vt[] = {VALUE_TYPE_INT, VALUE_TYPE_STRING, VALUE_TYPE_FLOAT, VALUE_TYPE_BOOL, VALUE_TYPE_FLAG, VALUE_TYPE_ARRAY_STRING, VALUE_TYPE_ARRAY_INT, VALUE_TYPE_ARRAY_FLOAT, VALUE_TYPE_MAP_STRING, VALUE_TYPE_MAP_INT, VALUE_TYPE_MAP_FLOAT, VALUE_TYPE_MAP_BOOL, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_FLOAT, VALUE_TYPE_CUSTOM};
    for (int i = 0; i < 16; i++) { NX_CHECK(vt[i] && !(vt[i] & (vt[i] - 1)), "type %d is not one bit", i); for (int j = 0; j < i; j++) NX_CHECK(!(vt[i] & vt[j]), "types %d and %d share a bit", i, j);
        NX_CHECK(!!(vt[i] & H_ARRAY) == (i >= 5 && i < 8) && !!(vt[i] & H_MAP) == (i >= 8 && i < 12) && !!(vt[i] & H_VARIADIC) == (i >= 12 && i < 15) && !!(vt[i] & H_PRIMITIVE) == (i < 4) && !!(vt[i] & H_NUMERIC) == (i == 0 || i == 2), "family of type %d", i); }
    unsigned f = nx_chance(1, 2) ? FLAG_EXIT : nx_chance(1, 2) ? FLAG_REQUIRED : nx_chance(1, 2) ? FLAG_SORTED : FLAG_UNIQUE; bool given = nx_chance(3, 4), e1 = nx_chance(1, 2), own = nx_chance(1, 2); nx_note("flags %x%s env %d own %d", f, given ? "" : " absent", e1, own); freed = 0;
    argus_option_t t[] = {HELP_OPTION(), OPTION_ARRAY_INT('x', "xx", HELP("h"), FLAGS(f)), OPTION_STRING('e', "ee", HELP("h"), ENV_VAR("EV")), OPTION_STRING('o', "own", HELP("h"), HANDLER(own_handler), FREE_HANDLER(own_free)), GROUP_START("G", FLAGS(FLAG_EXCLUSIVE)), OPTION_FLAG('p', "pp", HELP("h")), OPTION_FLAG('q', "qq", HELP("h")), GROUP_END(), OPTION_FLAG('r', "rr", HELP("h")), POSITIONAL_STRING("w", HELP("h"), FLAGS(FLAG_OPTIONAL)), OPTION_END()};
    NX_CHECK(t[4].type == TYPE_GROUP && t[4].name && !strcmp(t[4].name, "G") && t[7].type == TYPE_GROUP && !t[7].name, "groups");
    if (given) arg("--xx=3,1,3"); if (own) arg("--own=_value"); unsigned pq = (unsigned)nx_below(8); if (pq & 1) arg("-p"); if (pq & 2) arg("-q"); if (pq & 4) arg("-r");
    if (e1) setenv("NX29P_EV", "from env", 1); else unsetenv("NX29P_EV"); go(t); unsetenv("NX29P_EV");
    if (given && f == FLAG_EXIT) { NX_CHECK(ex && nx_exit_code == 0, "an exit option does not exit"); NX_CHECK(nx_live == 0, "memory left at exit"); return; }
    int want = (pq & 3) == 3 ? ARGUS_ERROR_EXCLUSIVE_GROUP : 0; if (!given && f == FLAG_REQUIRED) want = want ? -2 : ARGUS_ERROR_MISSING_REQUIRED;
    NX_CHECK(!ex && (want == -2 ? st != 0 : st == want), "%d, expected %d", st, want); if (st) { done(); return; }
    if (given) { size_t n = argus_count(&A, "xx"); NX_CHECK(n == (f == FLAG_UNIQUE ? 2 : 3), "%zu elements", n); NX_CHECK(argus_array_get(&A, "xx", 0).as_int64 == (f == FLAG_SORTED ? 1 : 3), "order"); }
    NX_CHECK(argus_is_set(&A, "ee") == e1 && (!e1 || !strcmp(argus_get(&A, "ee").as_string, "from env")), "variable"); NX_CHECK(!own || (argus_get(&A, "own").as_string && !strcmp(argus_get(&A, "own").as_string, "value")), "own handler"); NX_CHECK(!argus_is_set(&A, "w"), "an optional positional"); done();
}
static void commands(void) {
    argus_option_t s2[] = {HELP_OPTION(), OPTION_INT('n', "num", HELP("h"), DEFAULT(5)), OPTION_END()}, s1[] = {HELP_OPTION(), SUBCOMMAND("inner", s2, HELP("in"), ACTION(act)), SUBCOMMAND("plain", s2, HELP("pl")), OPTION_END()}, t[] = {HELP_OPTION(), VERSION_OPTION(), SUBCOMMAND("outer", s1, HELP("out")), SUBCOMMAND("last", s2, HELP("la"), ACTION(act), FLAGS(FLAG_HIDDEN)), OPTION_END()};
    NX_CHECK(t[0].flags == FLAG_EXIT && t[1].flags == FLAG_EXIT && t[0].help && t[1].help, "the ready-made options are exit options and nothing else");
    int k = nx_range(0, 7); ran = 0; char *out; static int data; nx_note("commands %d", k);
    if (k < 4) { arg(k == 0 ? "-h" : k == 1 ? "--help" : k == 2 ? "-V" : "--version"); arg("--unknown"); A = argus_init(t, "prog", "1.2-nx"); av = nx_mem(4 * sizeof *av); av[0] = nx_dup("prog"); av[1] = args[0]; av[2] = args[1]; ac = 3; ex = false; out = nx_capture_out(get_out, NULL); NX_CHECK(ex && nx_exit_code == 0, "the ready-made option does not end the program with 0 (status %d)", st); NX_CHECK(k < 2 ? strstr(out, "outer") && strstr(out, "--help") && strstr(out, "--version") && !strstr(out, "last") : strstr(out, "1.2-nx") && strstr(out, "prog"), "it prints '%.80s'", out); NX_CHECK(nx_live == 0, "memory left"); return; }
    if (k == 4) { arg("outer"); arg("inner"); arg("-n"); arg("9"); } else if (k == 5) arg("last"); else if (k == 6) { arg("outer"); arg("plain"); } else { arg("outer"); arg("inner"); }
    go(t); NX_CHECK(!ex && st == 0, "parse %d", st); NX_CHECK(argus_has_command(&A) && argus_get(&A, "num").as_int64 == (k == 4 ? 9 : 5), "the table of the command");
    if (k != 6) { int r = argus_exec(&A, &data); NX_CHECK(r == 7 && ran == 1 && rd == &data, "the stated action: %d, ran %d", r, ran); } else NX_CHECK(A.subcommand_depth == 2 && !A.subcommand_stack[1]->action, "an action that was not stated");
    done();
}
void nx_case(void) {
    nx_mute(); nx_alloc_reset(); na = 0; nx_mark(); setenv("NO_COLOR", "1", 1);
    switch (nx_below(6)) { case 0: defaults(); break; case 1: kinds(); break; case 2: restrictions(); break; case 3: lists(); break; case 4: flags(); break; default: commands(); }
}
