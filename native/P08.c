#include "nx.h"
#include <math.h>
const char *nx_rule(void) { return "ranges with bounds from {limits of 32/64 bit, +-2^53, small} and values at, next to and 2^32 away from the bounds, ints and doubles, by the check itself and end to end, compared with 128-bit / double comparison; non-trivial: value within 2 of a bound or a multiple of 2^32 away"; }
static int64_t bound(void) {
    static const int64_t b[] = {INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX, 0, 1, -1, 10, 100, 1000, -1000, (int64_t)1 << 32, (int64_t)1 << 53, -((int64_t)1 << 53), 65535, 127};
    int64_t v = b[nx_below(16)]; int d = nx_range(-2, 2);
    if ((d > 0 && v > INT64_MAX - d) || (d < 0 && v < INT64_MIN - d)) return v;
    return v + d;
}
void nx_case(void) {
    nx_mute();
    int64_t lo = bound(), hi = bound(); if (lo > hi && nx_chance(3, 4)) { int64_t t = lo; lo = hi; hi = t; }
    bool fl = nx_chance(1, 2), e2e = nx_chance(1, 2);
    __int128 c = nx_chance(1, 2) ? lo : hi; c += nx_range(-2, 2); if (nx_chance(1, 4)) c += (__int128)nx_range(-3, 3) * ((__int128)1 << 32); if (nx_chance(1, 4)) c = bound();
    if (c > INT64_MAX) c = INT64_MAX; 
    if (c < INT64_MIN) c = INT64_MIN;
    int64_t v = (int64_t)c; double d = (double)v;
    if (fl) switch (nx_below(6)) { case 0: d = nextafter(d, INFINITY); break; case 1: d = nextafter(d, -INFINITY); break; case 2: d = d + 0.5; break; case 3: d = NAN; break; case 4: d = nx_chance(1, 2) ? INFINITY : -INFINITY; break; default: break; }
    nx_note("[%lld,%lld] %s %lld %.17g %s", (long long)lo, (long long)hi, fl ? "float" : "int", (long long)v, d, e2e ? "parse" : "check"); nx_mark();
    bool in = lo <= hi && (fl ? (double)lo <= d && d <= (double)hi : lo <= v && v <= hi);
    argus_option_t o = fl ? OPTION_FLOAT('r', "r") : OPTION_INT('r', "r");
    validator_entry_t e = {.func = range_validator, .formatter = format_range_validator, .order = ORDER_POST, .data.range = {lo, hi}}; if (nx_chance(1, 2)) e = *V_RANGE(lo, hi); validator_entry_t *vs[2] = {&e, NULL};
    o.validators = vs; o.flags |= nx_marks(); if (nx_chance(1, 6)) o.flags |= (nx_chance(1, 2) ? FLAG_AUTO_ENV : 0) | (nx_chance(1, 2) ? FLAG_ENV_OVERRIDE : 0) | (nx_chance(1, 2) ? FLAG_NO_ENV_PREFIX : 0);
    argus_option_t tab[2] = {o, nx_end()}; argus_t a = argus_init_no_validate(tab, "prog", "1"); int st;
    if (e2e) {
        char *av[2] = {"prog", fl ? nx_fmt("--r=%.17g", d) : nx_fmt("--r=%lld", (long long)v)};
        st = argus_parse(&a, 2, av);
    } else {
        if (fl) tab[0].value.as_float = d; else tab[0].value.as_int64 = v;
        argus_option_t was = tab[0];
        st = range_validator(&a, &tab[0], e.data);
        NX_CHECK(!memcmp(&was, &tab[0], sizeof was), "the check changed the option");
    }
    if (in) NX_CHECK(st == ARGUS_SUCCESS, "a value inside the range is rejected with %d", st);
    else NX_CHECK(st == ARGUS_ERROR_INVALID_RANGE && a.error_code == st, "a value outside the range gives %d (recorded %d)", st, a.error_code);
    argus_free(&a);
}
