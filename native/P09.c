#include "nx.h"
#include <math.h>
const char *nx_rule(void) { return "length bounds (negative, inverted, limits) on texts of 0-600 characters or NULL, count bounds on arrays end to end and on large counts, choice lists of 0-300 strings, ints (also 2^32 apart), floats, compared with the stated rule; non-trivial: at least 2 choices or a consistent bound"; }
static int64_t b0(int64_t near) {
    switch (nx_below(8)) { case 0: return -1; case 1: return INT64_MAX; case 2: return INT64_MIN; case 3: return 0; case 4: return near + ((int64_t)1 << 32); default: return near + nx_range(-2, 2); }
}
static argus_option_t tab[3];
static char *nx_edge(void) { size_t n = (nx_chance(2, 3) ? 65536 : 256) * (1 + nx_below(2)) + nx_below(9) - nx_below(3); return nx_word("ab", n, n); }
static argus_t mk(argus_option_t o, validator_entry_t *e, validator_entry_t **vs) {
    vs[0] = e; vs[1] = NULL; o.validators = vs; tab[0] = o; tab[1] = nx_end();
    return argus_init_no_validate(tab, "prog", "1");
}
void nx_case(void) {
    nx_mute();
    validator_entry_t e = {.order = ORDER_POST}, *vs[2]; argus_t a; int st; argus_option_t was; bool in;
    int kind = (int)nx_below(5), bad = ARGUS_ERROR_INVALID_RANGE; bool e2e = nx_chance(1, 2); nx_note("kind %d e2e %d ", kind, e2e);
    if (kind == 0) {
        char *t = nx_chance(1, 10) ? NULL : nx_chance(1, 25) ? nx_edge() : nx_word("ab", 0, nx_chance(1, 5) ? 600 : 6); int64_t n = t ? (int64_t)strlen(t) : 0;
        e.func = length_validator; e.formatter = format_length_validator; e.data.range.min = b0(n); e.data.range.max = nx_chance(1, 3) ? e.data.range.min : b0(n);
        int64_t lo = e.data.range.min, hi = e.data.range.max; if (nx_chance(1, 2)) e = *V_LENGTH(lo, hi); in = t && lo >= 0 && hi >= 0 && lo <= n && n <= hi; if (lo >= 0 && lo <= hi) nx_mark();
        nx_note("len %lld in [%lld,%lld]", t ? (long long)n : -1, (long long)lo, (long long)hi);
        a = mk(OPTION_STRING('x', "x"), &e, vs);
        if (t && e2e) { char *av[2] = {"prog", nx_fmt("--x=%s", t)}; st = argus_parse(&a, 2, av); }
        else { tab[0].value.as_string = t; was = tab[0]; st = e.func(&a, &tab[0], e.data); NX_CHECK(!memcmp(&was, &tab[0], sizeof was), "the check changed the option"); }
        if (!t) bad = ARGUS_ERROR_INVALID_VALUE;
    } else if (kind == 1) {
        size_t n = nx_below(20) + 1; if (!e2e) n = nx_chance(1, 3) ? nx_chance(1, 3) ? 0 : nx_below(10) : nx_chance(1, 2) ? ((size_t)1 << 32) + nx_below(4) : ((size_t)1 << 31) + nx_below(3);
        e.func = count_validator; e.formatter = format_count_validator; e.data.range.min = b0((int64_t)n); e.data.range.max = nx_chance(1, 3) ? e.data.range.min : b0((int64_t)n);
        int64_t lo = e.data.range.min, hi = e.data.range.max; if (nx_chance(1, 2)) e = *V_COUNT(lo, hi); in = lo >= 0 && hi >= 0 && lo <= (int64_t)n && (int64_t)n <= hi; if (lo >= 0 && lo <= hi) nx_mark();
        nx_note("count %zu in [%lld,%lld]", n, (long long)lo, (long long)hi);
        a = mk(OPTION_ARRAY_INT('x', "x"), &e, vs);
        if (e2e) { char *t = nx_mem(n * 4 + 16); strcpy(t, "--x=1"); for (size_t i = 1; i < n; i++) strcat(t, ",7"); char *av[2] = {"prog", t}; st = argus_parse(&a, 2, av); }
        else { tab[0].value_count = n; tab[0].is_set = nx_chance(1, 2); tab[0].flags |= nx_marks(); was = tab[0]; st = e.func(&a, &tab[0], e.data); NX_CHECK(!memcmp(&was, &tab[0], sizeof was), "the check changed the option"); tab[0].value_count = 0; }
    } else {
        size_t n = nx_chance(1, 6) ? nx_below(300) : nx_chance(1, 10) ? 20 : nx_below(6); if (n >= 2) nx_mark(); in = false; bad = ARGUS_ERROR_INVALID_CHOICE;
        e.formatter = format_choices_validator; e.data.choices.count = n; nx_note("%zu choices ", n);
        if (kind == 2) {
            char **c = nx_mem((n + 1) * sizeof *c); e.data.choices.as_strings = c; e.data.choices.type = VALUE_TYPE_STRING; e.func = choices_string_validator;
            char *v = nx_chance(1, 12) ? NULL : nx_word("abA", 0, 3); if (!v) e2e = false; nx_notestr("value ", v);
            for (size_t i = 0; i < n; i++) { c[i] = n > 10 ? nx_word("abA", 3, 6) : nx_word("abA", 0, 3); nx_notestr("", c[i]); if (v && !strcmp(c[i], v)) in = true; }
            if (v && n && nx_chance(1, 3)) { c[nx_below(n)] = nx_dup(v); in = true; }
            if (nx_chance(1, 2)) { if (n == 1) { validator_entry_t *m = V_CHOICE_STR(c[0]); char * *l = nx_mem(1 * sizeof *l); memcpy(l, m->data.choices.as_strings, 1 * sizeof *l); e = *m; e.data.choices.as_strings = l; } else if (n == 2) { validator_entry_t *m = V_CHOICE_STR(c[0], c[1]); char * *l = nx_mem(2 * sizeof *l); memcpy(l, m->data.choices.as_strings, 2 * sizeof *l); e = *m; e.data.choices.as_strings = l; } else if (n == 3) { validator_entry_t *m = V_CHOICE_STR(c[0], c[1], c[2]); char * *l = nx_mem(3 * sizeof *l); memcpy(l, m->data.choices.as_strings, 3 * sizeof *l); e = *m; e.data.choices.as_strings = l; } else if (n == 5) { validator_entry_t *m = V_CHOICE_STR(c[0], c[1], c[2], c[3], c[4]); char * *l = nx_mem(5 * sizeof *l); memcpy(l, m->data.choices.as_strings, 5 * sizeof *l); e = *m; e.data.choices.as_strings = l; } else if (n == 20) { validator_entry_t *m = V_CHOICE_STR(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14], c[15], c[16], c[17], c[18], c[19]); char * *l = nx_mem(20 * sizeof *l); memcpy(l, m->data.choices.as_strings, 20 * sizeof *l); e = *m; e.data.choices.as_strings = l; } }
            a = mk(OPTION_STRING('x', "x"), &e, vs);
            if (e2e) { char *av[2] = {"prog", nx_fmt("--x=%s", v)}; st = argus_parse(&a, 2, av); }
            else { tab[0].value.as_string = v; was = tab[0]; st = e.func(&a, &tab[0], e.data); NX_CHECK(!memcmp(&was, &tab[0], sizeof was), "the check changed the option"); }
            if (!v) { NX_CHECK(st != ARGUS_SUCCESS && a.error_code == st, "an absent text gives %d", st); return; }
        } else if (kind == 3) {
            int64_t *c = nx_mem((n + 1) * sizeof *c), v = nx_range(-3, 3); e.data.choices.as_ints = c; e.data.choices.type = VALUE_TYPE_INT; e.func = choices_int_validator;
            if (nx_chance(1, 3)) v += (int64_t)nx_range(-2, 2) * ((int64_t)1 << 32); nx_note("value %lld:", (long long)v);
            for (size_t i = 0; i < n; i++) { c[i] = nx_range(-5, 5); if (nx_chance(1, 3)) c[i] += (int64_t)nx_range(-2, 2) * ((int64_t)1 << 32); nx_note(" %lld", (long long)c[i]); if (c[i] == v) in = true; }
            if (nx_chance(1, 2)) { if (n == 1) { validator_entry_t *m = V_CHOICE_INT(c[0]); int64_t *l = nx_mem(1 * sizeof *l); memcpy(l, m->data.choices.as_ints, 1 * sizeof *l); e = *m; e.data.choices.as_ints = l; } else if (n == 2) { validator_entry_t *m = V_CHOICE_INT(c[0], c[1]); int64_t *l = nx_mem(2 * sizeof *l); memcpy(l, m->data.choices.as_ints, 2 * sizeof *l); e = *m; e.data.choices.as_ints = l; } else if (n == 3) { validator_entry_t *m = V_CHOICE_INT(c[0], c[1], c[2]); int64_t *l = nx_mem(3 * sizeof *l); memcpy(l, m->data.choices.as_ints, 3 * sizeof *l); e = *m; e.data.choices.as_ints = l; } else if (n == 5) { validator_entry_t *m = V_CHOICE_INT(c[0], c[1], c[2], c[3], c[4]); int64_t *l = nx_mem(5 * sizeof *l); memcpy(l, m->data.choices.as_ints, 5 * sizeof *l); e = *m; e.data.choices.as_ints = l; } else if (n == 20) { validator_entry_t *m = V_CHOICE_INT(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14], c[15], c[16], c[17], c[18], c[19]); int64_t *l = nx_mem(20 * sizeof *l); memcpy(l, m->data.choices.as_ints, 20 * sizeof *l); e = *m; e.data.choices.as_ints = l; } }
            a = mk(OPTION_INT('x', "x"), &e, vs);
            if (e2e) { char *av[2] = {"prog", nx_fmt("--x=%lld", (long long)v)}; st = argus_parse(&a, 2, av); }
            else { tab[0].value.as_int64 = v; was = tab[0]; st = e.func(&a, &tab[0], e.data); NX_CHECK(!memcmp(&was, &tab[0], sizeof was), "the check changed the option"); }
        } else {
            double *c = nx_mem((n + 1) * sizeof *c), v = nx_range(-6, 6) / 4.0; e.data.choices.as_floats = c; e.data.choices.type = VALUE_TYPE_FLOAT; e.func = choices_float_validator;
            if (nx_chance(1, 4)) v = nextafter(v, 10); nx_note("value %.17g:", v);
            for (size_t i = 0; i < n; i++) { c[i] = nx_range(-6, 6) / 4.0; if (nx_chance(1, 4)) c[i] = nextafter(c[i], 10); nx_note(" %.17g", c[i]); if (c[i] == v) in = true; }
            if (nx_chance(1, 2)) { if (n == 1) { validator_entry_t *m = V_CHOICE_FLOAT(c[0]); double *l = nx_mem(1 * sizeof *l); memcpy(l, m->data.choices.as_floats, 1 * sizeof *l); e = *m; e.data.choices.as_floats = l; } else if (n == 2) { validator_entry_t *m = V_CHOICE_FLOAT(c[0], c[1]); double *l = nx_mem(2 * sizeof *l); memcpy(l, m->data.choices.as_floats, 2 * sizeof *l); e = *m; e.data.choices.as_floats = l; } else if (n == 3) { validator_entry_t *m = V_CHOICE_FLOAT(c[0], c[1], c[2]); double *l = nx_mem(3 * sizeof *l); memcpy(l, m->data.choices.as_floats, 3 * sizeof *l); e = *m; e.data.choices.as_floats = l; } else if (n == 5) { validator_entry_t *m = V_CHOICE_FLOAT(c[0], c[1], c[2], c[3], c[4]); double *l = nx_mem(5 * sizeof *l); memcpy(l, m->data.choices.as_floats, 5 * sizeof *l); e = *m; e.data.choices.as_floats = l; } else if (n == 20) { validator_entry_t *m = V_CHOICE_FLOAT(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14], c[15], c[16], c[17], c[18], c[19]); double *l = nx_mem(20 * sizeof *l); memcpy(l, m->data.choices.as_floats, 20 * sizeof *l); e = *m; e.data.choices.as_floats = l; } }
            a = mk(OPTION_FLOAT('x', "x"), &e, vs);
            if (e2e) { char *av[2] = {"prog", nx_fmt("--x=%.17g", v)}; st = argus_parse(&a, 2, av); }
            else { tab[0].value.as_float = v; was = tab[0]; st = e.func(&a, &tab[0], e.data); NX_CHECK(!memcmp(&was, &tab[0], sizeof was), "the check changed the option"); }
        }
    }
    if (in) NX_CHECK(st == ARGUS_SUCCESS, "rejected with %d although within the restriction", st);
    else NX_CHECK(st == bad && a.error_code == st, "status %d (recorded %d), want %d", st, a.error_code, bad);
    argus_free(&a);
}
