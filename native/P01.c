#include "nx.h"
const char *nx_rule(void) { return "random option tables (0-40 entries, names over a 3-letter alphabet incl. NULL/empty), random lookups compared with a reference scan; positional argument lists parsed end to end; non-trivial: table with at least 2 entries"; }
static argus_option_t *table(size_t n) {
    argus_option_t *o = nx_mem((n + 1) * sizeof *o);
    for (size_t i = 0; i < n; i++) {
        memset(&o[i], 0, sizeof o[i]);
        o[i].type = (argus_optype_t[]){TYPE_OPTION, TYPE_OPTION, TYPE_OPTION, TYPE_POSITIONAL, TYPE_POSITIONAL, TYPE_GROUP, TYPE_SUBCOMMAND}[nx_below(7)];
        o[i].name = nx_chance(1, 8) ? NULL : nx_name("ab-", 0, 3);
        o[i].lname = nx_chance(1, 5) ? NULL : nx_name("ab-", 0, 3);
        o[i].sname = nx_chance(1, 4) ? 0 : "abcAB1\xe1\xb1"[nx_below(8)];
        o[i].value_type = nx_chance(1, 20) ? VALUE_TYPE_NONE : (argus_valtype_t)(1u << nx_below(16));
        if (o[i].type == TYPE_POSITIONAL && nx_chance(1, 2)) o[i].value_type = VALUE_TYPE_STRING;
        o[i].flags |= nx_marks(); nx_note("%d:", o[i].type); nx_notestr("", o[i].name); nx_notestr("/", o[i].lname); nx_note("/%d/%x; ", o[i].sname, o[i].value_type);
    }
    o[n] = nx_end();
    return o;
}
static void lookups(void) {
    size_t n = nx_chance(1, 10) ? 20 + nx_below(20) : nx_chance(1, 100) ? 240 + nx_below(40) : nx_below(8);
    if (n >= 2) nx_mark();
    argus_option_t *o = table(n);
    for (int rep = 0; rep < 4; rep++) {
        const char *q = nx_chance(1, 12) ? NULL : nx_name("ab-", 0, 3);
        argus_option_t *want = NULL;
        for (size_t i = 0; i < n && q && !want; i++) if (o[i].type == TYPE_OPTION && o[i].lname && !strcmp(o[i].lname, q)) want = &o[i];
        argus_option_t *got = find_option_by_lname(o, q);
        NX_CHECK(got == want, "long name '%s': got entry %ld, want %ld", q ? q : "NULL", got ? (long)(got - o) : -1, want ? (long)(want - o) : -1);
        if (q) {
            want = NULL;
            for (size_t i = 0; i < n && !want; i++) if (o[i].name && !strcmp(o[i].name, q)) want = &o[i];
            got = find_option_by_name(o, q);
            NX_CHECK(got == want, "name '%s': got entry %ld, want %ld", q, got ? (long)(got - o) : -1, want ? (long)(want - o) : -1);
        }
        char c = "abcAB1x\xe1\xb1"[nx_below(9)];
        want = NULL;
        for (size_t i = 0; i < n && !want; i++) if (o[i].type == TYPE_OPTION && o[i].sname == c) want = &o[i];
        got = find_option_by_sname(o, c);
        NX_CHECK(got == want, "short name '%c': got entry %ld, want %ld", c, got ? (long)(got - o) : -1, want ? (long)(want - o) : -1);
        int p = nx_chance(1, 10) ? -1 : nx_chance(1, 10) ? nx_range(0, 1 << nx_below(31)) : (int)nx_below(n + 2), r = 0;
        want = NULL;
        for (size_t i = 0; i < n && !want; i++) if (o[i].type == TYPE_POSITIONAL) {
            if ((o[i].value_type & VALUE_TYPE_VARIADIC) || r == p) want = &o[i];
            r++;
        }
        got = find_positional(o, p);
        NX_CHECK(got == want, "positional %d: got entry %ld, want %ld", p, got ? (long)(got - o) : -1, want ? (long)(want - o) : -1);
    }
}
static void positionals(void) {
    size_t np = nx_below(4), nopt = nx_below(3); bool var = nx_chance(1, 2);
    argus_option_t *o = nx_mem((np + nopt + 3) * sizeof *o); size_t k = 0;
    for (size_t i = 0; i < nopt; i++) o[k++] = OPTION_FLAG('a' + (char)i, NULL, .name = nx_fmt("f%zu", i));
    for (size_t i = 0; i < np; i++) o[k++] = (argus_option_t){.type = TYPE_POSITIONAL, .name = nx_fmt("p%zu", i), .value_type = VALUE_TYPE_STRING, .handler = string_handler, .free_handler = default_free};
    if (var) o[k++] = (argus_option_t){.type = TYPE_POSITIONAL, .name = "v", .value_type = VALUE_TYPE_VARIADIC_STRING, .handler = variadic_string_handler, .free_handler = free_variadic_string_handler};
    o[k] = nx_end();
    size_t na = nx_chance(1, 4) ? nx_below(40) : nx_below(8);
    char **argv = nx_mem((na + 2) * sizeof *argv); argv[0] = nx_dup("prog");
    for (size_t i = 0; i < na; i++) { argv[i + 1] = nx_word("xy.=", 0, 3); nx_notestr("", argv[i + 1]); }
    nx_note("positionals=%zu variadic=%d options=%zu", np, var, nopt);
    if (na >= 2) nx_mark();
    argus_t a = argus_init_no_validate(o, "prog", "1");
    nx_mute();
    int st = argus_parse(&a, (int)na + 1, argv);
    if (na > np && !var) { NX_CHECK(st == ARGUS_ERROR_INVALID_ARGUMENT && a.error_code == st, "too many positionals: status %d", st); return; }
    NX_CHECK(st == ARGUS_SUCCESS, "positionals rejected with %d", st);
    for (size_t i = 0; i < np; i++) {
        NX_CHECK(argus_is_set(&a, o[nopt + i].name) == (i < na), "p%zu set mark", i);
        if (i < na) NX_CHECK(argus_get(&a, o[nopt + i].name).as_string == argv[i + 1], "positional %zu has the wrong argument", i);
    }
    if (var) {
        size_t w = na > np ? na - np : 0;
        NX_CHECK(argus_count(&a, "v") == w, "variadic count %zu, want %zu", argus_count(&a, "v"), w);
        for (size_t i = 0; i < w; i++) NX_CHECK(!strcmp(argus_array_get(&a, "v", i).as_string, argv[1 + np + i]), "variadic element %zu", i);
    }
    argus_free(&a);
}
void nx_case(void) { if (nx_chance(2, 3)) lookups(); else positionals(); }
