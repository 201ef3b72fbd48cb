#include "nx.h"
const char *nx_rule(void) { return "programs with options of every kind (also with default values, ordering flags, ranges, environment variables, own handlers that allocate, and an exit option), positionals and up to three nested subcommands; command lines with valid and malformed values; in two thirds of the cases one allocation fails; after a failing parse, after exit and after argus_free nothing may be allocated, releases of foreign memory and double releases are reported, and freed collections must read as empty; non-trivial: option memory was allocated"; }
void *nx_malloc(size_t n); void nx_free(void *p);
static argus_option_t *lv[8]; static size_t nlv; static char **av; static int ac; static int custom_live;
static int own_handler(argus_t *a, argus_option_t *o, char *v) { (void)a; if (o->is_allocated) { nx_free(o->value.as_ptr); custom_live--; } o->value.as_ptr = NULL; o->is_allocated = false; if (v && *v == 'x') return ARGUS_ERROR_INVALID_VALUE; o->value.as_ptr = nx_malloc(5); if (!o->value.as_ptr) return ARGUS_ERROR_MEMORY; custom_live++; o->is_allocated = true; return ARGUS_SUCCESS; }
static int own_free(argus_option_t *o) { custom_live--; nx_free(o->value.as_ptr); return ARGUS_SUCCESS; }
static int post_ok(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; return d.custom ? ARGUS_ERROR_INVALID_VALUE : ARGUS_SUCCESS; }
enum { FLAGK, STR, INT, FLT, BOOLK, AI, AS, AF, MI, MS, MF, MB, CUSTOM, EXITK, NK };
static int kinds[8][12]; static size_t nopt[8];
static int den = 25;
static char *one(int k) {
    switch (k) {
    case INT: case AI: return nx_chance(1, den) ? nx_dup("z") : nx_word("0123456789", 1, 4);
    case FLT: case AF: return nx_chance(1, den) ? nx_dup("z") : nx_fmt("%d.5", nx_range(0, 99));
    case BOOLK: return nx_dup(nx_chance(1, den) ? "z" : nx_chance(1, 2) ? "yes" : "no");
    case CUSTOM: return nx_dup(nx_chance(1, 12) ? "x" : "v");
    case MI: return nx_chance(1, den) ? nx_word("ab", 1, 2) : nx_fmt("%s=%s", nx_name("abcd", 1, 3), nx_chance(1, den) ? "z" : nx_word("0123", 1, 2));
    case MF: return nx_chance(1, den) ? nx_word("ab", 1, 2) : nx_fmt("%s=%s", nx_name("abcd", 1, 3), nx_chance(1, den) ? "z" : nx_word("0123", 1, 2));
    case MB: return nx_chance(1, den) ? nx_word("ab", 1, 2) : nx_fmt("%s=%s", nx_name("abcd", 1, 3), nx_chance(1, den) ? "z" : nx_chance(1, 2) ? "on" : "off");
    case MS: return nx_chance(1, den) ? nx_word("ab", 1, 2) : nx_fmt("%s=%s", nx_name("abcd", 1, 3), nx_word("ab=", 0, 3));
    default: return nx_word("abc", k == AS ? nx_below(2) : 1, 3);
    }
}
static char *val(int k) {
    char *t = one(k);
    if (k >= AI && k <= MB) { if (k == AI && nx_chance(1, 6)) t = nx_fmt("1-%d", nx_range(1, 40)); size_t n = nx_below(nx_chance(1, 5) ? nx_chance(1, 6) ? 220 : 30 : 4); if (n > 60) den = 2000; for (size_t i = 0; i < n; i++) t = nx_fmt("%s,%s", t, one(k)); if (nx_chance(1, 15)) t = nx_fmt("%s,", t); if (nx_chance(1, 40)) t = nx_dup(","); }
    den = 25;
    return t;
}
static argus_option_t mk(int k) {
    uint32_t f = (nx_chance(1, 4) ? FLAG_SORTED : 0) | (nx_chance(1, 4) ? FLAG_UNIQUE : 0), g = (nx_chance(1, 4) ? FLAG_UNIQUE_VALUE : 0) | (nx_chance(1, 5) ? FLAG_SORTED_KEY : nx_chance(1, 5) ? FLAG_SORTED_VALUE : 0);
    switch (k) {
    case FLAGK: { argus_option_t o = OPTION_FLAG('z', "n"); return o; }
    case STR: { argus_option_t o = OPTION_STRING('z', "n"); return o; }
    case INT: { argus_option_t o = OPTION_INT('z', "n"); return o; }
    case FLT: { argus_option_t o = OPTION_FLOAT('z', "n"); return o; }
    case BOOLK: { argus_option_t o = OPTION_BOOL('z', "n"); return o; }
    case AI: { argus_option_t o = OPTION_ARRAY_INT('z', "n", FLAGS(f)); return o; }
    case AS: { argus_option_t o = OPTION_ARRAY_STRING('z', "n", FLAGS(f)); return o; }
    case AF: { argus_option_t o = OPTION_ARRAY_FLOAT('z', "n", FLAGS(f)); return o; }
    case MI: { argus_option_t o = OPTION_MAP_INT('z', "n", FLAGS(g)); return o; }
    case MS: { argus_option_t o = OPTION_MAP_STRING('z', "n", FLAGS(g)); return o; }
    case MF: { argus_option_t o = OPTION_MAP_FLOAT('z', "n", FLAGS(g)); return o; }
    case MB: { argus_option_t o = OPTION_MAP_BOOL('z', "n", FLAGS(g)); return o; }
    case CUSTOM: { argus_option_t o = OPTION_STRING('z', "n", HANDLER(own_handler), FREE_HANDLER(own_free)); o.value_type = VALUE_TYPE_CUSTOM; return o; }
    default: { argus_option_t o = HELP_OPTION(); return o; }
    }
}
static void build(size_t d) {
    size_t n = nx_below(6), np = 0, ns = d < 3 ? nx_below(3) : 0; bool var = false; if (!ns) { np = nx_below(3); var = nx_chance(1, 3); }
    argus_option_t *t = nx_mem((n + np + ns + 3) * sizeof *t), *o = t; lv[d] = t; nopt[d] = n; nlv = d + 1;
    for (size_t i = 0; i < n; i++, o++) {
        int k = kinds[d][i] = (int)nx_below(nx_chance(1, 12) ? NK : EXITK); *o = mk(k); o->sname = (char)('a' + i); o->lname = o->name = nx_fmt("opt%zu", i); o->help = "h";
        if (k != FLAGK && k != EXITK && k != CUSTOM && nx_chance(1, 6)) { o->value.as_ptr = o->default_value.as_ptr = k >= AI ? nx_mem(64) : (void *)(uintptr_t)1; if (k == STR) o->value.as_string = o->default_value.as_string = nx_dup("dflt"); o->is_set = o->have_default = true; }
        if (k != EXITK && nx_chance(1, 6)) { o->env_name = nx_fmt("NX15_%zu_%zu", d, i); o->flags |= FLAG_ENV_OVERRIDE * nx_chance(1, 4); if (nx_chance(1, 2)) { setenv(o->env_name, k == FLAGK ? "yes" : val(k), 1); nx_note("%s=%s ", o->env_name, getenv(o->env_name)); } }
        if (k != EXITK && nx_chance(1, 12)) { validator_entry_t **v = nx_mem(2 * sizeof *v); v[0] = nx_mem(sizeof **v); *v[0] = (validator_entry_t){.func = post_ok, .order = ORDER_POST, .data.custom = nx_chance(1, 3)}; o->validators = v; }
        if (nx_chance(1, 40)) o->flags |= FLAG_REQUIRED;
        nx_note("%d%s ", k, o->have_default ? "d" : "");
    }
    for (size_t i = 0; i < np; i++, o++) { argus_option_t p = POSITIONAL_STRING("n", FLAGS(FLAG_OPTIONAL)); *o = p; o->name = nx_fmt("pos%zu", i); }
    if (var) { int k = nx_range(0, 2); argus_option_t p = k == 0 ? POSITIONAL_MANY_INT("n", FLAGS(FLAG_OPTIONAL)) : k == 1 ? POSITIONAL_MANY_STRING("n", FLAGS(FLAG_OPTIONAL)) : POSITIONAL_MANY_FLOAT("n", FLAGS(FLAG_OPTIONAL)); *o = p; o->name = "rest"; kinds[d][11] = k == 0 ? INT : k == 1 ? STR : FLT; o++; }
    size_t pick = ns ? nx_below(ns + 1) : 0;
    for (size_t i = 0; i < ns; i++, o++) { argus_option_t s = SUBCOMMAND("n", NULL); *o = s; o->name = nx_fmt("sub%zu", i); o->help = "h"; argus_option_t *e = nx_mem(sizeof *e); *e = nx_end(); o->sub_options = e; }
    *o = nx_end(); nx_note("; ");
    size_t uses = nx_below(7);
    for (size_t u = 0; u < uses && n; u++) {
        size_t i = nx_below(n); int k = kinds[d][i];
        if (k == FLAGK || k == EXITK) { if (k == FLAGK || nx_chance(1, 3)) av[ac++] = nx_fmt("-%c", (char)('a' + i)); }
        else if (nx_chance(1, 2)) av[ac++] = nx_fmt("--opt%zu=%s", i, val(k));
        else { av[ac++] = nx_fmt("-%c", (char)('a' + i)); av[ac++] = val(k); }
    }
    if (pick) { argus_option_t *s = o - ns + (pick - 1); av[ac++] = nx_dup(s->name); build(d + 1); s->sub_options = lv[d + 1]; return; }
    for (size_t i = 0; i < np && nx_chance(3, 4); i++) av[ac++] = nx_word("abc", 1, 3);
    if (var && np == 0) for (size_t i = nx_below(nx_chance(1, 4) ? 30 : 4); i; i--) av[ac++] = one(kinds[d][11]);
    if (nx_chance(1, 30)) av[ac++] = nx_dup("--nope"); else if (n && nx_chance(1, 20)) { size_t i = nx_below(n); av[ac++] = nx_chance(1, 2) ? nx_fmt("--opt%zu", i) : nx_fmt("-%c", (char)('a' + i)); }
}
typedef struct { argus_t *a; int st; } run_t;
static void run(void *p) { run_t *r = p; r->st = argus_parse(r->a, ac, av); }
void nx_case(void) {
    nx_mute(); nlv = 0; ac = 0; custom_live = 0; av = nx_mem(512 * sizeof *av); av[ac++] = nx_dup("prog");
    for (int d = 0; d < 4; d++) for (int i = 0; i < 6; i++) { char b[32]; snprintf(b, sizeof b, "NX15_%d_%d", d, i); unsetenv(b); }
    build(0); nx_note("args:"); for (int i = 1; i < ac; i++) nx_notestr(" ", av[i]);
    argus_t a = argus_init_no_validate(lv[0], "prog", "1"); a.env_prefix = NULL;
    nx_alloc_reset(); long base = nx_live;
    if (nx_chance(2, 3)) { nx_fail_at = 1 + (long)nx_below(nx_chance(1, 2) ? 12 : 60); nx_fail_all = nx_chance(1, 5); nx_note(" allocation %ld fails%s", nx_fail_at, nx_fail_all ? " and all later ones" : ""); }
    FILE *so = stdout; stdout = fopen("/dev/null", "w"); run_t r = {&a, 0}; bool ex = nx_exits(run, &r); fclose(stdout); stdout = so;
    nx_fail_at = 0;
    if (nx_allocs > 2) nx_mark();
    if (ex || r.st != ARGUS_SUCCESS) {
        NX_CHECK(nx_live == base, "%ld blocks are still allocated after %s", nx_live - base, ex ? "exit" : "the failing parse");
        NX_CHECK(custom_live == 0, "%d blocks of an own handler are not released after %s", custom_live, ex ? "exit" : "the failing parse");
    } else for (size_t d = 0; d < nlv; d++) for (argus_option_t *o = lv[d]; o->type != TYPE_NONE; o++) if (o->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC | VALUE_TYPE_MAP)) {
        volatile char c = 0;   /* every element is still there */
        for (size_t i = 0; i < o->value_count; i++) {
            if (o->value_type & VALUE_TYPE_MAP) { c ^= o->value.as_map[i].key[0]; if (o->value_type == VALUE_TYPE_MAP_STRING) c ^= (char)strlen(o->value.as_map[i].value.as_string); }
            else if (o->value_type == VALUE_TYPE_ARRAY_STRING || o->value_type == VALUE_TYPE_VARIADIC_STRING) c ^= (char)strlen(o->value.as_array[i].as_string);
        }
    }
    argus_free(&a);
    NX_CHECK(nx_live == base && custom_live == 0, "%ld blocks are still allocated after argus_free", nx_live - base + custom_live);
    argus_free(&a);
    for (size_t d = 0; d < nlv; d++) for (argus_option_t *o = lv[d]; o->type != TYPE_NONE; o++) if (o->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_VARIADIC | VALUE_TYPE_MAP)) {
        NX_CHECK(o->value_count == 0 && !o->is_allocated, "'%s' still counts %zu elements after argus_free", o->name, o->value_count);
        if (d == nlv - 1 && a.subcommand_depth == d) { char *p = nx_dup(o->name); for (size_t k = d; k-- > 0;) p = nx_fmt("%s.%s", a.subcommand_stack[k]->name, p);
            if (a.subcommand_depth == d) { NX_CHECK(argus_count(&a, p) == 0, "count after free"); if (!o->have_default) NX_CHECK(argus_get(&a, p).raw == 0, "'%s' still refers to released memory after argus_free", o->name); if (o->value_type & VALUE_TYPE_MAP) NX_CHECK(argus_map_get(&a, p, "a").raw == 0, "map after free"); else NX_CHECK(argus_array_get(&a, p, 0).raw == 0, "array after free"); } }
    }
}
