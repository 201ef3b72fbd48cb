#include "nx.h"
#include <ctype.h>
const char *nx_rule(void) { return "programs with up to three active levels, inactive subcommands, groups and positionals; string, int, bool, flag and array options with explicit or automatic variable names (hyphens, lower case, prefixes that are or are not already part of the name), with and without default, override, pre-checks and ranges; the variables meant and look-alikes are set with valid and malformed values; compared with a reference; non-trivial: a variable that decides an option"; }
enum { STR, INT, BOOLK, FLG, ARR };
typedef struct { argus_option_t *o; int k; int cmd; char *cval; char *dflt; int pre; int range; int want_set; char *wval; int level; bool dead; } ent_t;
static ent_t E[64]; static size_t ne; static argus_option_t *lv[8]; static char **av; static int ac; static const char *prefix; static char *setn[256]; static size_t nset; static size_t prer;
static int pre_fn(argus_t *a, void *v, validator_data_t d) { (void)a; (void)d; prer++; return strchr((char *)v, 'q') ? ARGUS_ERROR_INVALID_VALUE : ARGUS_SUCCESS; }
static void put(const char *n, const char *v) { if (!*n || strchr(n, '=') || nset >= 256) return; setenv(n, v, 1); setn[nset++] = nx_dup(n); nx_note("%s='%s' ", n, v); }
static char *upper(const char *s) { char *r = nx_dup(s); for (char *c = r; *c; c++) *c = *c == '-' ? '_' : (char)toupper((unsigned char)*c); return r; }
static char *ref_name(argus_option_t *o) {
    bool pf = prefix && *prefix && !(o->flags & FLAG_NO_ENV_PREFIX);
    if (o->env_name) {
        if (!pf) return nx_dup(o->env_name);
        size_t pl = strlen(prefix);
        if (!strncmp(o->env_name, prefix, pl) && o->env_name[pl] == '_') return nx_dup(o->env_name);
        return nx_fmt("%s_%s", prefix, o->env_name);
    }
    if (o->flags & FLAG_AUTO_ENV) return pf ? upper(nx_fmt("%s_%s", prefix, o->name)) : upper(o->name);
    return NULL;
}
static char *flip(const char *s) { char *r = nx_dup(s); for (char *c = r; *c; c++) if (isalpha((unsigned char)*c) && nx_chance(1, 2)) *c ^= 0x20; return r; }
static char *val(int k) {
    switch (k) { case STR: return nx_word("abq", 0, 3); case ARR: { char *t = nx_word("abq", 1, 2); for (size_t i = nx_below(4); i; i--) t = nx_fmt("%s,%s", t, nx_word("ab", 1, 2)); return t; } case INT: return nx_chance(1, 10) ? nx_dup("zz") : nx_fmt("%d", nx_range(0, 120)); default: return nx_dup(nx_chance(1, 8) ? "maybe" : nx_chance(1, 2) ? "yes" : "No"); }
}
static argus_option_t *table(int d, bool active) {
    size_t n = 1 + nx_below(5), np = 0, ns = d < 2 && nx_chance(2, 3) ? 1 + nx_below(2) : 0; if (!ns) np = nx_below(2);
    argus_option_t *t = nx_mem((n + np + ns + 4) * sizeof *t), *o = t; size_t pick = active && ns && nx_chance(3, 4) ? 1 + nx_below(ns) : 0;
    for (size_t i = 0; i < n + np; i++) {
        if (nx_chance(1, 8) && i < n) { argus_option_t g = GROUP_START("grp"); *o = g; o->env_name = "GRPVAR"; o->flags |= FLAG_AUTO_ENV; put("GRPVAR", "yes"); o++; if (o - t > (long)(n + np + ns + 2)) break; n--; if (i >= n + np) break; }
        int k = (int)nx_below(i < n ? 5 : 2); ent_t e = {0}; bool pos = i >= n; char *nm = nx_fmt("%s%d%zu", nx_name("ab-", 1, 3), d, i); if (nm[0] == '-') nm[0] = 'c';
        if (pos) { argus_option_t p = POSITIONAL_STRING("n", FLAGS(FLAG_OPTIONAL)); if (k == INT) { argus_option_t pi = POSITIONAL_INT("n", FLAGS(FLAG_OPTIONAL)); p = pi; } *o = p; }
        else if (k == ARR) { argus_option_t p = OPTION_ARRAY_STRING('z', "n"); *o = p; } else if (k == STR) { argus_option_t p = OPTION_STRING('z', "n"); *o = p; } else if (k == INT) { argus_option_t p = OPTION_INT('z', "n"); *o = p; } else if (k == BOOLK) { argus_option_t p = OPTION_BOOL('z', "n"); *o = p; } else { argus_option_t p = OPTION_FLAG('z', "n"); *o = p; }
        o->name = nm; if (!pos) { o->lname = nx_chance(1, 6) ? nx_fmt("%sl", nm) : nm; o->sname = 0; if (o->lname != nm) nx_note("lname of %s is %s ", nm, o->lname); }
        if (k != FLG && k != ARR && !(pos && nx_chance(1, 2)) && nx_chance(1, 3)) { o->is_set = o->have_default = true; if (k == STR) { e.dflt = nx_word("de", 1, 2); o->value.as_string = e.dflt; } else if (k == INT) { int v = nx_range(0, 90); e.dflt = nx_fmt("%d", v); o->value.as_int64 = v; } else { bool b = nx_chance(1, 2); e.dflt = b ? "yes" : "no"; o->value.raw = 0; o->value.as_bool = b; } o->default_value = o->value; }
        if (nx_chance(2, 3)) { if (nx_chance(1, 2)) o->env_name = nx_chance(1, 3) && prefix ? nx_fmt("%s%s%s", nx_chance(1, 5) ? flip(prefix) : prefix, nx_chance(2, 3) ? "_" : "", nx_word("XYz", 1, 2)) : nx_name("XYZab_", 1, 3); else o->flags |= FLAG_AUTO_ENV; if (o->env_name && strlen(o->env_name) < 2) o->env_name = nx_fmt("%sV", o->env_name); }
        if (nx_chance(1, 5)) o->flags |= FLAG_NO_ENV_PREFIX;
        if (nx_chance(1, 4)) o->flags |= FLAG_ENV_OVERRIDE;
        if (nx_chance(1, 5) && k != FLG) { validator_entry_t **v = nx_mem(3 * sizeof *v); int m = 0; if (nx_chance(1, 2)) { v[m] = nx_mem(sizeof **v); *v[m++] = (validator_entry_t){.func = pre_fn, .order = ORDER_PRE}; e.pre = 1; } if (k == INT) { v[m] = nx_mem(sizeof **v); *v[m++] = (validator_entry_t){.func = range_validator, .order = ORDER_POST, .data.range = {0, 100}}; e.range = 1; } v[m] = NULL; o->validators = v; }
        e.o = o; e.k = k; e.level = active ? d : -1;
        if (active && !pos && nx_chance(1, 3)) { e.cmd = 1; e.cval = k == FLG ? "yes" : val(k); av[ac++] = k == FLG ? nx_fmt("--%s", o->lname) : nx_fmt("--%s=%s", o->lname, e.cval); }
        if (active && pos && nx_chance(1, 2)) { e.cmd = 1; e.cval = k == INT ? nx_fmt("%d", nx_range(0, 90)) : nx_word("fg", 1, 2); av[ac++] = e.cval; }
        char *rn = ref_name(o);
        if (rn && nx_chance(2, 3)) put(rn, val(k)); if (rn && nx_chance(1, 8)) put(flip(rn), val(k));
        if (nx_chance(1, 4)) put(upper(nm), val(k)); if (!pos && o->lname != nm && nx_chance(1, 2)) put(upper(o->lname), val(k)); if (prefix && !pos && o->lname != nm && nx_chance(1, 2)) put(nx_fmt("%s_%s", upper(prefix), upper(o->lname)), val(k)); if (nx_chance(1, 6) && o->env_name) put(o->env_name, val(k)); if (nx_chance(1, 8) && prefix) put(nx_fmt("%s_%s", prefix, nm), val(k));
        nx_note("[%d %s %s%s%s%s%s%s%s] ", e.level, nm, o->env_name ? o->env_name : "", o->flags & FLAG_AUTO_ENV ? " auto" : "", o->flags & FLAG_NO_ENV_PREFIX ? " noprefix" : "", o->flags & FLAG_ENV_OVERRIDE ? " override" : "", e.dflt ? " default " : "", e.dflt ? e.dflt : "", e.pre ? " pre" : "");
        E[ne++] = e; o++;
    }
    argus_option_t *subs = o;
    for (size_t i = 0; i < ns; i++, o++) { argus_option_t s = SUBCOMMAND("n", NULL); *o = s; o->name = nx_fmt("sub%zu", i); }
    *o = nx_end();
    if (pick) av[ac++] = nx_dup(subs[pick - 1].name);
    for (size_t i = 0; i < ns; i++) subs[i].sub_options = table(d + 1, pick == i + 1);
    if (active) lv[d] = t;
    return t;
}
static int word(const char *v) { static const char *t[] = {"1", "true", "yes", "y", "on", "0x1", "0b1"}, *f[] = {"0", "false", "no", "n", "off", "0x0", "0b0"}; for (int i = 0; i < 7; i++) { if (!strcasecmp(v, t[i])) return 1; if (!strcasecmp(v, f[i])) return 0; } return -1; }
static bool conv_ok(ent_t *e, const char *v) {
    if (e->pre && strchr(v, 'q')) return false;
    if (e->k == STR || e->k == ARR) return true;
    if (e->k == INT) { if (!*v) return false; for (const char *c = v; *c; c++) if (!isdigit((unsigned char)*c)) return false; return true; }
    return word(v) >= 0;
}
static int truth(const char *v) { return word(v) == 1; }
static void parts(argus_option_t *o, size_t *i, const char *text) {
    bool list = strchr(text, ',') != NULL;
    for (char *c = nx_dup(text), *k; c; c = k) { k = list ? strchr(c, ',') : NULL; if (k) *k++ = 0; if (list && !*c) continue; NX_CHECK(*i < o->value_count && !strcmp(o->value.as_array[*i].as_string, c), "'%s': element %zu is not '%s'", o->name, *i, c); ++*i; }
}
void nx_case(void) {
    nx_mute(); ne = 0; nset = 0; ac = 0; prer = 0; av = nx_mem(256 * sizeof *av); av[ac++] = nx_dup("prog");
    nx_longmax = 50; bool lon = nx_chance(1, 3); if (lon) nx_longmax = (size_t)nx_range(105, 119); prefix = nx_chance(1, 2) ? lon ? nx_word("XYp", 1, 2) : nx_name("XYp", 1, 2) : nx_chance(1, 8) ? "" : NULL; nx_note("prefix %s: ", prefix ? prefix : "none");
    argus_option_t *t = table(0, true);
    nx_note("args:"); for (int i = 1; i < ac; i++) nx_notestr(" ", av[i]);
    /* the reference */
    bool cmd_bad = false, env_bad = false, post_bad = false;
    for (size_t i = 0; i < ne; i++) { ent_t *e = &E[i]; if (e->level >= 0 && e->cmd && e->k != FLG && !conv_ok(e, e->cval)) cmd_bad = true; }
    for (size_t i = 0; i < ne; i++) { ent_t *e = &E[i]; e->want_set = e->dflt != NULL; e->wval = e->dflt; if (e->level < 0) continue;
        if (e->cmd) { e->want_set = 1; e->wval = e->cval; }
        if (!e->cmd || (e->o->flags & FLAG_ENV_OVERRIDE)) { char *n = ref_name(e->o); char *v = n ? getenv(n) : NULL; if (v) { if (!cmd_bad) nx_mark(); if (!conv_ok(e, v)) env_bad = true; e->want_set = 1; e->wval = nx_dup(v); } }
        if (e->want_set && e->range && conv_ok(e, e->wval) && atoi(e->wval) > 100) post_bad = true;
    }
    argus_t a = argus_init_no_validate(t, "prog", "1"); a.env_prefix = prefix;
    int st = argus_parse(&a, ac, av);
    for (size_t i = 0; i < nset; i++) unsetenv(setn[i]);
    if (cmd_bad) NX_CHECK(st != ARGUS_SUCCESS, "a malformed command line is accepted");
    else if (env_bad) NX_CHECK(st != ARGUS_SUCCESS && a.error_code == st, "a malformed variable is accepted");
    else if (post_bad) NX_CHECK(st == ARGUS_ERROR_INVALID_RANGE, "status %d for a value outside the range", st);
    else {
        NX_CHECK(st == ARGUS_SUCCESS, "status %d although every value is valid", st);
        for (size_t i = 0; i < ne; i++) { ent_t *e = &E[i]; argus_option_t *o = e->o;
            NX_CHECK(o->is_set == e->want_set, "'%s' is%s set", o->name, o->is_set ? "" : " not");
            if (!e->want_set) continue;
            if (e->k == STR) NX_CHECK(o->value.as_string && !strcmp(o->value.as_string, e->wval), "'%s' is '%s', want '%s'", o->name, o->value.as_string, e->wval);
            if (e->k == INT) NX_CHECK(o->value.as_int64 == atoi(e->wval), "'%s' is %lld, want %s", o->name, (long long)o->value.as_int64, e->wval);
            if (e->k == ARR) { size_t i = 0; if (e->cmd && e->wval != e->cval) parts(o, &i, e->cval); parts(o, &i, e->wval); NX_CHECK(i == o->value_count, "'%s' has %zu elements, want %zu", o->name, o->value_count, i); }
            if (e->k == BOOLK || e->k == FLG) NX_CHECK(o->value.as_bool == truth(e->wval), "'%s' is %d, want %s", o->name, o->value.as_bool, e->wval);
        }
    }
    argus_free(&a);
}
