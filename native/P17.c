#include "nx.h"
const char *nx_rule(void) { return "programs with up to eight active subcommand levels reached by parsing, whose options, groups and commands share names and prefixes of names between levels; paths built from the active commands, from parts of their names, from inactive commands, with missing, extra and empty components; the option a path denotes is recognised by its value; non-trivial: the path denotes something or names an active command"; }
static argus_option_t *lv[10]; static char *cn[10]; static char **av; static int ac; static size_t depth; static int serial;
static argus_option_t *table(size_t d) {
    size_t n = nx_below(5), ns = d < depth ? 1 + nx_below(2) : nx_below(2); argus_option_t *t = nx_mem((n + ns + 2) * sizeof *t), *o = t; size_t pick = nx_below(ns ? ns : 1);
    for (size_t i = 0; i < n; i++, o++) { if (nx_chance(1, 8)) { argus_option_t g = GROUP_START("g"); *o = g; o->name = nx_name("ab-", 1, 3); continue; } argus_option_t p = OPTION_STRING('z', "n"); *o = p; o->sname = 0; o->name = nx_name("ab-", 1, 3); o->lname = "zzz"; o->value.raw = (uintptr_t)(1000 + serial++); o->is_set = nx_chance(1, 2); o->value_count = nx_below(3); nx_note("%s ", o->name); }
    argus_option_t *subs = o;
    for (size_t i = 0; i < ns; i++, o++) { argus_option_t s = SUBCOMMAND("n", NULL); *o = s; o->flags |= nx_marks(); char *nm = nx_fmt("%s%s", nx_word("ab", 1, 1), nx_name("ab-", 0, 3)); for (size_t k = 0; k < i; k++) if (!strcmp(subs[k].name, nm)) nm = nx_fmt("%sc", nm); o->name = nm; nx_note("[%s] ", nm); argus_option_t *e = nx_mem(sizeof *e); *e = nx_end(); o->sub_options = e; o->value.raw = (uintptr_t)(1000 + serial++); }
    *o = nx_end(); nx_note("; ");
    if (d < depth) { cn[d] = (char *)subs[pick].name; av[ac++] = cn[d]; subs[pick].sub_options = table(d + 1); }
    lv[d] = t; return t;
}
static argus_option_t *byname(argus_option_t *t, const char *n) { for (; t->type != TYPE_NONE; t++) if (t->name && !strcmp(t->name, n)) return t; return NULL; }
static argus_option_t *ref(const char *path) {
    if (!path) return NULL;
    const char *dot = strchr(path, '.');
    if (!dot) { for (size_t l = depth + 1; l-- > 0;) { argus_option_t *o = byname(lv[l], path); if (o) return o; } return NULL; }
    if (path[0] == '.') return byname(lv[0], path + 1);
    size_t l = 0;
    for (; dot; path = dot + 1, dot = strchr(path, '.'), l++) { if (l >= depth || strlen(cn[l]) != (size_t)(dot - path) || strncmp(path, cn[l], (size_t)(dot - path))) return NULL; }
    return byname(lv[l], path);
}
void nx_case(void) {
    nx_mute(); ac = 0; serial = 0; av = nx_mem(16 * sizeof *av); av[ac++] = nx_dup("prog"); depth = nx_below(nx_chance(1, 3) ? 9 : 4);
    argus_option_t *t = table(0); argus_t a = argus_init_no_validate(t, "prog", "1");
    int st = argus_parse(&a, ac, av); NX_CHECK(st == ARGUS_SUCCESS && a.subcommand_depth == depth, "status %d, depth %zu", st, a.subcommand_depth);
    for (size_t i = 0; i < depth; i++) nx_note("%s%s", i ? " > " : "active ", cn[i]);
    for (int q = 0; q < 12; q++) {
        char *p = nx_chance(1, 2) ? nx_dup("") : nx_dup(nx_chance(1, 4) ? "." : ""); size_t k = nx_chance(1, 4) ? 0 : nx_below(depth + 2); bool bad = nx_chance(1, 4);
        for (size_t i = 0; i < k; i++) { char *c = i < depth ? nx_dup(cn[i]) : nx_name("ab", 0, 3); if (bad && nx_chance(1, 2)) { if (nx_chance(1, 3)) { char *h = nx_chance(1, 2) ? strchr(c, '-') : NULL; if (h) *h = 0; else c[strlen(c) - (*c != 0)] = 0; } else if (nx_chance(1, 2)) c = nx_fmt("%s%s", c, nx_word("ab", 1, 1)); else c = nx_name("ab", 0, 3); } p = nx_fmt("%s%s.", p, c); }
        size_t l = k <= depth ? k : depth; size_t n = 0; while (lv[l][n].type != TYPE_NONE) n++;
        p = nx_fmt("%s%s", p, n && nx_chance(2, 3) ? lv[l][nx_below(n)].name : nx_name("ab-.", 0, 3));
        if (nx_chance(1, 30)) p = NULL;
        argus_option_t *w = ref(p); nx_notestr(" ", p); if (w) { nx_mark(); nx_note("=%d", (int)w->value.raw); }
        a.error_code = 77; argus_value_t v = argus_get(&a, p);
        if (w) { NX_CHECK(v.raw == w->value.raw && a.error_code == ARGUS_SUCCESS, "path denotes %lld (error %d), want %lld", (long long)v.raw, a.error_code, (long long)w->value.raw); NX_CHECK(argus_is_set(&a, p) == w->is_set, "is_set by path"); NX_CHECK(argus_count(&a, p) == w->value_count, "count by path"); }
        else { NX_CHECK(v.raw == 0 && a.error_code == ARGUS_ERROR_NO_VALUE, "a path that denotes nothing gave %lld, error %d", (long long)v.raw, a.error_code); NX_CHECK(!argus_is_set(&a, p), "is_set of nothing"); NX_CHECK(argus_count(&a, p) == 0, "count of nothing"); }
    }
}
