#include "nx.h"
const char *nx_rule(void) { return "random tables of up to 14 entries on 1-3 levels (required, requires and conflicts lists incl. unknown and repeated names, exclusive and plain groups, group ends, defaults, positionals, scripted post-checks) parsed with random subsets of their options; the verdict is compared with the stated rules; non-trivial: at least 2 options with a rule"; }
#define MAXL 12
static argus_option_t *lv[MAXL]; static size_t nlv; static char **av; static int ac;
typedef struct { int fail; int runs; } chk_t;
static chk_t ck[4096]; static size_t nck; static int pre_runs;
static int post(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; ck[d.custom].runs++; return ck[d.custom].fail; }
static int pre(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; (void)d; pre_runs++; return ARGUS_SUCCESS; }
static const char *names[14];
static const char **list(size_t n) {
    size_t m = 1 + nx_below(nx_chance(1, 4) ? 5 : 2); const char **l = nx_mem((m + 1) * sizeof *l);
    for (size_t i = 0; i < m; i++) { l[i] = nx_chance(1, 12) ? "unknown" : nx_chance(1, 10) ? "pp" : names[nx_below(n)]; nx_notestr("", l[i]); }
    return l;
}
/* the same list, stated with the macro */
static const char **macro(const char **l, bool req) {
    size_t n = 0; while (l[n]) n++; const char **r = nx_mem((n + 1) * sizeof *r);
#define VIA(...) { argus_option_t q = OPTION_FLAG('q', "q", REQUIRE(__VA_ARGS__)), c = OPTION_FLAG('c', "c", CONFLICT(__VA_ARGS__)); memcpy(r, req ? q.require : c.conflict, (n + 1) * sizeof *r); NX_CHECK(!memcmp(r, l, (n + 1) * sizeof *r), "a list of names is not the one stated"); return r; }
    if (nx_chance(1, 2)) return l;
    if (n == 1) VIA(l[0]) if (n == 2) VIA(l[0], l[1]) if (n == 3) VIA(l[0], l[1], l[2]) if (n == 4) VIA(l[0], l[1], l[2], l[3])
    return l;
}
static size_t chain; /* levels of a long chain of subcommands */
static argus_option_t *level(size_t depth) {
    size_t n = 1 + nx_below(chain ? 3 : nx_chance(1, 3) ? 12 : 5), k = 0; size_t rules = 0;
    argus_option_t *t = nx_mem((n * 2 + 4) * sizeof *t); bool grp = false;
    nx_note("level %zu {", depth);
    for (size_t i = 0; i < n; i++) {
        if (nx_chance(1, 4)) {
            if (grp && nx_chance(1, 2)) { t[k++] = GROUP_END(); nx_note("end; "); grp = false; }
            else { bool ex = nx_chance(2, 3); argus_option_t g = GROUP_START("grp"); if (ex) g.flags |= FLAG_EXCLUSIVE; if (nx_chance(1, 6)) g.flags |= FLAG_HIDDEN; t[k++] = g; grp = true; nx_note("group%s; ", ex ? "!" : ""); rules++; }
        }
        argus_option_t o = OPTION_FLAG((char)('a' + i), names[i]); o.flags |= nx_marks();
        nx_note("%s", names[i]);
        if (nx_chance(1, 8)) { o.flags |= FLAG_REQUIRED; nx_note(" required"); rules++; }
        if (nx_chance(1, 8)) { if (nx_chance(1, 2)) { argus_option_t dm = OPTION_FLAG('d', "d", DEFAULT(true)); o.is_set = dm.is_set; o.have_default = dm.have_default; NX_CHECK(o.is_set, "an option with a default is not set"); } o.is_set = o.have_default = true; nx_note(" default"); }
        if (nx_chance(1, 5)) { nx_note(" requires"); o.require = macro(list(n), true); rules++; }
        if (nx_chance(1, 5)) { nx_note(" conflicts"); o.conflict = macro(list(n), false); rules++; }
        if (nx_chance(1, 3)) {
            size_t m = 1 + nx_below(3); validator_entry_t **v = nx_mem((m + 1) * sizeof *v); o.validators = v;
            for (size_t j = 0; j < m; j++) {
                bool po = nx_chance(2, 3); v[j] = nx_mem(sizeof **v);
                *v[j] = (validator_entry_t){.func = po ? post : pre, .order = po ? ORDER_POST : ORDER_PRE, .data.custom = nck};
                ck[nck].runs = 0; ck[nck].fail = nx_chance(1, 12) ? ARGUS_ERROR_INVALID_RANGE : 0; nx_note(" %s%s", po ? "post" : "pre", po && ck[nck].fail ? "(fails)" : ""); nck++;
            }
        }
        nx_note("; "); t[k++] = o;
    }
    bool sub = chain ? depth < chain : depth < 2 && nx_chance(1, 3); 
    if (!sub && nx_chance(1, 3)) { argus_option_t p = POSITIONAL_STRING("pp"); NX_CHECK(p.flags == FLAG_REQUIRED, "a positional is not required unless told otherwise"); if (nx_chance(1, 2)) p.flags = 0; nx_note("positional%s; ", p.flags ? " required" : ""); t[k++] = p; }
    argus_option_t *s = NULL;
    if (sub && grp) { t[k++] = GROUP_END(); }
    if (sub) { s = &t[k]; t[k++] = (argus_option_t){.type = TYPE_SUBCOMMAND, .name = "sub", .help = "h"}; if (nx_chance(1, 4)) { s->flags = FLAG_REQUIRED; } s->flags |= nx_marks(); }
    t[k] = nx_end(); nx_note("} "); if (rules >= 2) nx_mark();
    lv[nlv++] = t;
    size_t given = nx_below(n + 1); int mode = nx_range(0, 2);
    for (size_t i = 0; i < n && ac < 60; i++) if (mode == 0 ? nx_chance(1, 2) : mode == 1 ? nx_chance((int)given, (int)n) : nx_chance(1, 5)) { av[ac++] = nx_fmt("--%s", names[i]); }
    bool haspos = t[k - 1].type == TYPE_POSITIONAL;
    if (haspos && nx_chance(1, 2)) { av[ac++] = nx_dup("word"); }
    if (sub) { bool go = nx_chance(chain ? 15 : 3, chain ? 16 : 4); if (go) av[ac++] = nx_dup("sub"); size_t keep = nlv; int kac = ac; s->sub_options = level(depth + 1); if (!go) { nlv = keep; ac = kac; } }
    return t;
}
static argus_option_t *find(argus_option_t *t, const char *n) { for (; t->type != TYPE_NONE; t++) if (t->name && !strcmp(t->name, n)) return t; return NULL; }
static bool errs[256]; static bool any;
static void broke(int e) { if (e >= 0 && e < 256) errs[e] = true; any = true; }
static void rules(argus_option_t *t) {
    int cnt = 0; bool ex = false;
    for (argus_option_t *o = t; o->type != TYPE_NONE; o++) {
        if (o->type == TYPE_GROUP) { ex = (o->flags & FLAG_EXCLUSIVE) != 0; cnt = 0; continue; }
        if ((o->type == TYPE_OPTION || o->type == TYPE_POSITIONAL) && (o->flags & FLAG_REQUIRED) && !o->is_set) broke(ARGUS_ERROR_MISSING_REQUIRED);
        if (!o->is_set || o->type == TYPE_SUBCOMMAND) continue;
        if (ex && ++cnt == 2) broke(ARGUS_ERROR_EXCLUSIVE_GROUP);
        for (size_t j = 0; o->validators && o->validators[j]; j++) if (o->validators[j]->order == ORDER_POST && ck[o->validators[j]->data.custom].fail) broke(ck[o->validators[j]->data.custom].fail);
        for (size_t j = 0; o->require && o->require[j]; j++) { argus_option_t *q = find(t, o->require[j]); if (q && !q->is_set) broke(ARGUS_ERROR_MISSING_REQUIRED); }
        for (size_t j = 0; o->conflict && o->conflict[j]; j++) { argus_option_t *q = find(t, o->conflict[j]); if (q && q->is_set) broke(ARGUS_ERROR_CONFLICTING_OPTIONS); }
    }
}
void nx_case(void) {
    nx_mute(); nlv = nck = 0; ac = 0; pre_runs = 0; av = nx_mem(256 * sizeof *av); av[ac++] = nx_dup("prog");
    bool twin = nx_chance(1, 10); /* names that differ in letter case only */
    for (int i = 0; i < 14; i++) names[i] = twin ? nx_fmt("%c", (i & 1 ? 'A' : 'a') + i / 2) : nx_fmt("%s%c", nx_name("ab", 0, 0), 'a' + i);
    chain = nx_chance(1, 12) ? (size_t)nx_range(3, 8) : 0;
    argus_option_t *t = level(0);
    nx_note("args:"); for (int i = 1; i < ac; i++) nx_notestr(" ", av[i]);
    argus_t a = argus_init_no_validate(t, "prog", "1");
    int st = argus_parse(&a, ac, av);
    if (st == ARGUS_ERROR_INVALID_ARGUMENT) return; /* shape the generator did not intend (a word without a place) */
    memset(errs, 0, sizeof errs); any = false;
    for (size_t i = 0; i < nlv; i++) rules(lv[i]);
    NX_CHECK(a.error_code == st, "error code %d, status %d", a.error_code, st);
    if (!any) NX_CHECK(st == ARGUS_SUCCESS, "no rule is broken, but status %d", st);
    else { NX_CHECK(st != ARGUS_SUCCESS, "a rule is broken, but the parse succeeds"); NX_CHECK(st > 0 && st < 256 && errs[st], "error %d is not that of a broken rule", st); }
    if (st == ARGUS_SUCCESS) for (size_t i = 0; i < nlv; i++) for (argus_option_t *o = lv[i]; o->type != TYPE_NONE; o++) if (o->is_set && o->type != TYPE_SUBCOMMAND)
        for (size_t j = 0; o->validators && o->validators[j]; j++) if (o->validators[j]->order == ORDER_POST) NX_CHECK(ck[o->validators[j]->data.custom].runs == 1, "a post-check of '%s' ran %d times", o->name, ck[o->validators[j]->data.custom].runs);
    argus_free(&a);
}
