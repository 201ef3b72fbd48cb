#include "nx.h"
const char *nx_rule(void) { return "programs with up to four active levels whose options (own handlers that allocate and log, exit options, post-checks, required options, environment variables) make any combination of the three phases fail or end the program; the order of handler and check calls, the result, the recorded code, the exit status and the memory that is still allocated are compared with a reference; non-trivial: at least two phases ran or one failed"; }
void *nx_malloc(size_t n); void nx_free(void *p);
typedef struct { char ph; argus_option_t *o; const char *v; } ev_t;
static ev_t lg[512]; static size_t nlg; static ev_t want[512]; static size_t nwant;
static char **av; static int ac; static argus_option_t *lv[16]; static size_t nlv; static int st_cmd, st_env, bad_post; static int badposts[64]; static size_t nbp; static size_t live_mid;
static const char *failcode(const char *v) { return v && *v == 'x' ? v : NULL; }
static int codeof(const char *v) { return v[1] == 'i' ? ARGUS_ERROR_INTERNAL : v[1] == 'm' ? ARGUS_ERROR_MEMORY : ARGUS_ERROR_INVALID_VALUE; }
static int own(argus_t *a, argus_option_t *o, char *v) { (void)a; if (nlg < 512) lg[nlg++] = (ev_t){'H', o, v}; if (failcode(v)) return codeof(v); if (o->is_allocated) { nx_free(o->value.as_ptr); o->is_allocated = false; } o->value.as_ptr = nx_malloc(8); o->is_allocated = true; return ARGUS_SUCCESS; }
static int post(argus_t *a, void *o, validator_data_t d) { (void)a; if (nlg < 512) lg[nlg++] = (ev_t){'P', o, NULL}; return (int)d.custom; }
static int ofree(argus_option_t *o) { nx_free(o->value.as_ptr); return ARGUS_SUCCESS; }
static char *val(void) { return nx_fmt("%s", nx_chance(1, 14) ? nx_word("im", 1, 2) : nx_word("ab", 0, 2)); }
static char *val2(void) { char *v = val(); if (*v == 'i' || *v == 'm') v = nx_fmt("x%s", v); return v; }
static argus_t *G_a; static int r; static void go(void *p) { (void)p; r = argus_parse(G_a, ac, av); }
typedef struct { argus_option_t *o; bool set; const char *env; bool exit; int post; bool req, ovr; } ent_t; static ent_t E[64]; static size_t ne; static int elv[64];
static char envn[64][24]; static size_t nenv;
void nx_case(void) {
    nx_mute(); nlg = nwant = ne = nenv = nbp = 0; ac = 0; av = nx_mem(128 * sizeof *av); av[ac++] = nx_chance(1, 8) ? nx_dup("--nope") : nx_dup("prog"); size_t depth = nx_chance(1, 20) ? (size_t)nx_range(4, MAX_SUBCOMMAND_DEPTH) : nx_below(4); nlv = depth + 1; char *next = NULL; argus_option_t *prev = NULL; st_cmd = 0; bool done = false;
    for (size_t d = 0; d <= depth; d++) {
        size_t n = nx_below(4); argus_option_t *t = nx_mem((n + 3) * sizeof *t), *o = t; lv[d] = t; if (prev) prev->sub_options = t; size_t first = ne;
        for (size_t i = 0; i < n; i++, o++) {
            argus_option_t p = OPTION_STRING('z', "n", HANDLER(own), FREE_HANDLER(ofree)); *o = p; o->value_type = VALUE_TYPE_CUSTOM; o->sname = 0; o->lname = o->name = nx_fmt("o%zu%zu", d, i); ent_t e = {.o = o}; o->flags |= nx_marks();
            if (nx_chance(1, 12)) { o->flags |= FLAG_EXIT; e.exit = true; }
            if (nx_chance(1, 14)) { o->flags |= FLAG_REQUIRED; e.req = true; }
            if (nx_chance(1, 3)) { validator_entry_t **v = nx_mem(2 * sizeof *v); v[0] = nx_mem(sizeof **v); e.post = nx_chance(1, 6) ? ARGUS_ERROR_INVALID_RANGE : 0; *v[0] = (validator_entry_t){.func = post, .order = ORDER_POST, .data.custom = (uintptr_t)e.post}; o->validators = v; if (!e.post) e.post = -1; }
            if (nx_chance(1, 3)) { snprintf(envn[nenv], 24, "NX19_%zu_%zu", d, i); o->env_name = envn[nenv]; e.ovr = nx_chance(1, 3); if (e.ovr) o->flags |= FLAG_ENV_OVERRIDE; char *v = val2(); setenv(envn[nenv], v, 1); e.env = getenv(envn[nenv]); nenv++; nx_note("env %s='%s' ", o->name, v); }
            if (e.req || e.exit || e.post > 0) nx_note("%s%s%s%s ", o->name, e.req ? " required" : "", e.exit ? " exit" : "", e.post > 0 ? " badpost" : "");
            elv[ne] = (int)d; E[ne++] = e;
        }
        if (d < depth) { argus_option_t s = SUBCOMMAND("n", NULL); *o = s; o->flags |= nx_marks(); o->name = next = nx_fmt("sub%zu", d); prev = o; o++; }
        *o = nx_end();
        size_t uses = nx_below(4);
        for (size_t u = 0; u < uses && n; u++) {
            if (nx_chance(1, 40)) { av[ac++] = nx_dup(nx_chance(1, 2) ? "--unknown=1" : "--o"); if (!done) { st_cmd = ARGUS_ERROR_INVALID_ARGUMENT; done = true; } continue; }
            ent_t *e = &E[first + nx_below(n)]; char *v = val2(); bool two = nx_chance(1, 4); char *tok = nx_fmt(two ? "--%s" : "--%s=%s", e->o->name, v), *at = two ? nx_dup(v) : tok + strlen(e->o->name) + 3; av[ac++] = tok; nx_note(two ? "%s " : "%s", tok); if (two) { av[ac++] = at; nx_note("'%s' ", at); } else nx_note(" ");
            if (done) continue;
            want[nwant++] = (ev_t){'H', e->o, at};
            if (failcode(v)) { st_cmd = codeof(v); done = true; } else { e->set = true; if (e->exit) { st_cmd = ARGUS_SHOULD_EXIT; done = true; } }
        }
        if (d < depth) { av[ac++] = next; nx_note("%s ", next); if (done) { for (size_t k = d + 1; k < 16; k++) lv[k] = NULL; } }
    }
    /* after a failure on the command line later tokens are not interpreted: values of deeper levels were generated but never given */
    int want_st = st_cmd; bool post_phase = false; size_t nfix;
    if (!st_cmd) for (size_t i = 0; i < ne; i++) { ent_t *e = &E[i]; if (!e->env || (e->set && !e->ovr)) continue; want[nwant++] = (ev_t){'H', e->o, e->env}; nx_mark(); if (failcode(e->env)) { want_st = codeof(e->env); break; } e->set = true; if (e->exit) { want_st = ARGUS_SHOULD_EXIT; break; } }
    nfix = nwant;
    if (!want_st) { post_phase = true; for (size_t i = 0; i < ne; i++) { ent_t *e = &E[i]; if (e->req && !e->set) badposts[nbp++] = ARGUS_ERROR_MISSING_REQUIRED; if (e->set && e->post > 0) badposts[nbp++] = e->post; } }
    if (nbp || want_st) nx_mark();
    argus_t a = argus_init_no_validate(lv[0], "prog", "1"); G_a = &a; r = 12345; a.error_code = 999; long l0 = nx_live;
    bool ex = nx_exits(go, NULL);
    for (size_t i = 0; i < nenv; i++) unsetenv(envn[i]);
    NX_CHECK(nlg >= nfix, "%zu handler calls, want %zu", nlg, nfix);
    for (size_t i = 0; i < nfix; i++) NX_CHECK(lg[i].ph == 'H' && lg[i].o == want[i].o && (lg[i].v == want[i].v || !strcmp(lg[i].v, want[i].v)), "call %zu is %c %s '%s', want %s '%s'", i, lg[i].ph, lg[i].o->name, lg[i].v, want[i].o->name, want[i].v);
    for (size_t i = nfix; i < nlg; i++) { NX_CHECK(lg[i].ph == 'P', "a handler after the last interpreted value"); NX_CHECK(post_phase, "a dependency check although an earlier phase ended the parse"); }
    if (want_st == ARGUS_SHOULD_EXIT) { NX_CHECK(ex, "an exit option was used, but the program goes on with %d", r); NX_CHECK(nx_exit_code == 0, "exit status %d", nx_exit_code); NX_CHECK(nx_live == l0, "memory is held at exit"); return; }
    NX_CHECK(!ex, "the program ended with %d", nx_exit_code); NX_CHECK(a.error_code == r, "result %d but recorded code %d", r, a.error_code);
    if (want_st) { NX_CHECK(r == want_st, "result %d, want %d", r, want_st); }
    else if (nbp) { bool ok = false; for (size_t i = 0; i < nbp; i++) ok |= badposts[i] == r; NX_CHECK(ok, "result %d, want the error of a broken rule", r); }
    else { NX_CHECK(r == ARGUS_SUCCESS, "result %d, want success", r); size_t p = 0; for (size_t i = 0; i < ne; i++) if (E[i].set && E[i].post) p++; NX_CHECK(nlg - nfix == p, "%zu post-checks, want %zu", nlg - nfix, p); for (size_t i = 0; i < ne; i++) NX_CHECK(E[i].o->is_set == E[i].set && E[i].o->is_allocated == E[i].set, "'%s' set %d allocated %d", E[i].o->name, E[i].o->is_set, E[i].o->is_allocated); }
    if (r) { NX_CHECK(nx_live == l0, "memory is held after a failing parse"); for (size_t i = 0; i < ne; i++) NX_CHECK(!E[i].o->is_allocated, "an option still claims memory"); }
    argus_free(&a); NX_CHECK(nx_live == l0, "memory is held after argus_free");
}
