#include "nx.h"
const char *nx_rule(void) { return "programs of up to six nested levels, actions absent or recording and returning any status, selected by parsing a command line or by any hand-made stack; calls, arguments, result and argus_has_command are compared with the deepest selected command; non-trivial: at least two active levels"; }
static int calls, ret; static argus_t *ga; static void *gd; static const char *which; static argus_t A; static char data[4];
#define ACT(n) static int act##n(argus_t *a, void *d) { calls++; ga = a; gd = d; which = "act" #n; return ret; }
ACT(0) ACT(1) ACT(2) ACT(3) ACT(4) ACT(5) ACT(6)
static int (*const acts[])(argus_t *, void *) = {act0, act1, act2, act3, act4, act5, act6};
static const char *const names[] = {"act0", "act1", "act2", "act3", "act4", "act5", "act6"};
static int r; static void go(void *p) { r = argus_exec(&A, p); }
void nx_case(void) {
    nx_mute(); size_t depth = nx_chance(1, 4) ? nx_range(7, 8) : nx_below(7), sel = nx_below(depth + 1); argus_option_t *root = NULL, *prev = NULL, *cmd = NULL; int want = -1; char **av = nx_mem((8 + 3) * sizeof *av); int ac = 0; av[ac++] = nx_dup("prog"); nx_note("levels %zu selected %zu:", depth, sel);
    argus_option_t *subs[8 + 1] = {0};
    for (size_t d = 0; d <= depth; d++) {
        argus_option_t *t = nx_mem(5 * sizeof *t), *o = t; argus_option_t h = HELP_OPTION(); *o++ = h; if (!d) root = t; else prev->sub_options = t;
        if (d < depth) {
            bool two = nx_chance(1, 2); if (two) { argus_option_t x = SUBCOMMAND("other", NULL, HELP("o")); *o = x; o->flags |= nx_marks(); o->action = acts[nx_below(7)]; argus_option_t *e = nx_mem(2 * sizeof *e); e[0] = h; e[1] = nx_end(); o->sub_options = e; o++; }
            argus_option_t s = SUBCOMMAND("n", NULL, HELP("h")); *o = s; o->flags |= nx_marks(); o->name = nx_fmt("sub%zu", d); int k = nx_chance(1, 4) ? -1 : nx_range(0, 6); o->action = k < 0 ? NULL : acts[k]; nx_note(" %d", k); if (d < sel) { av[ac++] = nx_dup(o->name); cmd = o; want = k; } subs[d] = prev = o; o++;
        }
        *o = nx_end();
    }
    av[ac] = NULL; A = argus_init(root, "prog", "1"); calls = 0; which = ""; ret = nx_range(-3, 60); bool hand = nx_chance(1, 3);
    if (hand) { A.subcommand_depth = sel; for (size_t i = 0; i < sel; i++) A.subcommand_stack[i] = subs[i]; } else { int s = argus_parse(&A, ac, av); if (s) { nx_note(" parse %d", s); nx_fail("the command line does not parse"); } }
    if (sel > 1) nx_mark();
    NX_CHECK(argus_has_command(&A) == (sel > 0), "argus_has_command"); NX_CHECK(calls == 0, "an action ran before argus_exec");
    void *d = nx_chance(1, 3) ? NULL : (void *)data; char *out = nx_capture_out(go, d);
    if (want >= 0) { NX_CHECK(calls == 1, "%d actions ran", calls); NX_CHECK(!strcmp(which, names[want]), "the wrong action ran"); NX_CHECK(ga == &A && gd == d, "wrong arguments"); NX_CHECK(r == ret, "result %d, the action returned %d", r, ret); NX_CHECK(!*out, "printed something although an action ran"); }
    else { NX_CHECK(calls == 0, "an action ran"); NX_CHECK(r == (cmd ? ARGUS_ERROR_INVALID_HANDLER : ARGUS_ERROR_NO_COMMAND), "result %d", r); }
    argus_free(&A);
}
