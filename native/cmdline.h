/* Random command lines over random tables, compared with a reference
 * interpreter written from the property texts (P01-P05, P10). */
#include "nx.h"
enum { EV_HANDLER, EV_PRE, EV_POST };
typedef struct { int kind; argus_option_t *o; const void *v; size_t idx; } ev_t;
static ev_t lg[4096], want[4096]; static size_t nlg, nwant;
static size_t fail_handler_at; static int fail_handler_status; static size_t nhandler;
static size_t fail_pre_at; static int fail_pre_status; static size_t npre;
static void add(ev_t *l, size_t *n, int k, argus_option_t *o, const void *v, size_t i) { if (*n < 4096) l[(*n)++] = (ev_t){k, o, v, i}; }
static argus_option_t *cur_opt; /* unused by the library */
static int rec_handler(argus_t *a, argus_option_t *o, char *v) {
    (void)a; add(lg, &nlg, EV_HANDLER, o, v, 0);
    if (o->is_set && o->line == 0) o->line = -1; /* set before its handler ran at all */
    if (++nhandler == fail_handler_at) return fail_handler_status;
    o->line++;
    return ARGUS_SUCCESS;
}
static int rec_pre(argus_t *a, void *v, validator_data_t d) {
    (void)a; add(lg, &nlg, EV_PRE, NULL, v, (size_t)d.custom);
    if (++npre == fail_pre_at) return fail_pre_status;
    return ARGUS_SUCCESS;
}
static int rec_post(argus_t *a, void *o, validator_data_t d) {
    (void)a; add(lg, &nlg, EV_POST, o, NULL, (size_t)d.custom);
    return ARGUS_SUCCESS;
}
typedef struct { int max_opt, max_pos, max_sub, max_depth; bool validators, failures, exits, longnames; const char *names; bool prefixes, deep; } gen_t;
static gen_t G;
static size_t entries;
/* subcommands that lead back to a table they are nested in */
static struct { argus_option_t *e, *t; } loops[256]; static size_t nloops; static argus_option_t *path[64];
static argus_option_t *gen_table(int depth) {
    int no = nx_range(0, G.max_opt), np = 0, ns = 0;
    if (depth < G.max_depth && (G.deep || nx_chance(2, 3))) ns = nx_range(1, G.max_sub);
    if (ns == 0 || nx_chance(1, 3)) np = nx_range(0, G.max_pos);
    size_t n = (size_t)(no + np + ns), k = 0;
    argus_option_t *o = nx_mem((n + 1) * sizeof *o);
    int order = nx_range(0, 2);
    nx_note("{");
    for (int i = 0; i < no + np + ns; i++) {
        int kind = i < no ? 0 : i < no + np ? 1 : 2;
        if (order == 1) kind = i < ns ? 2 : i < ns + no ? 0 : 1; /* unusual orders, too */
        if (order == 2) kind = i < np ? 1 : i < np + no ? 0 : 2;
        argus_option_t *e = &o[k++];
        memset(e, 0, sizeof *e);
        e->handler = rec_handler; e->free_handler = default_free;
        if (kind == 0) {
            e->type = TYPE_OPTION;
            e->lname = nx_chance(1, 6) ? NULL : nx_name(G.names, 1, 3);
            if (e->lname && G.longnames && nx_chance(1, 3)) e->lname = nx_fmt("%s%s", nx_word("a", 55 + nx_below(20), 75), nx_word("ab", 0, 2));
            e->sname = nx_chance(1, 6) ? 0 : "abcxyz12\xe1\xb1\x81"[nx_chance(1, 8) ? nx_below(11) : nx_below(8)];
            e->value_type = (argus_valtype_t[]){VALUE_TYPE_FLAG, VALUE_TYPE_FLAG, VALUE_TYPE_STRING, VALUE_TYPE_INT, VALUE_TYPE_BOOL, VALUE_TYPE_CUSTOM, VALUE_TYPE_ARRAY_INT, VALUE_TYPE_MAP_INT, VALUE_TYPE_FLOAT}[nx_below(9)];
            e->name = e->lname ? e->lname : nx_fmt("%c", e->sname ? e->sname : '?');
            if (G.exits && nx_chance(1, 10)) e->flags |= FLAG_EXIT;
            e->flags |= nx_marks();
            if (G.failures && nx_chance(1, 40)) e->handler = NULL;
        } else if (kind == 1) {
            e->type = TYPE_POSITIONAL; e->name = nx_name(G.names, 1, 3);
            e->value_type = (argus_valtype_t[]){VALUE_TYPE_STRING, VALUE_TYPE_INT, VALUE_TYPE_FLOAT, VALUE_TYPE_BOOL, VALUE_TYPE_VARIADIC_STRING, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_VARIADIC_FLOAT}[nx_below(nx_chance(1, 3) ? 7 : 4)];
        } else {
            e->type = TYPE_SUBCOMMAND; e->handler = NULL; e->free_handler = NULL;
            e->name = G.prefixes ? nx_name(G.names, 1, 4) : nx_fmt("%s%d", nx_name(G.names, 1, 1), i);
            e->help = "h"; e->flags |= nx_marks();
        }
        if (kind != 2 && G.validators && nx_chance(1, 2)) {
            int nv = nx_range(1, 4);
            validator_entry_t **v = nx_mem((size_t)(nv + 1) * sizeof *v);
            nx_note("v");
            for (int j = 0; j < nv; j++) {
                v[j] = nx_mem(sizeof **v);
                bool pre = nx_chance(1, 2);
                *v[j] = (validator_entry_t){.func = pre ? rec_pre : rec_post, .order = pre ? ORDER_PRE : ORDER_POST, .data.custom = (uintptr_t)(entries * 16 + (size_t)j)};
                nx_note("%c", pre ? '<' : '>');
            }
            e->validators = v;
        }
        entries++;
        nx_note("%s", (const char *[]){"", "opt", "grp", "pos", "sub"}[e->type]);
        nx_notestr(" ", e->type == TYPE_OPTION ? e->lname : e->name);
        if (e->type == TYPE_OPTION && e->sname) nx_note("-%c ", e->sname);
        if (e->type != TYPE_SUBCOMMAND) nx_note("%x%s%s; ", e->value_type, e->flags & FLAG_EXIT ? " exit" : "", e->handler ? "" : " nohandler");
        if (e->type == TYPE_SUBCOMMAND) { path[depth] = o; e->sub_options = NULL; if (G.deep && nx_chance(1, 12)) { loops[nloops].e = e; loops[nloops++].t = path[nx_below((size_t)depth + 1)]; nx_note("again "); } else if (k > 1 && o[k - 2].type == TYPE_SUBCOMMAND && nx_chance(1, 8)) { e->sub_options = o[k - 2].sub_options; nx_note("alias "); } else e->sub_options = gen_table(depth + 1); }
    }
    o[k] = nx_end();
    nx_note("} ");
    return o;
}
/* ---- reference ---- */
typedef struct { argus_option_t *stack[64]; size_t depth; } act_t;
static act_t W; static int w_exit;
static size_t w_nhandler, w_npre;
static argus_option_t *set_list[4096]; static size_t nset;
static int w_apply(argus_option_t *o, const char *v) {
    if (!o->handler) return ARGUS_ERROR_INVALID_HANDLER;
    for (size_t i = 0; o->validators && o->validators[i]; i++) if (o->validators[i]->order == ORDER_PRE) {
        add(want, &nwant, EV_PRE, NULL, v, (size_t)o->validators[i]->data.custom);
        if (++w_npre == fail_pre_at) return fail_pre_status;
    }
    add(want, &nwant, EV_HANDLER, o, v, 0);
    if (++w_nhandler == fail_handler_at) return fail_handler_status;
    if (nset < 4096) set_list[nset++] = o;
    return o->flags & FLAG_EXIT ? ARGUS_SHOULD_EXIT : ARGUS_SUCCESS;
}
static argus_option_t *w_pos(argus_option_t *t, int p) {
    int r = 0;
    for (; t->type != TYPE_NONE; t++) if (t->type == TYPE_POSITIONAL) {
        if ((t->value_type & VALUE_TYPE_VARIADIC) || r == p) return t;
        r++;
    }
    return NULL;
}
static int w_args(argus_option_t *t, int argc, char **argv) {
    int pos = 0; bool only = false;
    for (int i = 0; i < argc; i++) {
        char *a = argv[i]; size_t len = strlen(a); int st;
        if (!only && !strcmp(a, "--")) { only = true; continue; }
        bool positional = only;
        if (!positional && len >= 2 && a[0] == '-' && a[1] == '-') {
            char *eq = strchr(a, '='); size_t nl = eq ? (size_t)(eq - a) - 2 : len - 2;
            argus_option_t *o = NULL;
            for (argus_option_t *e = t; e->type != TYPE_NONE && !o; e++)
                if (e->type == TYPE_OPTION && e->lname && strlen(e->lname) == nl && !memcmp(e->lname, a + 2, nl)) o = e;
            if (!o) return ARGUS_ERROR_INVALID_ARGUMENT;
            char *v = NULL;
            if (o->value_type != VALUE_TYPE_FLAG) {
                if (eq) v = eq + 1; else if (i + 1 < argc) v = argv[++i]; else return ARGUS_ERROR_MISSING_VALUE;
            }
            if ((st = w_apply(o, v))) return st;
            continue;
        }
        if (!positional && a[0] == '-') {
            bool num = (a[1] >= '0' && a[1] <= '9') || (a[1] == '.' && a[2] >= '0' && a[2] <= '9');
            argus_option_t *p = num ? w_pos(t, pos) : NULL;
            if (p && (p->value_type & (VALUE_TYPE_INT | VALUE_TYPE_FLOAT | VALUE_TYPE_VARIADIC_INT | VALUE_TYPE_VARIADIC_FLOAT))) positional = true;
            else {
                for (size_t j = 1; j < len; j++) {
                    argus_option_t *o = NULL;
                    for (argus_option_t *e = t; e->type != TYPE_NONE && !o; e++) if (e->type == TYPE_OPTION && e->sname == a[j]) o = e;
                    if (!o) return ARGUS_ERROR_INVALID_ARGUMENT;
                    if (o->value_type == VALUE_TYPE_FLAG) { if ((st = w_apply(o, NULL))) return st; continue; }
                    char *v;
                    if (a[j + 1]) v = a + j + 1; else if (i + 1 < argc) v = argv[++i]; else return ARGUS_ERROR_MISSING_VALUE;
                    if ((st = w_apply(o, v))) return st;
                    break;
                }
                continue;
            }
        }
        if (!positional) {
            argus_option_t *s = NULL; int k = 0;
            for (argus_option_t *e = t; e->type != TYPE_NONE && !s; e++) if (e->type == TYPE_SUBCOMMAND && !strcmp(e->name, a)) s = e;
            if (!s && len) {
                for (argus_option_t *e = t; e->type != TYPE_NONE; e++) if (e->type == TYPE_SUBCOMMAND && !strncmp(e->name, a, len)) { s = e; k++; }
                if (k > 1) return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
            }
            if (s) {
                if (W.depth >= 8 /* the supported maximum */) return ARGUS_ERROR_STACK_OVERFLOW;
                W.stack[W.depth++] = s;
                return w_args(s->sub_options, argc - i - 1, argv + i + 1);
            }
        }
        argus_option_t *p = w_pos(t, pos++);
        if (!p) return ARGUS_ERROR_INVALID_ARGUMENT;
        if ((st = w_apply(p, a))) return st;
    }
    return ARGUS_SUCCESS;
}
/* ---- random argument vectors, steered by the table ---- */
static char *gen_token(argus_option_t *t, bool *stop_sub) {
    size_t n = 0; while (t[n].type != TYPE_NONE) n++;
    (void)stop_sub;
    int kind = nx_range(0, 11);
    argus_option_t *e = n ? &t[nx_below(n)] : NULL;
    const char *val = nx_chance(1, 4) ? "" : nx_word("ab=-1.", 0, 4);
    if (kind <= 2 && e) {
        const char *ln = e->lname ? e->lname : e->name;
        if (nx_chance(1, 8)) ln = nx_fmt("%s%s", ln, nx_word("ab=", 1, 1));
        if (nx_chance(1, 10)) { char *c = nx_dup(ln); if (*c) c[strlen(c) - 1] = 0; ln = c; }
        return nx_chance(1, 2) ? nx_fmt("--%s=%s", ln, val) : nx_fmt("--%s", ln);
    }
    if (kind <= 5) {
        char b[400]; size_t k = 0; b[k++] = '-';
        int len = nx_chance(1, 20) ? (nx_chance(1, 6) ? nx_range(240, 300) : 40) : nx_range(1, 5); bool vals = len < 60 || nx_chance(1, 4);
        for (int i = 0; i < len; i++) {
            char c = 0;
            for (int tr = 0; tr < 4 && !c; tr++) { argus_option_t *q = n ? &t[nx_below(n)] : NULL; if (q && q->type == TYPE_OPTION && q->sname && (q->value_type == VALUE_TYPE_FLAG || (vals && nx_chance(1, 2)))) c = q->sname; }
            if ((!c && k > 1 && !vals && b[k - 1] != '-')) c = b[k - 1]; else if (!c || (vals && nx_chance(1, 15))) c = "abcxyz12q-=."[nx_below(12)];
            b[k++] = c;
        }
        b[k] = 0;
        return nx_dup(b);
    }
    if (kind == 6) return nx_dup("--");
    if (kind == 7) return nx_fmt("-%s%s", nx_word("0123456789.", 1, 2), nx_word("0123456789.ab", 0, 2));
    if (kind <= 9 && e) {
        char *c = nx_dup(e->name);
        if (nx_chance(1, 3)) c[nx_below(strlen(c) + 1)] = 0;
        if (nx_chance(1, 8)) c = nx_fmt("%s%s", c, nx_word(G.names, 1, 1));
        return c;
    }
    return nx_dup(val);
}
static void mark_clear(argus_option_t *t) { (void)t; }
static void run_cmdline(void) {
    nlg = nwant = nhandler = npre = w_nhandler = w_npre = nset = entries = 0; W.depth = 0;
    fail_handler_at = fail_pre_at = 0;
    nloops = 0;
    argus_option_t *t = gen_table(0);
    for (size_t i = 0; i < nloops; i++) loops[i].e->sub_options = loops[i].t;
    if (G.failures && nx_chance(1, 4)) { fail_handler_at = 1 + nx_below(4); fail_handler_status = nx_chance(1, 2) ? ARGUS_ERROR_INVALID_VALUE : ARGUS_ERROR_INVALID_FORMAT; }
    if (G.failures && nx_chance(1, 4)) { fail_pre_at = 1 + nx_below(5); fail_pre_status = nx_chance(1, 2) ? ARGUS_ERROR_INVALID_RANGE : ARGUS_ERROR_INVALID_VALUE; }
    int n = G.deep ? nx_range(6, 12) : nx_chance(1, 12) ? nx_range(8, 40) : nx_range(0, 7);
    char **argv = nx_mem((size_t)(n + 2) * sizeof *argv);
    argv[0] = nx_dup("prog");
    argus_option_t *cur = t; int depth = 0;
    nx_note("args: ");
    for (int i = 0; i < n; i++) {
        char *a = NULL; bool dummy;
        do a = gen_token(cur, &dummy); while (!strcmp(a, "-"));
        if (G.deep && nx_chance(39, 40)) for (argus_option_t *e = cur; e->type != TYPE_NONE; e++) if (e->type == TYPE_SUBCOMMAND) { a = nx_dup(e->name); break; }
        argv[i + 1] = a; nx_notestr("", a);
        /* follow a selected subcommand so that later tokens fit its table */
        for (argus_option_t *e = cur; e->type != TYPE_NONE; e++) if (e->type == TYPE_SUBCOMMAND && !strcmp(e->name, a) && (G.deep || nx_chance(3, 4))) { cur = e->sub_options; depth++; break; }
    }
    if (fail_handler_at) nx_note("handler call %zu fails with %d ", fail_handler_at, fail_handler_status);
    if (fail_pre_at) nx_note("pre-check call %zu fails with %d ", fail_pre_at, fail_pre_status);
    if (n >= 2 && t[0].type != TYPE_NONE) nx_mark();
    int ws = w_args(t, n, argv + 1);
    static argus_t a; a = argus_init_no_validate(t, "prog", "1");
    char **av2 = nx_mem((size_t)(n + 2) * sizeof *av2), **txt = nx_mem((size_t)(n + 2) * sizeof *txt);
    for (int i = 0; i <= n; i++) { av2[i] = argv[i]; txt[i] = nx_dup(argv[i]); }
    nx_mute();
    int st;
    struct { argus_t *a; int n; char **v; int *st; } arg = {&a, n + 1, argv, &st};
    void callp(void *x);
    st = -1;
    extern int parse_status; parse_status = -1;
    bool ex = nx_exits(callp, &arg);
    st = parse_status;
    if (ws == ARGUS_SHOULD_EXIT) NX_CHECK(ex && nx_exit_code == 0, "exit option: expected exit(0), got status %d%s", st, ex ? " (exit)" : "");
    else {
        NX_CHECK(!ex, "unexpected exit");
        NX_CHECK(st == ws, "status %d, expected %d", st, ws);
        NX_CHECK(a.error_code == ws, "error code %d, expected %d", a.error_code, ws);
    }
    size_t np = nlg; while (np > nwant && lg[np - 1].kind == EV_POST) np--;
    for (size_t i = 0; i < np || i < nwant; i++) {
        NX_CHECK(i < np, "step %zu missing: %s of '%s' with '%s'", i, want[i].kind == EV_HANDLER ? "handler" : "pre-check", want[i].o ? want[i].o->name : "", want[i].v ? (const char *)want[i].v : "NULL");
        NX_CHECK(i < nwant, "extra step %zu: kind %d of '%s'", i, lg[i].kind, lg[i].kind == EV_HANDLER ? lg[i].o->name : "");
        NX_CHECK(lg[i].kind == want[i].kind && lg[i].o == want[i].o && lg[i].idx == want[i].idx, "step %zu: kind %d option '%s', expected kind %d option '%s'", i, lg[i].kind, lg[i].o && lg[i].kind == EV_HANDLER ? lg[i].o->name : "-", want[i].kind, want[i].o ? want[i].o->name : "-");
        NX_CHECK(lg[i].v == want[i].v, "step %zu ('%s'): value '%s', expected '%s'", i, want[i].o ? want[i].o->name : "-", lg[i].v ? (const char *)lg[i].v : "NULL", want[i].v ? (const char *)want[i].v : "NULL");
    }
    for (int i = 0; i <= n; i++) NX_CHECK(argv[i] == av2[i] && !strcmp(argv[i], txt[i]), "argument %d was modified", i);
    NX_CHECK(a.subcommand_depth == W.depth, "%zu active subcommands, expected %zu", a.subcommand_depth, W.depth);
    for (size_t i = 0; i < W.depth; i++) NX_CHECK(a.subcommand_stack[i] == W.stack[i], "active subcommand %zu differs", i);
    /* exactly the applied options are marked */
    argus_option_t *levels[64]; size_t nl = 0; levels[nl++] = t;
    for (size_t i = 0; i < W.depth; i++) levels[nl++] = W.stack[i]->sub_options;
    for (size_t l = 0; l < nl; l++)
        for (argus_option_t *e = levels[l]; e->type != TYPE_NONE; e++) {
            bool w = false;
            for (size_t i = 0; i < nset && !w; i++) w = set_list[i] == e;
            for (size_t i = 0; i < W.depth && !w; i++) w = W.stack[i] == e;
            NX_CHECK(e->is_set == w, "'%s' is%s marked as set", e->name, e->is_set ? "" : " not");
            NX_CHECK(e->line >= 0, "'%s' was marked as set before its handler ran", e->name);
        }
}
int parse_status;
void callp(void *x) { struct { argus_t *a; int n; char **v; int *st; } *p = x; parse_status = argus_parse(p->a, p->n, p->v); }
