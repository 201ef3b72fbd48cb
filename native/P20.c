#include "nx.h"
#include <sys/stat.h>
#include <unistd.h>
#include <unistd.h>
const char *nx_rule(void) { return "tables of up to 12 definitions of every kind nested up to three deep (some up to nine), in which any number of the rules (0 to 3, often exactly one) is broken at any place by a random change of a well-formed table; the outcome of the definition check is compared with a reference of the rules, and a failing check must have written a report; non-trivial: at least three definitions"; }
static int okc(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; (void)d; return ARGUS_SUCCESS; }
static int badc(argus_t *a, void *o, validator_data_t d) { (void)a; (void)o; (void)d; return ARGUS_ERROR_INVALID_VALUE; }
static char *nm(void) { return nx_name("abcd", 1, 3); }
static size_t seq;
static argus_option_t *table(int d, int deep) {
    size_t no = nx_below(5), ns = d < 3 || deep > d ? nx_below(3) + (deep > d) : 0, np = ns ? 0 : nx_below(4); argus_option_t *t = nx_mem((no + ns + np + 8) * sizeof *t), *o = t; bool many = np && nx_chance(1, 4), opt = nx_chance(1, 2);
    argus_option_t h = HELP_OPTION(); if (nx_chance(1, 3)) { argus_option_t g = GROUP_START("general"); *o++ = g; }
    *o++ = h;
    for (size_t i = 0; i < no; i++, o++) {
        switch (nx_below(4)) { case 0: { argus_option_t p = OPTION_FLAG('z', "n", HELP("x")); *o = p; break; } case 1: { argus_option_t p = OPTION_STRING('z', "n", HELP("x")); *o = p; break; } case 2: { argus_option_t p = OPTION_INT('z', "n", HELP("x"), FLAGS(FLAG_REQUIRED)); *o = p; break; } default: { argus_option_t p = OPTION_ARRAY_INT('z', "n", HELP("x"), FLAGS(FLAG_SORTED)); *o = p; } }
        o->sname = nx_chance(1, 4) ? 0 : (char)('A' + i); o->lname = o->name = nx_fmt("o%zu%s", seq++, nm()); if (nx_chance(1, 6) && o->sname) { o->lname = NULL; o->name = nx_fmt("%c", o->sname); }
        if (nx_chance(1, 6)) { argus_option_t g = GROUP_START("grp"); g.flags = nx_chance(1, 2) ? FLAG_EXCLUSIVE : 0; *++o = g; if (nx_chance(1, 2)) { argus_option_t e = GROUP_END(); *++o = e; } break; }
        if (nx_chance(1, 4)) { validator_entry_t **v = nx_mem(3 * sizeof *v); v[0] = nx_mem(sizeof **v); *v[0] = (validator_entry_t){.func = okc, .order = nx_chance(1, 2) ? ORDER_PRE : ORDER_POST}; o->validators = v; }
        if (o->value_type != VALUE_TYPE_FLAG && nx_chance(1, 4)) { o->have_default = o->is_set = true; if (o->value_type == VALUE_TYPE_STRING) o->value.as_string = o->default_value.as_string = "dflt"; }
    }
    for (size_t i = 0; i < np; i++, o++) {
        bool last = i + 1 == np; if (many && last) { argus_option_t p = POSITIONAL_MANY_INT("n", HELP("x")); *o = p; if (nx_chance(1, 2)) o->flags = FLAG_SORTED; } else { argus_option_t p = POSITIONAL_STRING("n", HELP("x")); *o = p; if (!many && opt && (last || (i && !(o[-1].flags & FLAG_REQUIRED)))) o->flags = FLAG_OPTIONAL; }
        o->name = nx_fmt("p%zu%s", seq++, nm());
    }
    for (size_t i = 0; i < ns; i++, o++) { argus_option_t s = SUBCOMMAND("n", NULL, HELP("x")); *o = s; o->name = nx_fmt("s%zu%s", seq++, nm()); o->sub_options = table(d + 1, i ? 0 : deep); if (nx_chance(1, 4)) o->flags = FLAG_HIDDEN | FLAG_DEPRECATED; }
    for (argus_option_t *p = t; p < o; p++) if (p->type == TYPE_OPTION && nx_chance(1, 5)) { const char **r = nx_mem(3 * sizeof *r); r[0] = t[nx_below((size_t)(o - t))].name; if (!r[0]) r[0] = "help"; if (nx_chance(1, 2)) p->require = r; else p->conflict = r; }
    *o = nx_end(); return t;
}
static size_t len(argus_option_t *t) { size_t n = 0; while (t[n].type != TYPE_NONE) n++; return n; }
/* reference of the rules, one function per group of rules */
static const char *placed(argus_option_t *t, size_t n) {
    bool sub = false, help = false;
    for (size_t i = 0; i < n; i++) { if (t[i].type == TYPE_SUBCOMMAND) sub = true; if (t[i].type == TYPE_OPTION && t[i].name && !strcmp(t[i].name, "help")) help = true; }
    if (!help) return "no help option";
    for (size_t i = 0; i < n; i++) {
        argus_option_t *o = &t[i]; bool pos = o->type == TYPE_POSITIONAL, var = pos && (o->value_type & VALUE_TYPE_VARIADIC), req = (o->flags & FLAG_REQUIRED) != 0;
        if (pos && sub) return "positional next to subcommands";
        for (size_t j = 0; j < n; j++) { argus_option_t *q = &t[j]; bool qpos = q->type == TYPE_POSITIONAL, qvar = qpos && (q->value_type & VALUE_TYPE_VARIADIC);
            if (j < i && o->type == TYPE_OPTION && q->type == TYPE_SUBCOMMAND) return "option after subcommand";
            if (j < i && pos && req && qpos && !qvar && !(q->flags & FLAG_REQUIRED)) return "required after optional";
            if (j < i && pos && qvar) return "positional after variadic"; if (qvar && pos && !var && !req) return "optional beside variadic"; }
    }
    return NULL;
}
static const char *named(argus_option_t *t, size_t n, size_t i) {
    argus_option_t *o = &t[i];
    for (size_t j = 0; j < n; j++) { argus_option_t *q = &t[j]; if (j < i && o->sname && o->sname == q->sname) return "short name twice"; if (j > i && o->lname && ((q->lname && !strcmp(o->lname, q->lname)) || (q->name && !strcmp(o->lname, q->name)))) return "long name twice"; }
    if (o->type != TYPE_GROUP && (!o->name || !*o->name)) return "no name"; if (o->sname == ' ' || o->sname == '-') return "short name";
    if (o->lname && (!*o->lname || *o->lname == '-' || strchr(o->lname, ' ') || strchr(o->lname, '.'))) return "long name";
    return NULL;
}
static const char *complete(argus_option_t *t, size_t n, size_t i) {
    argus_option_t *o = &t[i]; bool pos = o->type == TYPE_POSITIONAL, var = pos && (o->value_type & VALUE_TYPE_VARIADIC), req = (o->flags & FLAG_REQUIRED) != 0;
    if (o->type == TYPE_GROUP && (o->flags & ~FLAG_EXCLUSIVE)) return "group flags";
    if (o->type == TYPE_SUBCOMMAND && (!o->help || !o->sub_options || o->handler || o->require || o->conflict || o->have_default || o->validators || (o->flags & ~(FLAG_HIDDEN | FLAG_ADVANCED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))) return "subcommand";
    if (pos) { if (!o->help || !o->handler || o->require || o->conflict || (req && o->have_default)) return "positional"; if (o->flags & ~(var ? (FLAG_REQUIRED | FLAG_SORTED | FLAG_UNIQUE | FLAG_DEPRECATED | FLAG_EXPERIMENTAL) : FLAG_REQUIRED)) return "positional flags"; }
    if (o->type == TYPE_OPTION) { if (!o->help || !o->handler || (!o->sname && !o->lname)) return "option";
        for (size_t a = 0; o->require && o->require[a]; a++) { bool f = false; for (size_t j = 0; j < n; j++) if (t[j].name && !strcmp(t[j].name, o->require[a])) f = true; if (!f) return "requires nothing"; for (size_t b = 0; o->conflict && o->conflict[b]; b++) if (!strcmp(o->require[a], o->conflict[b])) return "requires and conflicts"; }
        for (size_t b = 0; o->conflict && o->conflict[b]; b++) { bool f = false; for (size_t j = 0; j < n; j++) if (t[j].name && !strcmp(t[j].name, o->conflict[b])) f = true; if (!f) return "conflicts with nothing"; } }
    if ((pos || o->type == TYPE_OPTION) && o->have_default) { if (o->value_type == VALUE_TYPE_FLAG) return "flag default"; for (size_t v = 0; o->validators && o->validators[v]; v++) if (o->validators[v]->func == badc && (o->validators[v]->order == ORDER_POST || o->value_type == VALUE_TYPE_STRING)) return "default"; }
    return NULL;
}
/* the number of reports that are due at least, and one of the broken rules */
static const char *why;
static long due(argus_option_t *t, int depth) {
    size_t n = len(t); long k = 0; const char *b = placed(t, n); if (b) { k++; why = b; }
    for (size_t i = 0; i < n; i++) {
        if ((b = named(t, n, i))) { k++; why = b; } if ((b = complete(t, n, i))) { k++; why = b; }
        if (t[i].type == TYPE_SUBCOMMAND && t[i].sub_options) { if (depth >= 8) { k++; why = "too deep"; } k += due(t[i].sub_options, depth + 1); }
    }
    return k;
}
static const char **names(argus_option_t *t, argus_option_t *o, argus_option_t *q) {
    size_t k = 1 + nx_below(3), n = len(t); const char **r = nx_mem((k + 1) * sizeof *r); const char **x = o->require ? o->require : o->conflict;
    for (size_t i = 0; i < k; i++) { argus_option_t *p = i ? &t[nx_below(n)] : q; r[i] = !p->name || nx_chance(1, 10) ? nx_word("ab", nx_chance(1, 4) ? 0 : 1, 4) : p->name; if (x && nx_chance(1, 6)) { size_t m = 0; while (x[m]) m++; if (m) r[i] = nx_dup(x[nx_below(m)]); } }
    return r;
}
static void tables(argus_option_t *t, argus_option_t **l, size_t *n) { if (*n >= 60) return; l[(*n)++] = t; for (; t->type != TYPE_NONE; t++) if (t->type == TYPE_SUBCOMMAND && t->sub_options) tables(t->sub_options, l, n); }
static void mutate(argus_option_t *root) {
    argus_option_t *l[64]; size_t k = 0; tables(root, l, &k); argus_option_t *t = l[nx_below(k)]; size_t n = len(t); if (!n) return; argus_option_t *o = &t[nx_below(n)], *q = &t[nx_below(n)]; int m = nx_range(0, 27);
    nx_note("change %d at %zu/%zu; ", m, (size_t)(o - t), n);
    switch (m) {
    case 0: { argus_option_t x = *o; *o = *q; *q = x; break; } case 1: o->name = nx_chance(1, 2) ? NULL : ""; break; case 2: o->help = NULL; break; case 3: o->handler = o->handler ? NULL : string_handler; break;
    case 4: o->lname = nx_fmt("%s%s%s", nx_chance(1, 2) ? "" : "ab", nx_chance(1, 3) ? "-" : nx_chance(1, 2) ? " " : ".", nx_chance(1, 2) ? "" : "c"); break; case 5: o->sname = " -hAB.\xc1\xc2\xe8"[nx_below(9)]; break;
    case 6: if (q->lname) o->lname = nx_dup(q->lname); break; case 7: if (q->name) o->name = nx_dup(q->name); break; case 8: o->sname = q->sname; break; case 9: o->flags ^= 1u << nx_below(16); break;
    case 10: o->require = names(t, o, q); break; case 11: o->conflict = names(t, o, q); break; case 26: o->require = NULL; o->conflict = names(t, o, q); o->require = names(t, o, q); break;
    case 12: o->have_default = !o->have_default; o->value.as_string = o->default_value.as_string = "d"; break; case 13: { validator_entry_t **v = nx_mem(4 * sizeof *v); size_t c = 1 + nx_below(3); for (size_t i = 0; i < c; i++) { v[i] = nx_mem(sizeof **v); *v[i] = (validator_entry_t){.func = nx_chance(1, 2) ? badc : okc, .order = nx_chance(1, 2) ? ORDER_PRE : ORDER_POST}; } o->validators = v; if (nx_chance(1, 2)) { o->have_default = true; o->default_value.as_string = "d"; } break; }
    case 14: if (o->type == TYPE_SUBCOMMAND) o->sub_options = NULL; break; case 15: o->value_type = (argus_valtype_t[]){VALUE_TYPE_STRING, VALUE_TYPE_FLAG, VALUE_TYPE_VARIADIC_INT, VALUE_TYPE_INT, VALUE_TYPE_VARIADIC_STRING}[nx_below(5)]; break;
    case 16: if (o->type == TYPE_POSITIONAL) o->flags ^= FLAG_REQUIRED; break; case 17: if (o->conflict) o->require = o->conflict; else o->conflict = o->require; break; case 18: for (argus_option_t *p = o; p->type != TYPE_NONE; p++) *p = p[1]; break;
    case 19: if (o->name && !strcmp(o->name, "help")) o->name = "helping"; else if (t->name && t->type == TYPE_OPTION) t->name = "hel"; break; case 20: o->lname = ""; break; case 21: o->lname = NULL; break; case 22: o->sname = 0; o->lname = nx_chance(1, 2) ? NULL : o->lname; break;
    case 23: if (o->type == TYPE_POSITIONAL || o->type == TYPE_OPTION) { argus_option_t s = SUBCOMMAND("sub", NULL, HELP("x")); *o = s; argus_option_t *e = nx_mem(2 * sizeof *e); argus_option_t h = HELP_OPTION(); e[0] = h; e[1] = nx_end(); o->sub_options = e; } break;
    case 24: if (o->type != TYPE_SUBCOMMAND) { argus_option_t p = POSITIONAL_STRING("posi", HELP("x")); *o = p; } break; default: if (o->type == TYPE_GROUP) o->flags = FLAG_HIDDEN; else o->lname = nx_fmt("%s-%s", nm(), nm()); }
}
static argus_option_t *T; static argus_t A; static FILE *tf;
static void go(void *p) { (void)p; A = _argus_init_validate(T, "prog", "1", true); }
void nx_case(void) {
    nx_mute(); seq = 0; int deep = nx_chance(1, 30) ? nx_range(6, 10) : 0; T = table(0, deep); int k = nx_chance(1, 5) ? 0 : nx_chance(2, 3) ? 1 : nx_range(2, 3); for (int i = 0; i < k; i++) mutate(T);
    argus_option_t *l[64]; size_t nt = 0; tables(T, l, &nt); for (size_t i = 0; i < nt; i++) for (argus_option_t *o = l[i]; o->type != TYPE_NONE; o++) { nx_note("%d", o->type); nx_notestr(" ", o->name); } if (len(T) > 2) nx_mark();
    why = NULL; long want = due(T, 0); const char *b = want ? why : NULL; nx_note(" => %ld %s", want, b ? b : "well formed");
    bool rep = nx_chance(1, 8); if (rep) { if (!tf) tf = tmpfile(); if (tf) { rewind(tf); (void)!ftruncate(fileno(tf), 0); stderr = tf; } else rep = false; }
    struct stat e0, e1; fstat(2, &e0); nx_alloc_reset();
    bool ex = nx_exits(go, NULL); fstat(2, &e1); bool same = e0.st_ino == e1.st_ino && e0.st_dev == e1.st_dev; long pos = 0, lines = 0; if (rep) { fflush(tf); pos = ftell(tf); rewind(tf); for (long i = 0; i < pos; i++) if (getc(tf) == '\n') lines++; rewind(tf); } nx_mute();
    NX_CHECK(same, "the error output is still redirected after the check of the definition"); NX_CHECK(nx_live == 0, "%ld blocks left behind by the check of the definition", nx_live);
    if (b) { NX_CHECK(ex && nx_exit_code != 0, "accepted, although: %s", b); if (rep) { NX_CHECK(pos > 0, "nothing reported for: %s", b); NX_CHECK(lines >= want, "%ld lines of reports for %ld broken rules", lines, want); } }
    else { NX_CHECK(!ex, "rejected, although every rule holds"); if (rep) NX_CHECK(pos == 0, "a report although every rule holds"); }
}
