#include "nx.h"
#include "argus/internal/display.h"
const char *nx_rule(void) { return "random command trees (tables of options, groups and subcommands up to four levels deep, with or without actions, own tables, help text, hidden ones), every selected command, any description column; the list a program without a runnable command prints, asked for directly or through argus_exec, and the version text are compared line by line with an independent walk over the tree; non-trivial: at least five lines"; }
static argus_t A; static int act(argus_t *a, void *d) { (void)a; (void)d; return 0; }
static char *L[4096]; static int nl;
static void line(const char *path, const char *help) { size_t n = strlen(path), c = A.helper.config.description_column; if (nl < 4096) L[nl++] = nx_fmt("  %s%*s%s%s", path, (int)(c > n + 2 ? c - n - 2 : 2), "", help ? "- " : "", help ? help : ""); }
static argus_option_t *table(int d) {
    argus_option_t h = HELP_OPTION(), sc = SUBCOMMAND("s", NULL, HELP("x")), gr = GROUP_START("g"), ge = GROUP_END(), bi = OPTION_INT('b', "bb", HELP("x")); int n = nx_range(0, nx_chance(1, 4) ? 9 : 4); argus_option_t *t = nx_mem((n + 1) * sizeof *t);
    for (int i = 0; i < n; i++) switch (nx_range(0, 9)) { case 0: t[i] = h; break; case 1: t[i] = gr; break; case 2: t[i] = ge; break; case 3: t[i] = bi; break;
        default: t[i] = sc; t[i].name = nx_name("stab-", 1, 6); t[i].help = nx_chance(1, 6) ? NULL : nx_word("ab% ", 0, 12); t[i].action = nx_chance(2, 5) ? NULL : act; t[i].sub_options = d < 3 && nx_chance(3, 5) ? table(d + 1) : NULL; if (nx_chance(1, 8)) t[i].flags |= nx_chance(1, 2) ? FLAG_HIDDEN : FLAG_DEPRECATED; }
    t[n] = nx_end(); return t;
}
static bool runs(const argus_option_t *o) { return o->type == TYPE_SUBCOMMAND && o->action; }
static bool family(const argus_option_t *o) { if (o->sub_options) for (int i = 0; o->sub_options[i].type; i++) if (runs(&o->sub_options[i])) return true; return false; }
static void below(const argus_option_t *t, const char *base) { for (int i = 0; t && t[i].type; i++) if (t[i].type == TYPE_SUBCOMMAND) { char *p = nx_fmt("%s %s", base, t[i].name); line(p, t[i].help); below(t[i].sub_options, p); } }
static const argus_option_t *S; static int r; static void list(void *p) { if (p) r = argus_exec(&A, NULL); else if (S) display_available_subcommands(&A, S); else display_all_commands(&A); }
static argus_option_t o; static void version(void *p) { if (p) { r = version_handler(&A, &o, NULL); } else display_version(&A); }
static void trim(char *s) { size_t n = strlen(s); while (n && s[n - 1] == ' ') s[--n] = 0; }
static void follow(const char *text, const char **from, const char *w) { const char *p = strstr(*from, w); NX_CHECK(p, "\"%s\" is not named (in order) in \"%s\"", w, text); *from = p + strlen(w); }
void nx_case(void) {
    nx_longmax = 60; nx_mute(); A = argus_init_no_validate(table(0), "prog", "1"); if (nx_chance(1, 3)) A.program_name = nx_name("xyz", 1, 8); A.helper.config.description_column = nx_chance(1, 3) ? nx_range(0, 60) : DEFAULT_DESCRIPTION_COLUMN;
    if (nx_chance(1, 8)) {
        A.version = nx_chance(1, 3) ? NULL : nx_word("01.%v", 0, 6); A.description = nx_chance(1, 3) ? NULL : nx_word("ab% \n", 0, 30); nx_notestr("program", A.program_name); nx_notestr(" version", A.version); nx_notestr(" description", A.description); if (A.version && A.description) nx_mark(); o = (argus_option_t)VERSION_OPTION();
        bool h = nx_chance(1, 2); r = 0; char *out = nx_capture_out(version, h ? &A : NULL), *e = nx_fmt("%s%s%s\n%s%s%s", A.program_name, A.version ? " v" : "", A.version ? A.version : "", A.description ? "\n" : "", A.description ? A.description : "", A.description ? "\n" : ""); NX_CHECK(!strcmp(out, e), "version text \"%s\", expected \"%s\"", out, e); NX_CHECK(r == 0, "result %d", r); return;
    }
    const argus_option_t *t = A.options; S = NULL; A.subcommand_depth = 0;
    while (nx_chance(2, 3) && A.subcommand_depth < MAX_SUBCOMMAND_DEPTH) { const argus_option_t *c[16]; int n = 0; for (int i = 0; t && t[i].type; i++) if (t[i].type == TYPE_SUBCOMMAND) c[n++] = &t[i]; if (!n) break; S = c[nx_below(n)]; A.subcommand_stack[A.subcommand_depth++] = S; t = S->sub_options; }
    nl = 0; if (S) below(S->sub_options, S->name);
    else { t = A.options; for (int i = 0; t[i].type; i++) if (runs(&t[i]) && !family(&t[i])) line(nx_fmt("%s %s", A.program_name, t[i].name), t[i].help);
        for (int i = 0; t[i].type; i++) if (t[i].type == TYPE_SUBCOMMAND && family(&t[i])) { if (t[i].action) line(nx_fmt("%s %s", A.program_name, t[i].name), t[i].help); for (int j = 0; t[i].sub_options[j].type; j++) if (runs(&t[i].sub_options[j])) line(nx_fmt("%s %s %s", A.program_name, t[i].name, t[i].sub_options[j].name), t[i].sub_options[j].help); } }
    nx_notestr("program", A.program_name); nx_note(" selected"); for (size_t i = 0; i < A.subcommand_depth; i++) nx_notestr("", A.subcommand_stack[i]->name); nx_note(" column %zu:", A.helper.config.description_column); for (int i = 0; i < nl; i++) { trim(L[i]); nx_note(" |%s", L[i]); } if (nl > 4) nx_mark();
    bool ex = nx_chance(1, 2) && !(S && S->action); r = 0; char *out = nx_capture_out(list, ex ? &A : NULL); if (ex) NX_CHECK(r != 0, "argus_exec reports success although nothing ran");
    char *q = nx_dup(out); int k = 0; for (char *p = q; *p;) { char *e = strchr(p, '\n'); NX_CHECK(e, "the last line does not end"); *e = 0; if (p[0] == ' ' && p[1] == ' ') { trim(p); NX_CHECK(k < nl, "a line too many: \"%s\"", p); NX_CHECK(!strcmp(p, L[k]), "line \"%s\", expected \"%s\"", p, L[k]); k++; } p = e + 1; } NX_CHECK(k == nl, "\"%s\" is not listed", L[k]);
    if (S) { const char *f = out; follow(out, &f, S->name); if (nl) { f = strstr(f, L[nl - 1] + 2); NX_CHECK(f, "list out of order"); f += strlen(L[nl - 1]) - 2; } char *c = nx_dup(A.program_name); for (size_t i = 0; i < A.subcommand_depth; i++) c = nx_fmt("%s %s", c, A.subcommand_stack[i]->name); follow(out, &f, c); }
    else { const char *f = out; if (nl) { f = strstr(f, L[nl - 1]); NX_CHECK(f, "list out of order"); f += strlen(L[nl - 1]); } follow(out, &f, A.program_name); }
}
