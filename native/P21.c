#include "nx.h"
#include "argus/internal/help.h"
#include "argus/internal/display.h"
const char *nx_rule(void) { return "random tables (up to two levels of subcommands, options in groups that close, reopen and repeat names, hidden ones, optional and variadic positionals) with every active stack and display configuration; help and usage are compared with an independent rendering; non-trivial: at least six entries with a group and a hidden one"; }
static argus_t A; static char *E; static size_t en, ec;
static void ad(const char *s) { size_t n = strlen(s); if (en + n + 1 > ec) { ec = 2 * (en + n) + 64; char *q = nx_mem(ec); if (en) memcpy(q, E, en); E = q; } memcpy(E + en, s, n + 1); en += n; }
static const argus_option_t *ACT; static int how;
static void help(void *p) { (void)p; if (how == 0) argus_print_help(&A); else display_help(&A, ACT); }
static void usage(void *p) { (void)p; if (how == 0) argus_print_usage(&A); else display_usage(&A, ACT); }
static char *wrap(const char *t, size_t ind, size_t lw) { size_t w = lw > ind + 2 ? lw - ind - 2 : 1, n = strlen(t), k = 0; char *e = nx_mem((n + 2) * (ind + 5)); size_t m = 0;
    while (k < n) { size_t end = k, sp = 0; while (end < n && end - k < w) { if ((t[end] == ' ') && end > k) sp = end; end++; } size_t next; if (end == n) next = n; else { if ((t[end] == ' ')) sp = end; if (sp) { end = sp; next = sp + 1; } else next = end; } memcpy(e + m, t + k, end - k); m += end - k; if (end < n) { e[m++] = '\n'; if (next < n) { memset(e + m, ' ', ind + 2); m += ind + 2; } } k = next; } e[m] = 0; return e; }
static void line(const char *nm, const argus_option_t *o) { size_t ind = A.helper.config.option_indent, col = A.helper.config.description_column, w = ind + strlen(nm); ad(nx_fmt("%*s%s", (int)ind, "", nm)); size_t pad = col > w ? col - w : 2; if (pad < 4) ad(nx_fmt("\n%*s", (int)col, "")); else ad(nx_fmt("%*s", (int)pad, "")); ad("- ");
    char *d = nx_fmt("%s%s%s", o->help ? o->help : "", o->flags & FLAG_EXIT ? " (exit)" : "", o->flags & FLAG_REQUIRED ? " (required)" : ""); ad(wrap(d, col, A.helper.config.max_line_width)); ad("\n"); }
static const struct { int t; const char *n; } VT[] = {{VALUE_TYPE_INT, "NUM"}, {VALUE_TYPE_STRING, "STR"}, {VALUE_TYPE_FLOAT, "FLOAT"}, {VALUE_TYPE_BOOL, "BOOL"}, {VALUE_TYPE_ARRAY_INT, "NUM"}, {VALUE_TYPE_ARRAY_STRING, "STR"}, {VALUE_TYPE_ARRAY_FLOAT, "FLOAT"}, {VALUE_TYPE_MAP_INT, "NUM"}, {VALUE_TYPE_MAP_STRING, "STR"}, {VALUE_TYPE_MAP_FLOAT, "FLOAT"}, {VALUE_TYPE_MAP_BOOL, "BOOL"}, {VALUE_TYPE_VARIADIC_INT, "NUM"}, {VALUE_TYPE_VARIADIC_STRING, "STR"}, {VALUE_TYPE_VARIADIC_FLOAT, "FLOAT"}, {VALUE_TYPE_CUSTOM, "VALUE"}};
static void opt(const argus_option_t *o) { char *n = o->sname ? nx_fmt("-%c%s%s%s", o->sname, o->lname ? ", " : "", o->lname ? "--" : "", o->lname ? o->lname : "") : nx_fmt("--%s", o->lname); if (o->value_type != VALUE_TYPE_FLAG) { const char *b = "VALUE"; for (int i = 0; i < 15; i++) if (o->value_type == VT[i].t) b = VT[i].n; n = nx_fmt("%s <%s%s%s>", n, o->value_type & VALUE_TYPE_MAP ? "KEY=" : "", b, o->value_type & VALUE_TYPE_VARIADIC ? "..." : o->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP) ? ",..." : ""); } line(n, o); }
static char *pos(const argus_option_t *o) { bool r = o->flags & FLAG_REQUIRED; return nx_fmt("%c%s%s%c", r ? '<' : '[', o->name, o->value_type & VALUE_TYPE_VARIADIC ? "..." : "", r ? '>' : ']'); }
static int ng, nh, deep; /* a chain of at least `deep` levels */
static argus_option_t *table(int d) {
    argus_option_t bi = OPTION_INT('b', "bb", HELP("x")), fl = OPTION_FLAG((char)102, (const char *)NULL, HELP("x")), ps = POSITIONAL_STRING("p", HELP("x")), vs = POSITIONAL_MANY_STRING("v", HELP("x")), gr = GROUP_START("g"), ge = GROUP_END(), sc = SUBCOMMAND("s", NULL, HELP("x"));
    int n = nx_range(0, nx_chance(1, 3) ? 14 : 6); argus_option_t *t = nx_mem((n + 1) * sizeof *t); const char *gn[] = {"G", "", "Other", " G"}; bool ok = true; if (deep > d && n < 3) n = 3, t = nx_mem((size_t)(n + 1) * sizeof *t); if (deep > d && d > 1 && n > 6) n = 6;
    for (int i = 0; i < n; i++) { int k = nx_range(0, 9); if (deep > d && ok && i == n - 1) k = 9; char *h = nx_chance(1, 8) ? NULL : nx_chance(1, 6) ? nx_word("ab ", 20, 60) : nx_word("abc", 1, 6);
        switch (k) { case 0: case 1: case 2: t[i] = bi; if (nx_chance(1, 4)) t[i].value_type = VT[nx_below(15)].t; if (nx_chance(1, 3)) t[i].sname = 0; t[i].name = t[i].lname = nx_name("abcdef-", 1, nx_chance(1, 6) ? 28 : 5); break; case 3: t[i] = fl; t[i].name = nx_dup("f"); break; case 4: t[i] = ps; if (nx_chance(1, 3)) t[i].value_type = VT[nx_below(4)].t; t[i].name = nx_word("pq", 1, nx_chance(1, 6) ? 33 : 4); if (nx_chance(1, 2)) t[i].flags = 0; break; case 5: t[i] = vs; t[i].value_type = VT[11 + nx_below(3)].t; if (nx_chance(1, 2)) t[i].flags = 0; break; case 6: t[i] = gr; t[i].name = nx_chance(1, 4) ? nx_name("gh", 1, 2) : gn[nx_below(4)]; if (nx_chance(1, 3)) t[i].flags = FLAG_EXCLUSIVE; ng++; break; case 7: t[i] = ge; break; default: t[i] = sc; t[i].name = nx_name("st", 1, 4); t[i].sub_options = d < 2 || (deep > d && ok) ? table(d + 1) : NULL; if (deep > d) ok = false; break; }
        if (t[i].type != TYPE_GROUP) { t[i].help = h; if (nx_chance(1, 5) && t[i].type != TYPE_POSITIONAL) { t[i].flags |= FLAG_HIDDEN; nh++; } if (nx_chance(1, 6) && t[i].type == TYPE_OPTION) t[i].flags |= nx_chance(1, 2) ? FLAG_EXIT : FLAG_REQUIRED; } }
    t[n] = nx_end(); return t;
}
void nx_case(void) {
    ng = nh = 0; deep = nx_chance(1, 12) ? nx_range(6, 10) : 0; argus_option_t *top = table(0); A = argus_init_no_validate(top, "prog", "1"); A.subcommand_depth = 0; A.error_code = 0; if (nx_chance(1, 3)) { A.helper.config.option_indent = nx_range(0, 6); A.helper.config.description_column = nx_range(0, 40); A.helper.config.max_line_width = nx_range(0, 110); }
    const argus_option_t *t = top; while ((nx_chance(2, 3) || (deep && nx_chance(19, 20))) && A.subcommand_depth < MAX_SUBCOMMAND_DEPTH) { const argus_option_t *c[16]; int n = 0; for (int i = 0; t[i].type; i++) if (t[i].type == TYPE_SUBCOMMAND && t[i].sub_options) c[n++] = &t[i]; if (!n) break; const argus_option_t *s = deep ? c[n - 1] : c[nx_below(n)]; A.subcommand_stack[A.subcommand_depth++] = s; t = s->sub_options; }
    how = nx_range(0, 1); ACT = t; int n = 0; for (; t[n].type; n++) { nx_note("%d/%x:%s%s%s%s ", t[n].type, t[n].value_type, t[n].name ? t[n].name : "-", t[n].flags & FLAG_HIDDEN ? "(hidden)" : "", t[n].type == TYPE_POSITIONAL && !(t[n].flags & FLAG_REQUIRED) ? "?" : "", t[n].value_type & VALUE_TYPE_VARIADIC ? "..." : ""); } nx_note("depth %zu", A.subcommand_depth); if (n > 5 && ng && nh) nx_mark();
    char *path = nx_dup("prog"); for (size_t i = 0; i < A.subcommand_depth; i++) path = nx_fmt("%s %s", path, A.subcommand_stack[i]->name);
    E = nx_mem(1); ec = 1; en = 0; ad(nx_fmt("Usage: %s [OPTIONS]", path)); bool sub = false; for (int i = 0; i < n; i++) { if (t[i].type == TYPE_POSITIONAL) ad(nx_fmt(" %s", pos(&t[i]))); if (t[i].type == TYPE_SUBCOMMAND) sub = true; } ad(sub ? " COMMAND\n" : "\n"); nx_alloc_reset(); char *u = nx_capture_out(usage, NULL); NX_CHECK(!strcmp(u, E), "usage \"%s\", expected \"%s\"", u, E);
    E = nx_mem(1); ec = 1; en = 0; bool hd = false; for (int i = 0; i < n; i++) if (t[i].type == TYPE_POSITIONAL) { if (!hd) ad("\nArguments:\n"); hd = true; line(pos(&t[i]), &t[i]); }
    const char *seen[16]; int ns = 0; const char *g = NULL; for (int i = 0; i < n; i++) { if (t[i].type == TYPE_GROUP) g = t[i].name; if (t[i].type != TYPE_OPTION || !g || t[i].flags & FLAG_HIDDEN) continue; bool old = false; for (int k = 0; k < ns; k++) old |= !strcmp(seen[k], g); if (old) continue; seen[ns++] = g; ad(nx_fmt("\n%s:\n", g)); const char *h = NULL; for (int j = 0; j < n; j++) { if (t[j].type == TYPE_GROUP) h = t[j].name; if (t[j].type == TYPE_OPTION && h && !strcmp(h, g) && !(t[j].flags & FLAG_HIDDEN)) opt(&t[j]); } }
    hd = false; g = NULL; for (int i = 0; i < n; i++) { if (t[i].type == TYPE_GROUP) g = t[i].name; if (t[i].type == TYPE_OPTION && !g && !(t[i].flags & FLAG_HIDDEN)) { if (!hd) ad("\nOptions:\n"); hd = true; opt(&t[i]); } }
    hd = false; for (int i = 0; i < n; i++) if (t[i].type == TYPE_SUBCOMMAND && !(t[i].flags & FLAG_HIDDEN)) { if (!hd) ad("\nCommands:\n"); hd = true; line(t[i].name, &t[i]); } if (hd) ad(nx_fmt("\nRun '%s COMMAND --help' for more information on a command.\n", path)); ad("\n");
    nx_alloc_reset(); if (nx_chance(1, 6)) { nx_fail_at = nx_range(1, 12); nx_fail_all = nx_chance(1, 2); } char *o = nx_capture_out(help, NULL); nx_fail_at = 0; nx_fail_all = false; if (!nx_failed) NX_CHECK(!strcmp(o, E), "help \"%s\", expected \"%s\"", o, E); NX_CHECK(nx_live == 0, "%ld blocks left behind", nx_live); NX_CHECK(A.error_code == 0, "error reported");
}
