//@ src utils/option_lookup.c
//@ drop find_from_relative_path find_option_by_name count_components
//@ desc find_option_by_active_path: a path without a dot is looked up from the inside out, one that starts with a dot in the program's own table, and COMMAND. ... .NAME in the table of the last command exactly when each command is, whole, the name of the active command at its depth; every other path denotes nothing (paths and names of any length, every depth; the loop is unwound completely: at most MAX_SUBCOMMAND_DEPTH commands)
//@ enforce find_option_by_active_path
//@ fn find_option_by_active_path 1
//@ loop 0 skip
//@ cbmc --unwind 26 --unwindset find_option_by_active_path_wrapped_for_contract_checking.0:9
//@ trust count_components, find_from_relative_path, find_option_by_name by their contracts (discharged in p17_count, p17_relative, p01_name)
//@ trust strchr: the next dot; strncmp: 0 exactly when the first n characters agree (a relation per depth)
#include "vx.h"
#include "argus/internal/utils.h"
#define D MAX_SUBCOMMAND_DEPTH
char *G_p; size_t g_n, g_d, g_dots, g_pos[D + 2], g_len[D]; char *G_nm[D]; _Bool g_pre[D]; int g_rel, g_byname; argus_option_t *g_tab, g_ent, g_lv[D][1], g_root[1], g_sub[D]; const char *g_arg; argus_option_t *g_r;
argus_option_t *find_option_by_active_path(argus_t argus, const char *option_path)
__CPROVER_assigns(g_rel, g_byname, g_tab, g_arg);
#include "src0.c"
static size_t count_components(const char *p) { VX_ASSERT(p == G_p, "of the path"); return g_dots; }
static argus_option_t *find_from_relative_path(argus_t *a, const char *n) { VX_ASSERT(n == G_p, "the path"); g_rel++; return g_r; }
argus_option_t *find_option_by_name(argus_option_t *o, const char *n) { g_byname++; g_tab = o; g_arg = n; return g_r; }
char *strchr(const char *s, int c) {
    VX_MODEL(c == '.' && __CPROVER_same_object(s, G_p), "next dot"); size_t o = (size_t)(s - G_p); VX_MODEL(o <= g_n, "inside the path");
    if (g_dots > 0 && o <= g_pos[0]) return G_p + g_pos[0];
    for (size_t j = 1; j <= D; j++) if (j < g_dots && o <= g_pos[j] && o > g_pos[j - 1]) return G_p + g_pos[j];
    VX_MODEL(g_dots <= D || o <= g_pos[D], "never beyond the dots that matter"); return 0;
}
static int cmp(const char *a, const char *b, size_t n) {
    size_t o = (size_t)(a - G_p);
    for (size_t j = 0; j < D; j++) if (b == G_nm[j]) {
        VX_ASSERT(j < g_dots && o == (j ? g_pos[j - 1] + 1 : 0) && n == g_pos[j] - o, "component j against command j");
        int r = nondet_int(); VX_ASSUME((r == 0) == g_pre[j]); return r;
    }
    VX_ASSERT(0, "compares with the name of an active command"); return 1;
}
int strncmp(const char *a, const char *b, size_t n) { if (__CPROVER_same_object(a, G_p)) return cmp(a, b, n); return cmp(b, a, n); }
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffff); char p[n + 1]; VX_ASSUME(p[n] == 0); G_p = p; g_n = n; g_dots = nondet_size(); VX_ASSUME(g_dots <= n); g_r = nondet_bool() ? &g_ent : 0; g_rel = g_byname = 0;
    for (size_t j = 0; j <= D; j++) { VX_ASSUME(g_pos[j] < n || j >= g_dots); if (j > 0) VX_ASSUME(j >= g_dots || g_pos[j] > g_pos[j - 1]); if (j < g_dots) VX_ASSUME(p[g_pos[j]] == '.'); }
    if (n > 0) VX_ASSUME((p[0] == '.') == (g_dots > 0 && g_pos[0] == 0));
    argus_t a; a.options = g_root; VX_ASSUME(a.subcommand_depth <= D); g_d = a.subcommand_depth; _Bool all = 1;
    for (size_t j = 0; j < D; j++) {
        g_sub[j].sub_options = g_lv[j]; a.subcommand_stack[j] = &g_sub[j]; size_t l; VX_ASSUME(l < 0xfffff); char *m = __CPROVER_allocate(l + 1, 0); VX_ASSUME(m[l] == 0); G_nm[j] = m; g_sub[j].name = m; g_pre[j] = nondet_bool();
        if (j < g_dots && j < g_d) { size_t cl = g_pos[j] - (j ? g_pos[j - 1] + 1 : 0); VX_ASSUME(IMPLIES(g_pre[j], l >= cl)); if (cl < l) VX_ASSUME(m[cl] != 0); if (!(g_pre[j] && l == cl)) all = 0; }
    }
    _Bool null = nondet_bool();
    argus_option_t *r = find_option_by_active_path(a, null ? 0 : &p[0]);
    if (null) { VX_ASSERT(r == 0 && !g_rel && !g_byname, "no path, nothing"); VX_REACH("null"); return; }
    if (g_dots == 0) { VX_ASSERT(r == g_r && g_rel == 1 && !g_byname, "a plain name"); VX_REACH("plain"); }
    else if (p[0] == '.') { VX_ASSERT(r == g_r && !g_rel && g_byname == 1 && g_tab == g_root && g_arg == p + 1, "the program's own"); VX_REACH("root"); }
    else if (g_dots > g_d || !all) { VX_ASSERT(r == 0 && !g_rel, "not the active commands"); if (g_dots > g_d) VX_REACH("too deep"); else VX_REACH("other command"); }
    else { VX_ASSERT(r == g_r && g_byname == 1 && !g_rel && g_tab == g_lv[g_dots - 1] && g_arg == p + g_pos[g_dots - 1] + 1, "the table of the last command and the rest"); if (g_dots == D) VX_REACH("deepest"); }
}
