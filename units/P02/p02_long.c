//@ src core/parsing/option_handle_long.c
//@ desc handle_long_option: NAME is the whole text before the first = (any length); the value is the text after it, else the next token (consumed), else a missing-value error; a flag takes none; unknown names are reported; the copy of NAME is released
//@ enforce handle_long_option
//@ trust strchr, strlen, strcspn: ISO C contracts over a text of symbolic length
//@ trust argus_parsing_error (inline): evaluates its arguments, sets error_code; the printed text is not modelled
//@ trust safe_strndup: NULL or a fresh copy of the given prefix (its own contract is discharged in unit p23_strndup)
//@ timeout 200
#include "vx.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "vx_err.h"
#include <stdlib.h>
#include <string.h>
#include "argus/internal/cross_platform.h"
size_t g_len, g_eq, g_k, g_name; _Bool g_has;     /* text length, first '=' (g_has), ghost index, length of NAME */
char *G_arg; argus_t *G_a; argus_option_t *G_o; char **G_argv; int G_i, G_argc; int *G_cur;
char *g_dup; int g_live, g_calls, g_finds; argus_option_t *g_res; int g_ret;
char *strchr(const char *s, int c) {
    VX_MODEL(s == G_arg && c == '=', "searches = in the token");
    return g_has ? G_arg + g_eq : (char *)0;
}
size_t strlen(const char *s) { VX_MODEL(s == G_arg, "length of the token"); return g_len; }
size_t strcspn(const char *s, const char *r) { VX_MODEL(s == G_arg && r[0] == '=' && !r[1], "searches = in the token"); return g_name; }
#undef safe_strdup
#define safe_strdup(s) vx_strndup((s), g_len)
static char *vx_strndup(const char *s, size_t n) {
    VX_ASSERT(s == G_arg && n <= g_len, "copies a prefix of the token");
    if (nondet_bool()) return 0;
    char *p = malloc(n + 1); VX_ASSUME(p != 0);
    VX_ASSUME(IMPLIES(g_k < n, p[g_k] == s[g_k])); p[n] = 0;
    g_dup = p; g_live++; return p;
}
static void vx_free(void *p) { VX_ASSERT(p == g_dup && g_live == 1, "releases its own copy once"); g_live--; }
#define strndup(s, n) vx_strndup((s), (n))
argus_option_t *find_option_by_lname(argus_option_t *o, const char *l) {
    VX_ASSERT(o == G_o, "looks in the given table");
    VX_ASSERT(l == g_dup && g_live == 1, "name is a live copy");
    VX_ASSERT(l[g_name] == 0 && IMPLIES(g_k < g_name, l[g_k] == G_arg[g_k] && l[g_k] != 0), "the whole NAME and nothing else");
    g_finds++; return g_res;
}
int execute_callbacks(argus_t *a, argus_option_t *o, char *v) {
    VX_ASSERT(g_finds == 1 && a == G_a && o == g_res && o, "applies the option found");
    _Bool flag = o->value_type == VALUE_TYPE_FLAG;
    VX_ASSERT(IMPLIES(flag, v == 0 && *G_cur == G_i), "a flag takes nothing");
    VX_ASSERT(IMPLIES(!flag && g_has, v == G_arg + g_eq + 1 && *G_cur == G_i), "value after the first =");
    VX_ASSERT(IMPLIES(!flag && !g_has, G_i + 1 < G_argc && *G_cur == G_i + 1 && v == G_argv[G_i + 1]), "value is the next token");
    g_calls++; return g_ret;
}
int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc, int *current_index)
__CPROVER_assigns(argus->error_code, *current_index, g_calls, g_finds, g_dup, g_live);
#define safe_strndup(s, n) vx_strndup((s), (n))
#define free vx_free
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len;
    char arg[len + 1]; VX_ASSUME(arg[len] == 0);
    g_has = nondet_bool(); g_eq = nondet_size(); VX_ASSUME(IMPLIES(g_has, g_eq < len && arg[g_eq] == '='));
    g_name = g_has ? g_eq : len;
    g_k = nondet_size(); VX_ASSUME(IMPLIES(g_k < g_name, arg[g_k] != '=' && arg[g_k] != 0)); VX_ASSUME(g_k <= len);
    int argc = nondet_int(), i = nondet_int(), cur; VX_ASSUME(0 < argc && argc < 0x7ffffff && 0 <= i && i < argc);
    char *argv[argc + 1]; cur = i;
    argus_t a; argus_option_t t[1];
    G_arg = arg; G_a = &a; G_o = nondet_ptr(); G_argv = argv; G_i = i; G_argc = argc; G_cur = &cur;
    g_res = nondet_bool() ? &t[0] : 0; g_dup = 0; g_live = g_calls = g_finds = 0; g_ret = nondet_int();
    int r = handle_long_option(&a, G_o, arg, argv, argc, &cur);
    VX_ASSERT(g_live == 0, "the copy of the name is released");
    if (g_finds == 0) { VX_ASSERT(r == ARGUS_ERROR_MEMORY && a.error_code == r && g_calls == 0 && cur == i, "out of memory is an error"); VX_REACH("no memory"); }
    else if (!g_res) { VX_ASSERT(r == ARGUS_ERROR_INVALID_ARGUMENT && a.error_code == r && g_calls == 0 && cur == i, "unknown name is an error, nothing consumed"); VX_REACH("unknown"); }
    else if (t[0].value_type != VALUE_TYPE_FLAG && !g_has && i + 1 >= argc) { VX_ASSERT(r == ARGUS_ERROR_MISSING_VALUE && a.error_code == r && g_calls == 0 && cur == i, "missing value is an error"); VX_REACH("missing"); }
    else { VX_ASSERT(g_calls == 1 && r == g_ret, "applied exactly once, status returned");
        if (t[0].value_type == VALUE_TYPE_FLAG) VX_REACH("flag"); else if (g_has) VX_REACH("after ="); else VX_REACH("next token"); }
}
