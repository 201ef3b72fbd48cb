//@ src callbacks/handlers/array_string_handler.c
//@ drop  set_value free_array_string_handler
//@ desc array_string_handler: stores every comma-separated part (or the whole text when it has no comma) once and in order, stops at the first part that fails, applies the ordering flags once at the end, releases the parts
//@ enforce array_string_handler
//@ fn array_string_handler 1
//@ loop 0
//@ assigns g_e; g_err; g_done; {p0}->error_code; __CPROVER_object_whole(G_parts)
//@ hyp next({i})
//@ inv {i} <= g_n && !g_err && g_done == {i} && g_live == 1 && g_flags == 0
//@ dec g_n - {i}
//@ trust split, free_split by their contracts (discharged in units p23_split, p23_free_split); set_value by its contract (discharged in unit p12_set_array_string)
//@ trust strchr: NULL exactly when the character does not occur (ISO C)
//@ trust apply_array_flags by its contract (units of P13)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
#include <string.h>
size_t g_e, g_n, g_done; int g_err, g_live, g_flags; _Bool g_comma; char **G_parts, *G_s, g_part[2]; argus_t *G_a; argus_option_t *G_o;
static void next(size_t i) { g_e = i; G_parts[i] = i < g_n ? &g_part[0] : 0; }
char *strchr(const char *s, int c) { VX_MODEL(s == G_s && c == ',', "looks for a comma"); return g_comma ? (char *)s : (char *)0; }
char **split(const char *s, const char *set) { VX_ASSERT(s == G_s && set[0] == ',' && !set[1] && g_live == 0 && g_done == 0, "splits the text at commas once"); if (nondet_bool()) return 0; g_live = 1; return G_parts; }
void free_split(char **p) { VX_ASSERT(p == G_parts && g_live == 1, "releases the parts once"); g_live = 2; }
void apply_array_flags(argus_option_t *o) { VX_ASSERT(o == G_o && !g_err && g_flags == 0, "flags once, after all parts"); g_flags = 1; }
int array_string_handler(argus_t *argus, argus_option_t *option, char *value)
__CPROVER_assigns(argus->error_code, option->is_allocated, g_e, g_err, g_done, g_live, g_flags; G_parts != 0: __CPROVER_object_whole(G_parts));
#include "src0.c"
int set_value(argus_option_t *option, char *value) {
    VX_ASSERT(option == G_o && !g_err, "nothing after a failing part");
    VX_ASSERT(g_comma ? value == g_part && g_live == 1 && g_e == g_done && g_e < g_n : value == G_s && g_done == 0, "each part once, in order");
    g_done++; g_err = nondet_int(); return g_err;
}
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffff); g_n = n; char *p[n + 1]; G_parts = p; char s[2]; G_s = s; argus_t a; argus_option_t o; G_a = &a; G_o = &o;
    g_comma = nondet_bool(); g_done = 0; g_err = g_live = g_flags = 0;
    _Bool own = o.is_allocated;
    int r = array_string_handler(&a, &o, s);
    VX_ASSERT(g_live != 1, "the parts are released");
    if (r == ARGUS_SUCCESS) {
        VX_ASSERT(!g_err && g_flags == 1, "flags applied");
        VX_ASSERT(g_done == (g_comma ? g_n : 1), "every part was stored"); if (!g_comma) VX_REACH("single"); else if (n > 3) VX_REACH("many"); else if (n == 0) { VX_ASSERT(o.is_allocated == own, "no element: the value is not owned anew"); VX_REACH("only commas"); }
    } else { VX_ASSERT(g_flags == 0, "no flags"); if (g_err) { VX_ASSERT(r == g_err, "the failing part's error"); VX_REACH("failed"); } else { VX_ASSERT(r == ARGUS_ERROR_MEMORY && a.error_code == r && g_comma && g_live == 0 && g_done == 0, "out of memory"); VX_REACH("no memory"); } }
}
