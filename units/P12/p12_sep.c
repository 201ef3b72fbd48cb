//@ src callbacks/handlers/array_int_handler.c
//@ drop parse_int_range add_range_values set_value array_int_handler free_array_int_handler
//@ desc search_range_separator: the first separator character that follows a digit and precedes a digit or a minus sign, or NULL, in a text of any length
//@ enforce search_range_separator
//@ fn search_range_separator 1
//@ loop 0 ptr
//@ assigns g_i
//@ hyp (g_i = (size_t)__CPROVER_POINTER_OFFSET({i})), ({i} = G_s + g_i)
//@ inv __CPROVER_same_object({i}, G_s) && __CPROVER_POINTER_OFFSET({i}) <= g_len && (g_k < __CPROVER_POINTER_OFFSET({i}) ==> !g_mk)
//@ dec g_len - __CPROVER_POINTER_OFFSET({i})
//@ trust strchr: NULL exactly when the character is not in the set (ISO C)
//@ trust isdigit: 0..9 (C locale)
#include "vx.h"
#include "argus/internal/utils.h"
#include "vx_err.h"
size_t g_i, g_len, g_k; _Bool g_mk; char *G_s; const char *G_set;
int isdigit(int c) { return c >= '0' && c <= '9'; }
_Bool __CPROVER_uninterpreted_in(char);
char *strchr(const char *s, int c) { VX_MODEL(s == G_set && c != 0, "asks whether the character is a separator"); return __CPROVER_uninterpreted_in((char)c) ? (char *)s : (char *)0; }
#define DIG(c) ((c) >= '0' && (c) <= '9')
#define MATCH(k) ((k) > 0 && __CPROVER_uninterpreted_in(s[(k)]) && DIG(s[(k) - 1]) && (DIG(s[(k) + 1]) || s[(k) + 1] == '-'))
const char *search_range_separator(const char *value, const char *separators)
__CPROVER_assigns(g_i);
#include "src0.c"
void harness(void) {
    size_t len; VX_ASSUME(len < 0x7ffffff0); g_len = len; char s[len + 1]; VX_ASSUME(s[len] == 0); G_s = s; char set[1]; G_set = set;
    g_k = nondet_size(); VX_ASSUME(g_k < len && s[g_k] != 0); g_mk = MATCH(g_k); 
    const char *r = search_range_separator(s, set);
    if (r == 0) { VX_ASSERT(!g_mk || s[g_i] == 0 && g_i <= g_k, "NULL only when no place fits"); VX_REACH("none"); }
    else { size_t x = g_i; VX_ASSERT(r == s + x && x < len && s[x] && MATCH(x), "a place that fits"); VX_ASSERT(!(g_k < x) || !g_mk, "the first one"); VX_REACH("found"); }
}
