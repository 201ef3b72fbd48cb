//@ src callbacks/validators/choices_validator.c
//@ drop choices_string_validator choices_int_validator choices_float_validator
//@ desc format_choices_validator: a fresh text made of every choice in order, each once, in full and with a bar between two of them and nothing else, for any number of choices of any kind; no text when memory runs out
//@ alt BAR_FIRST
//@ enforce format_choices_validator
//@ fn format_choices_validator 2
//@ loop 0
//@ inv {i} <= g_n
//@ dec g_n - {i}
//@ loop 1
//@ assigns g_i; g_bar; g_item; g_b
//@ inv {i} <= g_n && g_i == {i} && g_bar == PENDING({i}) && !g_item && g_buf
//@ dec g_n - {i}
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust safe_strcat by its contract (discharged in P22); snprintf of the formats given prints exactly that number, in at most 20 characters (ISO C); that the sum of the lengths fits the block is decided on the real code (native P27, P22)
#include "vx.h"
#include "nounion.h"
#include "argus/types.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "argus/internal/cross_platform.h"
size_t g_n, g_i, g_size; _Bool g_bar, g_item, g_buf; int g_kind; char g_txt[8]; char **g_s; int64_t *g_l; double *g_d; void *g_b;
static void *vx_malloc(size_t n) { VX_ASSERT(!g_buf, "one block"); if (nondet_bool()) return 0; g_buf = 1; g_size = n; return g_txt; }
static size_t vx_strlen(const char *s) { size_t n = nondet_size(); VX_ASSUME(n < 0x10000); return n; }
static _Bool feq(const char *a, const char *b) { if (a[0] != b[0]) return 0; if (!a[0]) return 1; if (a[1] != b[1]) return 0; if (!a[1]) return 1; if (a[2] != b[2]) return 0; if (!a[2]) return 1; if (a[3] != b[3]) return 0; if (!a[3]) return 1; if (a[4] != b[4]) return 0; if (!a[4]) return 1; return a[5] == b[5] && !a[5]; }
static void put_i(char *b, size_t n, const char *f, int64_t v) { VX_ASSERT(g_kind == VALUE_TYPE_INT && !g_bar && g_i < g_n && v == g_l[g_i], "the next integer, in full"); VX_ASSERT(n >= 21, "room for every integer"); VX_MODEL(feq(f, "%ld") || feq(f, "%lld"), "the format of an integer"); g_b = b; g_item = 1; }
static void put_d(char *b, size_t n, const char *f, double v) { VX_ASSERT(g_kind == VALUE_TYPE_FLOAT && !g_bar && g_i < g_n && (v == g_d[g_i] || v != v), "the next number"); VX_ASSERT(n >= 20, "room for every number"); VX_MODEL(feq(f, "%.12g"), "the format of a number"); g_b = b; g_item = 1; }
static void cat(char *d, size_t n, const char *s) {
    VX_ASSERT(d == &g_txt[0] && g_buf && n == g_size, "onto the text, as large as it is");
    if (g_bar) { VX_ASSERT(s[0] == '|' && s[1] == 0, "a bar between two choices"); g_bar = 0; return; }
    VX_ASSERT(g_i < g_n, "nothing more");
    if (g_kind == VALUE_TYPE_STRING) VX_ASSERT(s == g_s[g_i], "the next text"); else VX_ASSERT(g_item && (void *)s == g_b, "the number just written");
    g_item = 0; g_i++; g_bar = g_i < g_n;
}
#ifdef BAR_FIRST /* the bar at the start of a round instead of its end */
#define PENDING(i) ((i) > 0 && (i) < g_n)
#else
#define PENDING(i) 0
#endif
#undef snprintf
#define snprintf(b, n, f, v) (_Generic((v), double: put_d, default: put_i)(b, n, f, v), 1)
#define strlen vx_strlen
#define malloc vx_malloc
#define safe_strcat cat
char *format_choices_validator(validator_data_t data)
__CPROVER_assigns(g_i, g_bar, g_item, g_buf, g_size, g_b, __CPROVER_object_whole(g_txt));
#include "src0.c"
void harness(void) {
    size_t n; VX_ASSUME(n < 0x7fffff); g_n = n; char *s[n + 1]; int64_t l[n + 1]; double d[n + 1]; g_s = s; g_l = l; g_d = d; int t = nondet_int(); g_kind = t == 0 ? VALUE_TYPE_STRING : t == 1 ? VALUE_TYPE_INT : VALUE_TYPE_FLOAT;
    g_i = g_size = 0; g_bar = g_item = g_buf = 0;
    validator_data_t v = {.choices = {.count = n, .type = g_kind}}; v.choices.as_strings = s; v.choices.as_ints = l; v.choices.as_floats = d;
    char *r = format_choices_validator(v);
    if (!r) { VX_ASSERT(!g_buf && !g_i, "no text only without memory"); VX_REACH("no memory"); return; }
    VX_ASSERT(r == &g_txt[0] && g_i == n && !g_bar, "every choice"); VX_REACH("text");
}
