//@ src callbacks/validators/regex_validator.c
//@ drop regex_validator
//@ desc format_regex_validator: a fresh text, as large as it has to be: the hint of the pattern when it has one, else the pattern itself when it is short (up to 15 characters), else the word "pattern"; no text only when memory runs out
//@ enforce format_regex_validator
//@ trust unions of the library types are laid out as structs (members kept apart; every value is read through the member that was written)
//@ trust safe_strcpy, safe_strdup by their contracts (discharged in P22): the text in full when it fits
#include "vx.h"
#include "nounion.h"
#include "argus/types.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "argus/internal/cross_platform.h"
size_t g_size, g_hl, g_pl; int g_buf, g_done; char g_txt[1]; const char *g_h, *g_p;
static void *vx_malloc(size_t n) { VX_ASSERT(!g_buf, "one block"); if (nondet_bool()) return 0; g_buf = 1; g_size = n; return g_txt; }
static size_t vx_strlen(const char *s) { VX_ASSERT(s == g_h || s == g_p, "the hint or the pattern"); return s == g_h ? g_hl : g_pl; }
static const char *want(void) { return g_h && g_hl ? g_h : g_p && g_pl && g_pl <= 15 ? g_p : 0; }
static void cpy(char *d, size_t n, const char *s) { VX_ASSERT(d == &g_txt[0] && g_buf && !g_done && n <= g_size, "into the block, within its size"); VX_ASSERT(s == want() && s, "the hint, or a short pattern"); VX_ASSERT(n > (s == g_h ? g_hl : g_pl), "in full"); g_done = 1; }
static char *vx_sdup(const char *s) { VX_ASSERT(!g_buf && !g_done, "one text"); if (s == g_h || s == g_p) VX_ASSERT(s && s == want(), "the hint, or a short pattern"); else VX_ASSERT(!want() && s[0] == 'p' && s[1] == 'a' && s[2] == 't' && s[6] == 'n' && !s[7], "otherwise just that it is a pattern"); if (nondet_bool()) return 0; g_buf = g_done = 1; return g_txt; }
#define strlen vx_strlen
#define malloc vx_malloc
#undef safe_strdup
#undef safe_strcpy
#define safe_strcpy cpy
#define safe_strdup vx_sdup
char *format_regex_validator(validator_data_t data)
__CPROVER_assigns(g_buf, g_size, g_done);
#include "src0.c"
void harness(void) {
    static char h[1], p[1]; validator_data_t v; g_size = 0; g_buf = g_done = 0; g_hl = nondet_size(); g_pl = nondet_size(); VX_ASSUME(g_hl < 0x7fffff && g_pl < 0x7fffff);
    VX_ASSUME((h[0] == 0) == (g_hl == 0) && (p[0] == 0) == (g_pl == 0)); g_h = nondet_bool() ? &h[0] : 0; g_p = nondet_bool() ? &p[0] : 0; v.regex.hint = g_h; v.regex.pattern = g_p;
    char *r = format_regex_validator(v);
    if (!r) { VX_ASSERT(!g_buf && !g_done, "no text only without memory"); VX_REACH("no memory"); return; }
    VX_ASSERT(r == &g_txt[0] && g_done, "the text"); if (want() == g_h && g_h) VX_REACH("hint"); if (want() == g_p && g_p) VX_REACH("pattern"); if (!want()) VX_REACH("neither");
}
