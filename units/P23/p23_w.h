/* A text s of length n, any separator set, and W[i] = number of separator-free
 * runs that begin before i (its recursive definition is used one step at a time). */
#include "vx.h"
#include "argus/internal/cross_platform.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
_Bool g_sep[256]; size_t g_n; const char *G_s; const size_t *G_W; char g_cs[2]; int g_zero; const char *G_cs;
#define SEP(c) (g_sep[(unsigned char)(c)])
#define START(i) (G_s[i] != 0 && !SEP(G_s[i]) && ((i) == 0 || SEP(G_s[(i) - 1])))
static void at(size_t i) { VX_ASSUME(IMPLIES(i < g_n, G_s[i] != 0 && G_W[i + 1] == G_W[i] + (START(i) ? 1 : 0))); }
char *strchr(const char *s, int c) { VX_ASSERT(s == G_cs, "looks the character up in the separators"); return (char)c == 0 || SEP(c) ? &g_cs[0] : 0; }
#define SETUP size_t n; VX_ASSUME(n < 0x3fffffff); g_n = n; char s[n + 1]; size_t W[n + 1]; VX_ASSUME(s[n] == 0 && W[0] == 0); G_s = s; G_W = W; G_cs = g_cs
