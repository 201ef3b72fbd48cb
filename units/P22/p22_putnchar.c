//@ src utils/strings.c
//@ drop starts_with count_words word_len skip_charset cleanup_split split free_split
//@ desc putnchar: prints the character exactly n times and returns n
//@ enforce putnchar
//@ fn putnchar 1
//@ loop 0
//@ assigns g_n
//@ inv g_n == {i} && {i} <= {p1}
//@ dec {p1} - {i}
//@ trust putchar prints one character
#include "vx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
size_t g_n; char g_c;
int vx_putchar(int c) { VX_ASSERT(c == g_c, "the character"); g_n++; return c; }
#undef putchar
#define putchar vx_putchar
#define fputc(c, f) vx_putchar(c)
int putnchar(char c, size_t n)
__CPROVER_assigns(g_n);
#include "src0.c"
void harness(void) { g_n = 0; g_c = nondet_char(); size_t n = nondet_size(); int r = putnchar(g_c, n); VX_ASSERT(g_n == n && r == (int)n, "exactly n times"); if (n > 3) VX_REACH("several"); }
