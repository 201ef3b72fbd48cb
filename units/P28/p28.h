/* Shared by the units on the command lists. */
#include "vx.h"
#include "argus/internal/display.h"
#include "argus/internal/utils.h"
#include "argus/types.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int eq(const char *f, const char *s) { return f[0] == s[0] && (!f[0] || (f[1] == s[1] && (!f[1] || (f[2] == s[2] && (!f[2] || (f[3] == s[3] && (!f[3] || (f[4] == s[4] && (!f[4] || (f[5] == s[5] && (!f[5] || (f[6] == s[6] && (!f[6] || (1)))))))))))))); }
#define P_SEL(a, b, c, F, ...) F
#define PR1(f) p_1(f)
#define PR2(f, x) p_s(f, x)
#define PR3(f, x, y) p_s2(f, x, y)
