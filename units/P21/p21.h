/* Shared by the units on help and usage. */
#include "vx.h"
#include "argus/internal/display.h"
#include "argus/internal/help.h"
#include "argus/internal/utils.h"
#include "argus/types.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* formats and fixed texts of at most 20 characters compared */
static int eq(const char *f, const char *s) { return f[0] == s[0] && (!f[0] || (f[1] == s[1] && (!f[1] || (f[2] == s[2] && (!f[2] || (f[3] == s[3] && (!f[3] || (f[4] == s[4] && (!f[4] || (f[5] == s[5] && (!f[5] || (f[6] == s[6] && (!f[6] || (f[7] == s[7] && (!f[7] || (f[8] == s[8] && (!f[8] || (f[9] == s[9] && (!f[9] || (f[10] == s[10] && (!f[10] || (f[11] == s[11] && (!f[11] || (f[12] == s[12] && (!f[12] || (f[13] == s[13] && (!f[13] || (f[14] == s[14] && (!f[14] || (f[15] == s[15] && (!f[15] || (f[16] == s[16] && (!f[16] || (f[17] == s[17] && (!f[17] || (f[18] == s[18] && (!f[18] || (f[19] == s[19] && (!f[19] || (1)))))))))))))))))))))))))))))))))))))))); }
#define P_SEL(a, b, F, ...) F
#define P1(f) p_1(f)
#define P2(f, x) p_s(f, x)
