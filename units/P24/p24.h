/* One standard stream's descriptors: what it shows (its own file or the pipe),
 * and the three descriptors a redirection opens, as ghosts. */
#include "vx.h"
#include "argus/internal/stream.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
int g_f, g_r, g_w, g_b, g_err; _Bool g_ro, g_wo, g_bo, g_pipe, g_nb, g_flushed; /* g_pipe: the stream shows the pipe */
#define DISTINCT (g_r > 2 && g_w > 2 && g_b > 2 && g_r != g_w && g_r != g_b && g_w != g_b)
static char g_f1, g_f2;
#define SETUP_FILES (stdout = (FILE *)&g_f1, stderr = (FILE *)&g_f2)
#define EACH(call) (g_f == 0 ? (call(0)) : g_f == 1 ? (call(1)) : g_f == 2 ? (call(2)) : (call(g_f)))
