//@ src utils/stream.c
//@ drop stream_read stream_redirect stream_cleanup_all stream_is_active
//@ desc stream_restore: an active stream gets its original back, everything the redirection opened is closed and other streams are untouched; otherwise nothing happens; it ends
//@ enforce stream_restore
//@ fn stream_restore 1
//@ loop 0
//@ assigns g_left
//@ inv g_left >= 0 && g_pipe && g_ro && g_bo
//@ dec g_left
//@ trust read empties the pipe (at most what it holds), never blocks (discharged in p24_redirect: non-blocking); dup2, close, fflush by their descriptor-table meaning; putting the original back does not fail
#include "p24.h"
int g_left;
ssize_t read(int f, void *b, size_t n) { VX_ASSERT(f == g_r && g_ro, "from the pipe"); int k = nondet_int(); VX_ASSUME(k >= -1 && k <= g_left && (k <= 0 || (size_t)k <= n)); if (k > 0) g_left -= k; return k; }
int dup2(int a, int b) { VX_ASSERT(a == g_b && g_bo && b == g_f && g_pipe, "puts the original back, once"); g_pipe = 0; return b; }
int close(int f) { VX_ASSERT(f == g_r ? g_ro : f == g_b && g_bo, "closes what the redirection opened, once"); VX_ASSERT(f != g_b || !g_pipe, "the original is given back before it is closed"); if (f == g_r) g_ro = 0; else g_bo = 0; return 0; }
int fflush(FILE *s) { VX_ASSERT(g_f >= 1 && s == (g_f == 1 ? stdout : stderr), "of the stream"); VX_ASSERT(g_pipe, "captured text does not reach the original"); return 0; }
void stream_restore(int fd);
#define FRAME __CPROVER_assigns(g_left, g_pipe, g_ro, g_bo, __CPROVER_object_whole(streams))
#include "src0.c"
void stream_restore(int fd) FRAME;
void harness(void) {
    SETUP_FILES;     g_f = nondet_int(); g_r = nondet_int(); g_w = nondet_int(); g_b = nondet_int(); VX_ASSUME(DISTINCT); g_left = nondet_int(); VX_ASSUME(g_left >= 0); stream_info_t before[MAX_STREAMS]; for (int i = 0; i < MAX_STREAMS; i++) { stream_info_t x; streams[i] = x; before[i] = x; }
    _Bool std = g_f >= 0 && g_f <= 2, act = std && streams[g_f].is_active; int o = nondet_int(); VX_ASSUME(0 <= o && o < 3 && o != g_f); g_ro = g_bo = g_pipe = act; if (act) VX_ASSUME(streams[g_f].pipe_fds[0] == g_r && streams[g_f].backup_fd == g_b);
    EACH(stream_restore);
    VX_ASSERT(streams[o].is_active == before[o].is_active && streams[o].backup_fd == before[o].backup_fd && streams[o].pipe_fds[0] == before[o].pipe_fds[0], "other streams are untouched");
    VX_ASSERT(!g_pipe && !g_ro && !g_bo, "the stream is what it was and nothing stays open"); VX_ASSERT(!std || !streams[g_f].is_active, "no longer redirected"); if (act) VX_REACH("restored"); else if (std) VX_REACH("nothing to do"); else VX_REACH("no stream");
}
