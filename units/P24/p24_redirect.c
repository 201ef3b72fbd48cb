//@ src utils/stream.c
//@ drop stream_read stream_restore stream_cleanup_all
//@ desc stream_redirect, stream_is_active: for every descriptor, every state of the streams and every failing system call: either the stream shows the pipe, its original is kept and the write end is closed, or the stream is what it was, everything opened is closed and an error is returned; other streams are untouched
//@ nodfcc
//@ trust pipe, dup, dup2, fcntl, close, fflush by their descriptor-table meaning; each may fail (close does not)
#include "p24.h"
#include "src0.c"
int pipe(int p[2]) { VX_ASSERT(!g_ro && !g_wo, "one pipe"); if (nondet_bool()) { g_err = 1; return -1; } g_ro = g_wo = 1; p[0] = g_r; p[1] = g_w; return 0; }
int dup(int f) { VX_ASSERT(f == g_f && !g_pipe && !g_bo, "keeps the original of the stream, once"); if (nondet_bool()) { g_err = 1; return -1; } g_bo = 1; return g_b; }
int dup2(int a, int b) { VX_ASSERT(b == g_f && !g_err && ((a == g_w && g_wo && !g_pipe) || (a == g_b && g_bo)), "puts the pipe in place of the stream, or its original back"); if (a == g_w) VX_ASSERT(g_bo, "only with the original kept"); if (nondet_bool()) { g_err = 1; return -1; } g_pipe = a == g_w; return b; }
int close(int f) { VX_ASSERT((f == g_r && g_ro) || (f == g_w && g_wo) || (f == g_b && g_bo), "closes only what it opened, once"); if (f == g_r) g_ro = 0; else if (f == g_w) g_wo = 0; else g_bo = 0; return 0; }
int fcntl(int f, int c, ...) { VX_ASSERT(f == g_r && g_ro, "about the pipe"); if (nondet_bool()) { g_err = 1; return -1; } if (c == F_SETFL) g_nb = 1; return 0; }
int fflush(FILE *s) { VX_ASSERT(g_f >= 1 && s == (g_f == 1 ? stdout : stderr), "of the stream"); VX_ASSERT(!g_pipe, "before it shows the pipe"); g_flushed = 1; return 0; }
void harness(void) {
    SETUP_FILES;     g_f = nondet_int(); g_r = nondet_int(); g_w = nondet_int(); g_b = nondet_int(); VX_ASSUME(DISTINCT); g_ro = g_wo = g_bo = g_pipe = g_nb = g_err = g_flushed = 0; stream_info_t before[MAX_STREAMS]; for (int i = 0; i < MAX_STREAMS; i++) { stream_info_t x; streams[i] = x; before[i] = x; }
    _Bool std = g_f >= 0 && g_f <= 2, act = std && streams[g_f].is_active; int o = nondet_int(); VX_ASSUME(0 <= o && o < 3 && o != g_f);
    VX_ASSERT((stream_is_active(g_f) != 0) == act, "is_active");
    int r = EACH(stream_redirect);
    VX_ASSERT(streams[o].is_active == before[o].is_active && streams[o].backup_fd == before[o].backup_fd && streams[o].pipe_fds[0] == before[o].pipe_fds[0], "other streams are untouched");
    if (!std) { VX_ASSERT(r == STREAM_ERROR_INVALID_FD && !g_ro && !g_bo, "no standard stream"); VX_REACH("no stream"); }
    else if (act) { VX_ASSERT(r == STREAM_ERROR_ALREADY_ACTIVE && !g_ro && !g_bo && streams[g_f].backup_fd == before[g_f].backup_fd && streams[g_f].pipe_fds[0] == before[g_f].pipe_fds[0] && streams[g_f].is_active == before[g_f].is_active, "redirecting twice is refused and changes nothing"); VX_REACH("twice"); }
    else if (g_err) { VX_ASSERT(r < 0 && !streams[g_f].is_active && !g_pipe && !g_ro && !g_wo && !g_bo, "a failing call leaves the stream as it was and nothing open"); VX_REACH("failure"); }
    else { VX_ASSERT(r == STREAM_SUCCESS && streams[g_f].is_active && g_pipe && g_ro && !g_wo && g_bo && g_nb && streams[g_f].pipe_fds[0] == g_r && streams[g_f].backup_fd == g_b, "redirected, the original kept, the pipe readable without blocking"); VX_ASSERT(g_flushed || g_f == 0, "earlier text went to the original"); VX_REACH("redirected"); }
    VX_ASSERT((stream_is_active(g_f) != 0) == (std && (act || !g_err)), "is_active afterwards");
}
