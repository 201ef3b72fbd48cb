//@ src utils/stream.c
//@ drop stream_restore stream_redirect stream_cleanup_all stream_is_active
//@ desc stream_read: all bytes captured so far, in order, complete and ended, in a block large enough; NULL when nothing was captured or memory runs out (then everything is released)
//@ enforce stream_read
//@ fn stream_read 2
//@ loop 0
//@ assigns g_left; g_tot; g_cap; g_has; g_chunk; g_fr; g_errno; g_co; g_cf
//@ inv {l:size_t#0} == g_tot && g_tot >= 0 && g_left >= 0 && g_tot + g_left == g_all && {l:size_t#1} == g_cap && (g_tot > 0 ==> g_tot < g_cap) && (g_cap == 0 || (g_cap >= 1 && g_cap <= 0x80000400)) && (g_tot == 0 ==> g_cap == 0)
//@ inv ({l:char *#0} == (char *)0) == (g_cap == 0) && (g_cap != 0 ==> {l:char *#0} == G_buf) && !g_fr && g_chunk == 0 && !g_has
//@ dec g_left
//@ hyp SAME({l:char *#0}, g_cap ? G_buf : (char *)0)
//@ loop 1
//@ inv {l:size_t#0} == g_tot && {l:size_t#1} >= 1 && ({l:size_t#1} <= g_tot + g_chunk || __CPROVER_loop_entry({l:size_t#1}) == {l:size_t#1} || {l:size_t#1} <= 2 * (g_tot + (size_t)g_chunk + 1))
//@ dec 0x100000000 - {l:size_t#1}
//@ trust the bytes read go through the local buffer unchanged (the loop frame does not allow writing it)
//@ trust read gives the next bytes of the pipe, at most what it holds, -1 when it is empty; realloc keeps the contents, or gives NULL and keeps the block; memcpy copies; fewer than 2^30 bytes are captured at once
#include "p24.h"
#define SAME(p, q) (VX_ASSERT((p) == (q), "the pointer is the one recorded"), (p) = (q)) /* no change: narrows what it may point to */
#undef errno
int g_errno;
#define errno g_errno
size_t g_tot, g_cap, g_all, g_k; int g_left, g_chunk, g_has, g_fr; size_t g_co, g_cf; char g_kc, *G_buf; 
ssize_t vx_read(int f, void *b, size_t n) {
    VX_ASSERT(f == g_r, "from the pipe of the stream"); if (g_left == 0) { errno = EAGAIN; return nondet_bool() ? -1 : 0; }
    int k = nondet_int(); VX_ASSUME(k > 0 && k <= g_left && (size_t)k <= n); g_chunk = k; g_co = __CPROVER_POINTER_OBJECT(b); g_cf = __CPROVER_POINTER_OFFSET(b); g_left -= k; return k;
}
void *vx_realloc(void *p, size_t n) { VX_ASSERT(!g_fr && (g_cap == 0 ? p == 0 : p == G_buf), "the block so far"); if (g_left == 0 && g_chunk == 0) { VX_ASSERT(n == g_tot + 1, "cut to its size"); if (nondet_bool()) return 0; g_cap = n; return G_buf; } VX_ASSERT(n >= g_tot + (size_t)g_chunk + 1, "room for the new bytes and the end"); if (nondet_bool()) { g_has = 1; return 0; } g_cap = n; return G_buf; }
void vx_free(void *p) { if (p) { VX_ASSERT(p == G_buf && g_cap && !g_fr, "releases the block once"); g_fr = 1; } }
void *vx_copy(void *d, const void *s, size_t n) { VX_ASSERT(d == G_buf + g_tot && __CPROVER_POINTER_OBJECT(s) == g_co && __CPROVER_POINTER_OFFSET(s) == g_cf && n == (size_t)g_chunk && g_tot + n < g_cap, "appends the new bytes, inside the block"); g_tot += n; g_chunk = 0; return d; }
#define read vx_read
#define realloc vx_realloc
#define free vx_free
#define memcpy vx_copy
int fflush(FILE *s) { VX_ASSERT(g_f >= 1 && s == (g_f == 1 ? stdout : stderr), "of the stream"); g_flushed = 1; return 0; }
char *stream_read(int fd)
__CPROVER_assigns(g_left, g_tot, g_cap, g_has, g_chunk, g_co, g_cf, g_fr, g_flushed, g_errno, __CPROVER_object_whole(G_buf));
#include "src0.c"
void harness(void) {
    SETUP_FILES;     int n = nondet_int(); VX_ASSUME(0 <= n && n < 0x3fffffff); g_left = n; g_all = n; char buf[g_all + 1]; G_buf = buf; g_k = nondet_size(); VX_ASSUME(g_k < g_all || g_all == 0); if (g_all == 0) g_k = 0; g_kc = nondet_char(); buf[g_k] = g_kc; g_tot = g_cap = 0; g_chunk = g_has = g_fr = g_flushed = 0;
    g_f = nondet_int(); for (int i = 0; i < MAX_STREAMS; i++) { stream_info_t x; streams[i] = x; } _Bool std = g_f >= 0 && g_f <= 2, act = std && streams[g_f].is_active; if (act) g_r = streams[g_f].pipe_fds[0];
    char *r = stream_read(g_f);
    if (!act) { VX_ASSERT(r == 0 && g_left == n, "nothing is captured of a stream that is not redirected"); VX_REACH("inactive"); }
    else if (g_has) { VX_ASSERT(r == 0 && (g_cap == 0 || g_fr), "memory ran out: everything is released"); VX_REACH("memory ran out"); }
    else { VX_ASSERT(g_left == 0 && (g_flushed || g_f == 0), "everything captured was read"); if (n == 0) { VX_ASSERT(r == 0 && (g_cap == 0 || g_fr), "nothing captured"); VX_REACH("nothing"); } else { VX_ASSERT(r == buf && !g_fr && r[g_k] == g_kc && r[g_all] == 0 && g_cap > g_all, "all bytes in order, ended, inside the block"); if (n > 5000) VX_REACH("captured"); } }
}
