#include "nx.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/stat.h>
#include "argus/internal/stream.h"
const char *nx_rule(void) { return "sequences of up to 14 calls (redirect, write, buffered write, read, restore, cleanup, is_active) on the three standard streams and on descriptors that are none, with any system call of a redirection or allocation failing and reads returning short counts; captured text, result codes, the identity of every descriptor and the text that reached the real streams are compared with a reference; captured text stays below what a pipe holds (48 KiB); non-trivial: at least one redirection and one write"; }
static int fail_in; static bool inred, shorty; static int badclose;
static bool bad(void) { if (inred && fail_in && --fail_in == 0) { errno = EMFILE; return true; } return false; }
int n24_pipe(int p[2]) { return bad() ? -1 : pipe(p); } int n24_dup(int a) { return bad() ? -1 : dup(a); } int n24_dup2(int a, int b) { return bad() ? -1 : dup2(a, b); }
int n24_fcntl(int a, int c, ...) { va_list l; va_start(l, c); long x = va_arg(l, long); va_end(l); return bad() ? -1 : fcntl(a, c, x); }
ssize_t n24_read(int f, void *b, size_t n) { return read(f, b, shorty && n > 1 ? 1 + nx_below(n < 9 ? n : 9) : n); }
int n24_close(int f) { int r = close(f); if (r) badclose++; return r; }
static struct stat id[64]; static bool open_[64]; static void snap(void) { for (int f = 0; f < 64; f++) { open_[f] = !fstat(f, &id[f]); } }
static int ndesc(void) { int n = 0; struct stat s; for (int f = 0; f < 64; f++) n += !fstat(f, &s); return n; }
static bool same(int f) { struct stat s; bool o = !fstat(f, &s); return o == open_[f] && (!o || (s.st_dev == id[f].st_dev && s.st_ino == id[f].st_ino)); }
typedef struct { char b[1 << 19]; size_t n; } buf_t; static buf_t cap[3], real[3], pend; static void add(buf_t *b, const char *s, size_t n) { if (b->n + n <= sizeof b->b) { memcpy(b->b + b->n, s, n); b->n += n; } }
static char why[300]; static int tmp[3] = {-1, -1, -1}, saved[3];
#define CK(c, ...) do { if (!(c)) { snprintf(why, sizeof why, __VA_ARGS__); goto out; } } while (0)
void nx_case(void) {
    static FILE *own; if (tmp[0] < 0) { own = stdout; for (int i = 0; i < 3; i++) { FILE *f = tmpfile(); if (!f) return; tmp[i] = fileno(f); } }
    fflush(stdout); fflush(stderr); for (int i = 0; i < 3; i++) { saved[i] = dup(i); (void)!ftruncate(tmp[i], 0); lseek(tmp[i], 0, SEEK_SET); dup2(tmp[i], i); cap[i].n = real[i].n = 0; } pend.n = 0; FILE *err = stderr; 
    snap(); int base = ndesc(); bool act[3] = {0}; why[0] = 0; bool red = false, wr = false; shorty = nx_chance(1, 3); badclose = 0; long live = nx_live; size_t held[3] = {0};
    size_t n = 1 + nx_below(14); nx_note("%s", shorty ? "short reads " : "");
    for (size_t k = 0; k < n; k++) {
        int f = nx_chance(1, 2) ? STDOUT_FILENO : nx_range(-1, 3), op = nx_range(0, 8); bool std = f >= 0 && f <= 2;
        if (op <= 1) { fail_in = nx_chance(1, 3) ? nx_range(1, 6) : 0; nx_note("redirect(%d)%s%d ", f, fail_in ? "!" : "", fail_in); int fi = fail_in; inred = true; int r = stream_redirect(f); inred = false; bool hit = fi && !fail_in; fail_in = 0;
            int want = !std ? STREAM_ERROR_INVALID_FD : act[f] ? STREAM_ERROR_ALREADY_ACTIVE : 0; if (want) CK(r == want, "redirect %d returned %d", f, r); else if (hit) CK(r != 0, "redirect %d succeeds although a system call failed", f); else CK(r == 0, "redirect %d fails: %d", f, r);
            if (!r && std) { act[f] = true; red = true; if (f == 1) { add(&real[1], pend.b, pend.n); pend.n = 0; } } else if (std && f == 1 && !act[1] && pend.n) { fflush(stdout); add(&real[1], pend.b, pend.n); pend.n = 0; } }
        else if (op <= 4 && std) { bool big = nx_chance(1, 12); size_t m = big ? nx_chance(1, 3) ? 4096 * (size_t)nx_range(1, 8) + (size_t)nx_range(-1, 1) : nx_below(9000) : nx_below(12); char *s = nx_word("abcdef\n", m, m); nx_note("write(%d,%zu) ", f, m); wr = true; buf_t *t = act[f] ? &cap[f] : &real[f]; if (t == &cap[f] && held[f] + m > 48000) continue;
            if (f == 1 && !big && nx_chance(1, 2)) { if (act[1]) held[1] += m; fwrite(s, 1, m, stdout); add(&pend, s, m); if (pend.n > 900) { fflush(stdout); add(t, pend.b, pend.n); pend.n = 0; } } else { if (act[f]) held[f] += m; (void)!write(f, s, m); add(t, s, m); } }
        else if (op <= 6) { nx_note("read(%d) ", f); char *s = stream_read(f); if (std && act[f]) { if (f == 1) { add(&cap[1], pend.b, pend.n); pend.n = 0; } CK(cap[f].n ? s && strlen(s) == cap[f].n && !memcmp(s, cap[f].b, cap[f].n) : !s, "read %d: %s, %zu bytes were captured", f, s ? "wrong text" : "nothing", cap[f].n); cap[f].n = held[f] = 0; } else CK(!s, "read %d gives something", f); if (s) { extern void nx_free(void *); nx_free(s); } }
        else if (op == 7) { nx_note("restore(%d) ", f); if (f == 1 && act[1]) pend.n = 0; stream_restore(f); if (std) { act[f] = false; cap[f].n = held[f] = 0; } }
        else if (nx_chance(1, 2)) { nx_note("cleanup "); if (act[1]) pend.n = 0; stream_cleanup_all(); for (int i = 0; i < 3; i++) { act[i] = false; cap[i].n = held[i] = 0; } }
        int na = 0; for (int i = 0; i < 3; i++) { na += act[i]; CK(!!stream_is_active(i) == act[i], "stream %d is%s active", i, act[i] ? " not" : ""); if (!act[i]) CK(same(i), "stream %d is not what it was", i); else CK(!same(i), "stream %d is not redirected", i); }
        CK(ndesc() == base + 2 * na, "%d descriptors open, %d expected", ndesc(), base + 2 * na); CK(!badclose, "closed a descriptor that is not open"); CK(nx_live == live, "%ld blocks kept", nx_live - live);
    }
out:
    inred = false; fail_in = 0; shorty = false; if (act[1]) pend.n = 0; stream_cleanup_all(); fflush(stdout); add(&real[1], pend.b, pend.n);
    if (!why[0]) for (int i = 0; i < 64; i++) if (!same(i)) { snprintf(why, sizeof why, "descriptor %d is not what it was at the end", i); break; }
    for (int i = 0; i < 3; i++) { if (!why[0]) { static char got[1 << 19]; lseek(tmp[i], 0, SEEK_SET); ssize_t m = read(tmp[i], got, sizeof got); if (m != (ssize_t)real[i].n || memcmp(got, real[i].b, real[i].n)) snprintf(why, sizeof why, "stream %d itself got %zd bytes, %zu expected", i, m, real[i].n); } dup2(saved[i], i); close(saved[i]); }
    if (red && wr) nx_mark(); NX_CHECK(!why[0], "%s", why);
}
