#include "nx.h"
#include <stdarg.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>

uint64_t nx_seed; int nx_thorough;
static uint64_t st;
static char note[1 << 16]; static size_t notelen;
static bool marked;
static FILE *real_err, *real_out;
void __sanitizer_set_death_callback(void (*)(void));

uint64_t nx_rand(void) { /* splitmix64 */
    uint64_t z = (st += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
size_t nx_below(size_t n) { return n ? (size_t)(nx_rand() % n) : 0; }
int nx_range(int lo, int hi) { return lo + (int)nx_below((size_t)(hi - lo + 1)); }
bool nx_chance(int num, int den) { return (int)nx_below((size_t)den) < num; }
void nx_mark(void) { marked = true; }
void nx_note(const char *fmt, ...) {
    va_list a; va_start(a, fmt);
    int n = vsnprintf(note + notelen, sizeof(note) - notelen, fmt, a);
    va_end(a);
    if (n > 0) notelen = notelen + (size_t)n < sizeof(note) ? notelen + (size_t)n : sizeof(note) - 1;
}
void nx_notestr(const char *label, const char *s) {
    nx_note("%s", label);
    if (!s) { nx_note("NULL "); return; }
    nx_note("\"");
    for (const char *p = s; *p && p - s < 400; p++) {
        if (*p == '\n') nx_note("\\n");
        else if (*p == '"' || *p == '\\') nx_note("\\%c", *p);
        else if ((unsigned char)*p < 32 || (unsigned char)*p > 126) nx_note("\\x%02x", (unsigned char)*p);
        else nx_note("%c", *p);
    }
    nx_note("\" ");
}
static int out_fd = 1; /* the results, wherever the case puts descriptor 1 */
static void report(const char *msg) {
    char b[2200];
    int n = snprintf(b, sizeof b, "\nNXFAIL case=%llu what=%s\n", (unsigned long long)nx_seed, msg);
    (void)!write(out_fd, b, (size_t)(n < (int)sizeof b ? n : (int)sizeof b - 1));
    (void)!write(out_fd, "NXINPUT ", 8); (void)!write(out_fd, note, notelen); (void)!write(out_fd, "\nNXEND\n", 7);
}
void nx_fail(const char *fmt, ...) {
    char b[2048];
    va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    for (char *p = b; *p; p++) if (*p == '\n') *p = '|';
    report(b);
    _exit(3);
}
static void died(void) { report("sanitizer report (memory error or undefined behaviour)"); _exit(4); }
static void onalarm(int s) { (void)s; report("no answer (the call does not end)"); _exit(5); }

/* arena */
static void **arena; static size_t arena_n, arena_cap;
void *nx_mem(size_t n) {
    if (arena_n == arena_cap) { arena_cap = arena_cap ? arena_cap * 2 : 256; arena = realloc(arena, arena_cap * sizeof *arena); }
    void *p = calloc(1, n ? n : 1);
    arena[arena_n++] = p;
    return p;
}
char *nx_dup(const char *s) { if (!s) return NULL; size_t n = strlen(s) + 1; char *p = nx_mem(n); memcpy(p, s, n); return p; }
char *nx_fmt(const char *fmt, ...) {
    va_list a, b; va_start(a, fmt); va_copy(b, a);
    int n = vsnprintf(NULL, 0, fmt, a); va_end(a);
    char *p = nx_mem((size_t)(n < 0 ? 0 : n) + 1);
    vsnprintf(p, (size_t)(n < 0 ? 0 : n) + 1, fmt, b); va_end(b);
    return p;
}
char *nx_word(const char *al, size_t min, size_t max) {
    size_t n = min + nx_below(max - min + 1), k = strlen(al);
    char *p = nx_mem(n + 1);
    for (size_t i = 0; i < n; i++) p[i] = al[nx_below(k)];
    return p;
}
/* names: mostly short words; in some cases long ones with a common start, or
 * with letters of either case (the style is one of the case's first choices) */
size_t nx_longmax = 300; static int style = -1; static char *start;
char *nx_name(const char *al, size_t min, size_t max) {
    if (style < 0) {
        style = (int)nx_below(20);
        if (style == 1) {
            size_t n = (size_t[]){4 + nx_below(8), 12 + nx_below(24), 56 + nx_below(16), 120 + nx_below(16), 248 + nx_below(16), nx_longmax - nx_below(nx_longmax < 8 ? nx_longmax + 1 : 8)}[nx_below(6)];
            while (n > nx_longmax) n -= nx_longmax;
            start = nx_word("ab", n, n);
        }
    }
    char *w = nx_word(al, min, max);
    if (style == 1 && nx_chance(4, 5)) return nx_fmt("%s%s", start, w);
    if (style == 2) for (char *p = w; *p; p++) if (((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z')) && nx_chance(1, 3)) *p ^= 0x20;
    return w;
}
/* library allocations */
long nx_live, nx_allocs, nx_fail_at; bool nx_failed, nx_fail_all;
static void **own; static size_t own_n, own_cap;
static void *track(void *p) {
    if (!p) return p;
    if (own_n == own_cap) { own_cap = own_cap ? own_cap * 2 : 1024; own = realloc(own, own_cap * sizeof *own); }
    own[own_n++] = p; nx_live++;
    return p;
}
static bool untrack(void *p) {
    for (size_t i = own_n; i-- > 0;) if (own[i] == p) { own[i] = own[--own_n]; nx_live--; return true; }
    return false;
}
bool nx_owned(const void *p) { for (size_t i = 0; i < own_n; i++) if (own[i] == p) return true; return false; }
static bool deny(void) {
    nx_allocs++;
    if (nx_fail_at && (nx_allocs == nx_fail_at || (nx_fail_all && nx_allocs > nx_fail_at))) { nx_failed = true; errno = ENOMEM; return true; }
    return false;
}
void *nx_malloc(size_t n) { if (deny()) return NULL; void *p = malloc(n); if (p && n) memset(p, 0xA5, n); return track(p); }
void *nx_calloc(size_t a, size_t b) { if (deny()) return NULL; return track(calloc(a, b)); }
void *nx_realloc(void *p, size_t n) {
    if (deny()) return NULL;
    if (p && !untrack(p)) nx_fail("realloc of memory the library does not own");
    return track(realloc(p, n));
}
void nx_free(void *p) {
    if (!p) return;
    if (!untrack(p)) nx_fail("release of memory the library does not own (double free or the caller's memory)");
    free(p);
}
char *nx_strdup(const char *s) { if (deny()) return NULL; size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return track(p); }
char *nx_strndup(const char *s, size_t n) { if (deny()) return NULL; size_t l = strnlen(s, n); char *p = malloc(l + 1); memcpy(p, s, l); p[l] = 0; return track(p); }
void nx_alloc_reset(void) { nx_allocs = 0; nx_fail_at = 0; nx_failed = false; nx_fail_all = false; }
void nx_alloc_sweep(void) { while (own_n) free(own[--own_n]); nx_live = 0; nx_alloc_reset(); }

/* exit */
int nx_exit_code; static jmp_buf exit_jb; static bool exit_ok;
void nx_exit(int code) {
    if (!exit_ok) nx_fail("unexpected exit(%d)", code);
    nx_exit_code = code; exit_ok = false; longjmp(exit_jb, 1);
}
bool nx_exits(void (*f)(void *), void *arg) {
    exit_ok = true;
    if (setjmp(exit_jb)) return true;
    f(arg); exit_ok = false;
    return false;
}
/* capture */
static char *capture(FILE **s, void (*f)(void *), void *arg) {
    char *buf = NULL; size_t len = 0; FILE *old = *s;
    FILE *m = open_memstream(&buf, &len);
    *s = m; f(arg); *s = old; fclose(m);
    char *r = nx_mem(len + 1); memcpy(r, buf, len); r[len] = 0; free(buf);
    return r;
}
char *nx_capture_out(void (*f)(void *), void *arg) { return capture(&stdout, f, arg); }
char *nx_capture_err(void (*f)(void *), void *arg) { return capture(&stderr, f, arg); }
static FILE *nul;
void nx_mute(void) { if (!nul) nul = fopen("/dev/null", "w"); stderr = nul; }
int nx_marks(void) {
    int f = 0;
    if (!nx_chance(1, 4)) return 0;
    if (nx_chance(1, 2)) f |= FLAG_HIDDEN;
    if (nx_chance(1, 2)) f |= FLAG_ADVANCED;
    if (nx_chance(1, 2)) f |= FLAG_DEPRECATED;
    if (nx_chance(1, 2)) f |= FLAG_EXPERIMENTAL;
    nx_note("(marks %x) ", f);
    return f;
}
argus_option_t nx_end(void) { return OPTION_END(); }

/* distinct cases, by hash of their text */
static uint64_t *seen; static size_t seen_cap = 1 << 18, seen_n;
static bool fresh(void) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < notelen; i++) h = (h ^ (unsigned char)note[i]) * 1099511628211ull;
    if (!h) h = 1;
    if (!seen) seen = calloc(seen_cap, sizeof *seen);
    if (seen_n * 2 > seen_cap) return true;
    for (size_t k = h % seen_cap;; k = (k + 1) % seen_cap) {
        if (seen[k] == h) return false;
        if (!seen[k]) { seen[k] = h; seen_n++; return true; }
    }
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static void one(uint64_t seed) {
    nx_seed = seed; st = seed * 0x2545F4914F6CDD1Dull + 88172645463325252ull; notelen = 0; note[0] = 0; marked = false; style = -1;
    nx_alloc_reset();
    alarm(20);
    nx_case();
    alarm(0);
    nx_alloc_sweep();
    while (arena_n) free(arena[--arena_n]);
    stderr = real_err; stdout = real_out;
}
int main(int argc, char **argv) {
    uint64_t seed = 1, only = 0; double budget = 5; uint64_t max = (uint64_t)-1; bool single = false;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--case")) { only = strtoull(argv[i + 1], 0, 10); single = true; }
        else if (!strcmp(argv[i], "--time")) budget = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--max")) max = strtoull(argv[i + 1], 0, 10);
        else if (!strcmp(argv[i], "--thorough")) nx_thorough = atoi(argv[i + 1]);
    }
    __sanitizer_set_death_callback(died);
    signal(SIGALRM, onalarm); signal(SIGPIPE, SIG_IGN);
    real_err = stderr; real_out = stdout; out_fd = dup(1); if (out_fd < 0) out_fd = 1;
    if (single) { one(only); printf("NXINPUT %s\nNXEND\nNXOK case=%llu\n", note, (unsigned long long)only); return 0; }
    double t0 = now(); uint64_t n = 0, distinct = 0;
    char *samples[3] = {0};
    for (; n < max && now() - t0 < budget; n++) {
        one(seed * 1000000007ull + n);
        if (marked && fresh()) {
            distinct++;
            if (distinct <= 3) samples[distinct - 1] = strdup(note);
        }
    }
    fprintf(real_out, "NXDONE cases=%llu distinct=%llu\n", (unsigned long long)n, (unsigned long long)distinct);
    for (int i = 0; i < 3; i++) if (samples[i]) fprintf(real_out, "NXSAMPLE %s\n", samples[i]);
    fprintf(real_out, "NXRULE %s\n", nx_rule());
    return 0;
}
