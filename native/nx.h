/* Replay / oracle harness shared by the native drivers.
 *
 * A driver defines  void nx_case(void)  (one case, drawn from the case seed)
 * and  const char *nx_rule(void).  Every case is a pure function of its seed,
 * so `driver --case SEED` replays it.
 */
#ifndef NX_H
#define NX_H
#define _GNU_SOURCE
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include "argus.h"
#include "argus/internal/utils.h"
#include "argus/internal/parsing.h"
#include "argus/errors.h"
/* the drivers compare with the documented families and limits, not with what the headers make of them */
#undef VALUE_TYPE_ANY_NUMERIC
#undef VALUE_TYPE_ANY_BOOL
#undef VALUE_TYPE_PRIMITIVE
#undef VALUE_TYPE_ARRAY
#undef VALUE_TYPE_MAP
#undef VALUE_TYPE_VARIADIC
#undef MAX_SUBCOMMAND_DEPTH
#define VALUE_TYPE_ANY_NUMERIC (VALUE_TYPE_INT | VALUE_TYPE_FLOAT)
#define VALUE_TYPE_ANY_BOOL    (VALUE_TYPE_BOOL | VALUE_TYPE_FLAG)
#define VALUE_TYPE_PRIMITIVE   (VALUE_TYPE_INT | VALUE_TYPE_STRING | VALUE_TYPE_FLOAT | VALUE_TYPE_BOOL)
#define VALUE_TYPE_ARRAY       (VALUE_TYPE_ARRAY_STRING | VALUE_TYPE_ARRAY_INT | VALUE_TYPE_ARRAY_FLOAT)
#define VALUE_TYPE_MAP         (VALUE_TYPE_MAP_STRING | VALUE_TYPE_MAP_INT | VALUE_TYPE_MAP_FLOAT | VALUE_TYPE_MAP_BOOL)
#define VALUE_TYPE_VARIADIC    (VALUE_TYPE_VARIADIC_STRING | VALUE_TYPE_VARIADIC_INT | VALUE_TYPE_VARIADIC_FLOAT)
#define MAX_SUBCOMMAND_DEPTH   8

void        nx_case(void);
const char *nx_rule(void);

uint64_t nx_rand(void);
/* uniform in [0,n) */
size_t nx_below(size_t n);
int    nx_range(int lo, int hi); /* inclusive */
bool   nx_chance(int num, int den);
/* text of the case for replay files and samples */
void nx_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void nx_notestr(const char *label, const char *s); /* escaped */
/* abort the case as a violation */
void nx_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define NX_CHECK(c, ...) do { if (!(c)) nx_fail(__VA_ARGS__); } while (0)
/* mark a case as non-trivial */
void nx_mark(void);
/* per case arena: released at the end of the case */
void *nx_mem(size_t n);
char *nx_dup(const char *s);
/* exact-size heap copy, so that ASan sees any overread */
char *nx_fmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* small-alphabet random word */
char *nx_word(const char *alphabet, size_t min, size_t max);
/* the same for names; in some cases they are long (at most nx_longmax more
 * characters, common to all names of the case) or of mixed letter case */
extern size_t nx_longmax;
char *nx_name(const char *alphabet, size_t min, size_t max);
/* allocations made by the library (see nx_alloc.h) */
extern long nx_live;        /* blocks currently allocated by the library */
extern long nx_allocs;      /* allocation calls since nx_alloc_reset */
extern long nx_fail_at;     /* the nx_fail_at-th allocation fails (1-based); 0: none */
extern bool nx_failed;      /* an allocation was made to fail */
extern bool nx_fail_all;    /* all allocations after the first failing one fail, too */
void nx_alloc_reset(void);
/* release every block the library still holds, and forget them */
void nx_alloc_sweep(void);
bool nx_owned(const void *p);
/* run f(arg); returns true when it called exit(), with the code in nx_exit_code */
extern int nx_exit_code;
bool nx_exits(void (*f)(void *), void *arg);
/* capture what f prints on stdout/stderr */
char *nx_capture_out(void (*f)(void *), void *arg);
char *nx_capture_err(void (*f)(void *), void *arg);
void  nx_mute(void);   /* stderr to /dev/null (FILE level) for the process */
/* option tables */
argus_option_t nx_end(void);
/* a random set of marks that only concern the help texts */
int nx_marks(void);
#define argus_init_no_validate(o, n, v) _argus_init_validate((o), (n), (v), false)
extern uint64_t nx_seed;
extern int nx_thorough;
#endif
