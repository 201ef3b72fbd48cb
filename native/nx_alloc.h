/* forced into the library sources of the native drivers: counts and tracks
 * their allocations and intercepts exit() */
#ifndef NX_ALLOC_H
#define NX_ALLOC_H
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
void *nx_malloc(size_t n);
void *nx_calloc(size_t a, size_t b);
void *nx_realloc(void *p, size_t n);
void  nx_free(void *p);
char *nx_strdup(const char *s);
char *nx_strndup(const char *s, size_t n);
void  nx_exit(int code) __attribute__((noreturn));
#undef strdup
#undef strndup
#define malloc  nx_malloc
#define calloc  nx_calloc
#define realloc nx_realloc
#define free    nx_free
#define strdup  nx_strdup
#define strndup nx_strndup
#define exit    nx_exit
#ifdef NX_EXTRA
#include NX_EXTRA
#endif
#endif
