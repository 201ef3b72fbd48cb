/* Ghost state and helpers shared by every verification unit. */
#ifndef VX_H
#define VX_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#define VX_ASSUME(c) __CPROVER_assume(c)
#define VX_ASSERT(c, m) __CPROVER_assert((c), m)
/* the trusted model of a library function covers this call; otherwise the unit decides nothing */
#define VX_MODEL(c, m) do { __CPROVER_assert((c), "MODEL " m); __CPROVER_assume(c); } while (0)
/* must be reported as FAILED: shows the point is reachable under the contract */
#define VX_REACH(m) __CPROVER_assert(0, "REACH " m)
#define IMPLIES(a, b) (!(a) || (b))
_Bool  nondet_bool(void);
int    nondet_int(void);
char   nondet_char(void);
unsigned char nondet_uchar(void);
size_t nondet_size(void);
int64_t nondet_i64(void);
double nondet_double(void);
void  *nondet_ptr(void);
#endif
