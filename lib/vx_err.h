/* The error report (inline printf wrapper in argus/errors.h) by its contract:
   evaluates its arguments, records the code. */
#ifndef VX_ERR_H
#define VX_ERR_H
#include "argus/errors.h"
#undef ARGUS_PARSING_ERROR
static void vx_err(argus_t *a, int e) { a->error_code = e; }
#define ARGUS_PARSING_ERROR(a, e, ...) ((void)(__VA_ARGS__), vx_err((a), (e)))
#undef ARGUS_STRUCT_ERROR
#ifdef VX_STRUCT_HOOK
#define ARGUS_STRUCT_ERROR(o, ...) ((void)(__VA_ARGS__), VX_STRUCT_HOOK(o))
#else
#define ARGUS_STRUCT_ERROR(o, ...) ((void)(__VA_ARGS__), (void)(o))
#endif
#endif
