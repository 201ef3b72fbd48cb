/* Include the library's types with every union laid out as a struct: members
 * are kept apart, so a read through another member than the one written is an
 * arbitrary value. CBMC loses pointers stored in unions; a unit that includes
 * this reads each value only through the member it wrote. */
#ifndef VX_NOUNION_H
#define VX_NOUNION_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <inttypes.h>
#include <wchar.h>
#include <sys/types.h>
#include <unistd.h>
#define union struct
#include "argus/types.h"
#include "argus/errors.h"
#include "argus/options.h"
#undef union
#endif
