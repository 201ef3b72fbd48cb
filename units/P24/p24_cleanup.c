//@ src utils/stream.c
//@ drop stream_read stream_redirect stream_restore stream_is_active
//@ desc stream_cleanup_all: restores exactly the active streams, once each (three streams, unwound completely)
//@ nodfcc
//@ cbmc --unwind 5
//@ trust stream_restore by its contract (discharged in p24_restore)
#include "p24.h"
#include "src0.c"
int g_n[3];
void stream_restore(int fd) { VX_ASSERT(0 <= fd && fd < 3, "a standard stream"); if (streams[fd].is_active) g_n[fd]++; streams[fd].is_active = 0; }
void harness(void) {
    _Bool a[3]; for (int i = 0; i < 3; i++) { stream_info_t x; streams[i] = x; a[i] = x.is_active != 0; g_n[i] = 0; }
    stream_cleanup_all();
    for (int i = 0; i < 3; i++) VX_ASSERT(g_n[i] == a[i] && !streams[i].is_active, "every active stream is given back, once"); if (a[0] && a[2]) VX_REACH("active"); if (!a[0]) VX_REACH("inactive");
}
