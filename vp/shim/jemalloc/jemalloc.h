#ifndef VP_SHIM_JEMALLOC
#define VP_SHIM_JEMALLOC
#include <stddef.h>
#define MALLOCX_ZERO 1
void *mallocx(size_t size, int flags);
void *rallocx(void *ptr, size_t size, int flags);
#endif
