#include_next <stdlib.h>
#ifndef VP_SHIM_STDLIB
#define VP_SHIM_STDLIB
void vp_abort(void) __attribute__((noreturn));
#define abort() vp_abort()
#endif
