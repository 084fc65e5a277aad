/* Harness support. One source, two builds: VP_CBMC (symbolic, goto-cc/cbmc) and native (replay). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

uint64_t vp_u64(void);
uint32_t vp_u32(void);
uint16_t vp_u16(void);
uint8_t  vp_u8(void);
int vp_bool(void);
/* value in [lo,hi] */
uint64_t vp_range(uint64_t lo, uint64_t hi);
/* n symbolic bytes (n concrete) */
void vp_bytes(void *dst, size_t n);

#ifdef VP_CBMC
#  define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
#  define VP_ASSUME(c) __CPROVER_assume(c)
#  define VP_COVER(msg) __CPROVER_assert(0, "VPCOVER: " msg)
#else
void vp_native_assert(int c, const char *msg, const char *file, int line);
void vp_native_assume(int c);
#  define VP_ASSERT(c, msg) vp_native_assert(!!(c), msg, __FILE__, __LINE__)
#  define VP_ASSUME(c) vp_native_assume(!!(c))
#  define VP_COVER(msg) do { } while (0)
#endif
/* precondition-failures: path ends silently */
#define VP_REACH(msg) VP_COVER(msg)

/* entry point of each harness */
void vp_harness(void);
/* number of live allocations made through the allocator under test */
extern long vp_live;
#endif
