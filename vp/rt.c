#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#undef abort
long vp_live = 0;
#ifdef VP_CBMC
uint64_t nondet_u64(void); uint32_t nondet_u32(void); uint16_t nondet_u16(void); uint8_t nondet_u8(void);
uint64_t vp_u64(void) { uint64_t vpin = nondet_u64(); __CPROVER_input("vpin", vpin); return vpin; }
uint32_t vp_u32(void) { uint32_t vpin = nondet_u32(); __CPROVER_input("vpin", vpin); return vpin; }
uint16_t vp_u16(void) { uint16_t vpin = nondet_u16(); __CPROVER_input("vpin", vpin); return vpin; }
uint8_t vp_u8(void) { uint8_t vpin = nondet_u8(); __CPROVER_input("vpin", vpin); return vpin; }
int vp_bool(void) { uint8_t vpin = nondet_u8(); __CPROVER_assume(vpin <= 1); __CPROVER_input("vpin", vpin); return vpin != 0; }
void vp_abort(void) { __CPROVER_assert(0, "VP: abort() reached"); __CPROVER_assume(0); }
void vp_assert_fail(const char *e) { (void) e; __CPROVER_assert(0, "VP: assert() or RRR_BUG in the code under test failed"); __CPROVER_assume(0); }
uint64_t vp_range(uint64_t lo, uint64_t hi) { if (lo == hi) return lo; uint64_t vpin = nondet_u64(); __CPROVER_assume(vpin >= lo && vpin <= hi); __CPROVER_input("vpin", vpin); return vpin; }
#ifdef VP_TYPED_MALLOC
void *vp_fresh;
#endif
#ifdef VP_ALLOC_FAIL
extern int vp_alloc_fail_now(void);
#else
#define vp_alloc_fail_now() 0
#endif
void *mallocx(size_t size, int flags) {
	if (vp_alloc_fail_now()) return NULL;
	vp_live++;
#ifdef VP_TYPED_MALLOC
	/* the harness may supply a zeroed object of a struct type for structs with flexible arrays (keeps pointers in them constant) */
	extern void *vp_typed_malloc(size_t); extern void *vp_fresh;
	void *t = vp_typed_malloc(size);
	if (t != NULL) { vp_fresh = t; return t; }
#endif
#ifdef VP_ALLOC_FIXED
	/* every object gets the same constant size (much cheaper for the solver; overruns inside of it are not seen) */
	__CPROVER_assert(size <= VP_ALLOC_FIXED, "VP_ALLOC_FIXED is large enough");
	size = VP_ALLOC_FIXED;
#endif
	if (flags & 1) return calloc(1, size);
	return malloc(size);
}
void *rallocx(void *ptr, size_t size, int flags) {
	(void) flags;
	if (vp_alloc_fail_now()) return NULL;
	char *res = malloc(size);
	size_t old = __CPROVER_OBJECT_SIZE(ptr);
	if (old > size) old = size;
	memcpy(res, ptr, old);
	free(ptr);
	return res;
}
#else
static FILE *vp_f;
static uint64_t vp_next(void) {
	if (vp_f == NULL) {
		const char *p = getenv("VP_INPUTS");
		if (p == NULL || (vp_f = fopen(p, "r")) == NULL) { fprintf(stderr, "no VP_INPUTS\n"); exit(78); }
	}
	unsigned long long v = 0;
	if (fscanf(vp_f, "%llu", &v) != 1) { /* solver left the rest unconstrained */ v = 0; }
	return v;
}
uint64_t vp_u64(void) { return vp_next(); }
uint32_t vp_u32(void) { return (uint32_t) vp_next(); }
uint16_t vp_u16(void) { return (uint16_t) vp_next(); }
uint8_t vp_u8(void) { return (uint8_t) vp_next(); }
int vp_bool(void) { return vp_next() != 0; }
uint64_t vp_range(uint64_t lo, uint64_t hi) { if (lo == hi) return lo; uint64_t v = vp_next(); if (v < lo || v > hi) { if (vp_f && feof(vp_f)) return lo; exit(77); } return v; }
void vp_abort(void) { fprintf(stderr, "VP-FAIL: abort() reached\n"); _Exit(42); }
void vp_assert_fail(const char *e) { fprintf(stderr, "VP-FAIL: assert(%s) in code under test\n", e); _Exit(42); }
void vp_native_assert(int c, const char *msg, const char *file, int line) { if (!c) { fprintf(stderr, "VP-FAIL: %s (%s:%d)\n", msg, file, line); fflush(stderr); _Exit(42); } }
void vp_native_assume(int c) { if (!c) { fprintf(stderr, "VP-ASSUME not met\n"); _Exit(77); } }
#ifdef VP_ALLOC_FAIL
extern int vp_alloc_fail_now(void);
#else
#define vp_alloc_fail_now() 0
#endif
void *mallocx(size_t size, int flags) { if (vp_alloc_fail_now()) return NULL; vp_live++; return (flags & 1) ? calloc(1, size) : malloc(size); }
void *rallocx(void *ptr, size_t size, int flags) { (void) flags; if (vp_alloc_fail_now()) return NULL; return realloc(ptr, size); }
#endif
void vp_bytes(void *dst, size_t n) { uint8_t *p = dst; for (size_t i = 0; i < n; i++) p[i] = vp_u8(); }
int main(void) { vp_harness(); return 0; }
