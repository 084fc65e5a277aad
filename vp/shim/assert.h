#undef assert
void vp_assert_fail(const char *expr) __attribute__((noreturn));
#define assert(e) ((e) ? (void) 0 : vp_assert_fail(#e))
#ifndef static_assert
#define static_assert _Static_assert
#endif
