/* Models of libc functions CBMC's own library lacks (symbolic build only; the native build uses the real ones) */
#ifdef VP_CBMC
#include <stddef.h>
#include <stdint.h>
#ifdef VP_LOOP_MEMCPY
/* byte by byte: keeps constants, for harnesses where the sizes are concrete */
void *memcpy(void *d, const void *s, size_t n) {
	for (size_t i = 0; i < n; i++) ((char *) d)[i] = ((const char *) s)[i];
	return d;
}
void *memmove(void *d, const void *s, size_t n) {
	if ((const char *) d <= (const char *) s || (const char *) d >= (const char *) s + n) { for (size_t i = 0; i < n; i++) ((char *) d)[i] = ((const char *) s)[i]; }
	else for (size_t i = n; i > 0; i--) ((char *) d)[i - 1] = ((const char *) s)[i - 1];
	return d;
}
#elif !defined(VP_OWN_MEMCPY)
/* as CBMC's own models, except that a size of zero accepts any pointer */
void *memcpy(void *d, const void *s, size_t n) {
	if (n > 0) {
		__CPROVER_precondition(__CPROVER_r_ok(s, n), "memcpy source region readable");
		__CPROVER_precondition(__CPROVER_w_ok(d, n), "memcpy destination region writeable");
		__CPROVER_precondition(__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s) || (const char *) s >= (const char *) d + n || (const char *) d >= (const char *) s + n, "memcpy src/dst overlap");
		char src_n[n];
		__CPROVER_array_copy(src_n, (char *) s);
		__CPROVER_array_replace((char *) d, src_n);
	}
	return d;
}
void *memmove(void *d, const void *s, size_t n) {
	if (n > 0) {
		__CPROVER_precondition(__CPROVER_r_ok(s, n), "memmove source region readable");
		__CPROVER_precondition(__CPROVER_w_ok(d, n), "memmove destination region writeable");
		char src_n[n];
		__CPROVER_array_copy(src_n, (char *) s);
		__CPROVER_array_replace((char *) d, src_n);
	}
	return d;
}
#endif
#ifdef VP_TYPED_MALLOC
extern void *vp_fresh;
void *memset(void *d, int c, size_t n) {
	if (d == vp_fresh && c == 0) { vp_fresh = NULL; return d; } /* already zero */
	if (n > 0) {
		unsigned char s_n[n];
		__CPROVER_precondition(__CPROVER_w_ok(d, n), "memset destination region writeable");
		__CPROVER_array_set(s_n, (unsigned char) c);
		__CPROVER_array_replace((unsigned char *) d, s_n);
	}
	return d;
}
#endif
int memcmp(const void *s1, const void *s2, size_t n) {
	int res = 0;
	if (n > 0) {
		__CPROVER_precondition(__CPROVER_r_ok(s1, n), "memcmp buffer 1 readable");
		__CPROVER_precondition(__CPROVER_r_ok(s2, n), "memcmp buffer 2 readable");
		const unsigned char *p = s1, *q = s2;
		for (; n != 0; n--) {
			res = (int) *p++ - (int) *q++;
			if (res != 0) return res;
		}
	}
	return res;
}
void *memchr(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char) c) return (void *) (p + i);
	return 0;
}
char *strstr(const char *h, const char *n) {
	for (size_t i = 0; ; i++) {
		size_t j = 0;
		while (n[j] != 0 && h[i + j] == n[j]) j++;
		if (n[j] == 0) return (char *) h + i;
		if (h[i] == 0) return 0;
	}
}
size_t strspn(const char *s, const char *a) {
	size_t i = 0;
	for (; s[i]; i++) { size_t j = 0; while (a[j] && a[j] != s[i]) j++; if (!a[j]) break; }
	return i;
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
#include <errno.h>
#include <ctype.h>
#include <limits.h>
/* value, end and ERANGE as specified; base 0, 10 and 16 */
static unsigned long long vp_strto(const char *s, char **end, int base, int *neg, int *over, int *any) {
	const char *p = s;
	while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
	*neg = 0; *over = 0; *any = 0;
	if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') &&
	    ((p[2] >= '0' && p[2] <= '9') || (p[2] >= 'a' && p[2] <= 'f') || (p[2] >= 'A' && p[2] <= 'F'))) { p += 2; base = 16; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0;
	for (;; p++) {
		int d;
		if (*p >= '0' && *p <= '9') d = *p - '0';
		else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
		else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
		else break;
		if (d >= base) break;
		*any = 1;
		if (v > ULLONG_MAX / 16 && (v > (ULLONG_MAX - (unsigned) d) / (unsigned) base)) { *over = 1; v = ULLONG_MAX; }
		if (!*over) v = v * (unsigned) base + (unsigned) d;
	}
	if (end) *end = (char *) (*any ? p : s);
	return v;
}
unsigned long long strtoull(const char *s, char **end, int base) {
	int neg, over, any; unsigned long long v = vp_strto(s, end, base, &neg, &over, &any);
	if (over) { errno = ERANGE; return ULLONG_MAX; }
	return neg ? 0 - v : v;
}
unsigned long strtoul(const char *s, char **end, int base) { return strtoull(s, end, base); }
long long strtoll(const char *s, char **end, int base) {
	int neg, over, any; unsigned long long v = vp_strto(s, end, base, &neg, &over, &any);
	if (neg) { if (over || v > (unsigned long long) LLONG_MAX + 1) { errno = ERANGE; return LLONG_MIN; } return v == (unsigned long long) LLONG_MAX + 1 ? LLONG_MIN : -(long long) v; }
	if (over || v > LLONG_MAX) { errno = ERANGE; return LLONG_MAX; }
	return (long long) v;
}
long strtol(const char *s, char **end, int base) { return strtoll(s, end, base); }
#endif
