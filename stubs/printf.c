/* snprintf family for the formats used by the code under check: %% %c %s %.*s %.Ns %d %i %u %x %X with hh h l ll z j and zero padded width */
#ifdef VP_CBMC
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
/* an argument may be of a smaller type than it is promoted to (CBMC does not promote) */
static uint64_t vp_va_int(void *p, int sign) {
	size_t n = __CPROVER_OBJECT_SIZE(p);
	if (n == 1) return sign ? (uint64_t) (int64_t) *(int8_t *) p : *(uint8_t *) p;
	if (n == 2) return sign ? (uint64_t) (int64_t) *(int16_t *) p : *(uint16_t *) p;
	if (n == 4) return sign ? (uint64_t) (int64_t) *(int32_t *) p : *(uint32_t *) p;
	return *(uint64_t *) p;
}
int vsnprintf (char *buf, size_t size, const char *f, va_list ap) {
	size_t o = 0;
#define VP_OUT(c) do { char vp_c = (char) (c); if (o + 1 < size) buf[o] = vp_c; o++; } while (0)
	while (*f) {
		if (*f != '%') { VP_OUT(*f); f++; continue; }
		f++;
		if (*f == '%') { VP_OUT('%'); f++; continue; }
		int zero = 0, width = 0, prec = -1, l = 0;
		if (*f == '0') { zero = 1; f++; }
		while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); } }
		while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f == 'h') l--; else l++; f++; }
		char c = *f++;
		if (c == 's') {
			const char *s = va_arg(ap, const char *);
			for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) VP_OUT(s[i]);
		}
		else if (c == 'c') { VP_OUT(va_arg(ap, int)); }
		else if (c == 'p') { (void) va_arg(ap, void *); VP_OUT('p'); }
		else {
			uint64_t v; int neg = 0;
			if (c == 'd' || c == 'i') {
				int64_t s = (int64_t) vp_va_int(*(void **) ap, 1); ap = (void *) ((void **) ap + 1);
				neg = s < 0; v = neg ? (uint64_t) 0 - (uint64_t) s : (uint64_t) s;
			}
			else {
				__CPROVER_assert(c == 'u' || c == 'x' || c == 'X', "format is supported by the stand-in");
				v = vp_va_int(*(void **) ap, 0); ap = (void *) ((void **) ap + 1);
			}
			unsigned int base = c == 'x' || c == 'X' ? 16 : 10;
			char d[20]; int n = 0;
			if (base == 16 && width > 0 && width <= 8 && l <= 0) {
				/* constant width where possible */
				do { unsigned int x = (unsigned int) (v & 15); d[n++] = (char) (x < 10 ? '0' + x : (c == 'x' ? 'a' : 'A') + x - 10); v >>= 4; } while (n < width || v != 0);
			}
			else do { unsigned int x = (unsigned int) (v % base); d[n++] = (char) (x < 10 ? '0' + x : (c == 'X' ? 'A' : 'a') + x - 10); v /= base; } while (v != 0);
			if (!zero) for (int i = n + neg; i < width; i++) VP_OUT(' ');
			if (neg) VP_OUT('-');
			if (zero) for (int i = n + neg; i < width; i++) VP_OUT('0');
			for (int i = n - 1; i >= 0; i--) VP_OUT(d[i]);
		}
	}
	if (size > 0) buf[o < size ? o : size - 1] = 0;
	return (int) o;
}
int snprintf (char *buf, size_t size, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, size, f, ap); va_end(ap); return r; }
int sprintf (char *buf, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(buf, 1 << 30, f, ap); va_end(ap); return r; }
int vasprintf (char **res, const char *f, va_list ap) {
	va_list a2; va_copy(a2, ap);
	int n = vsnprintf(NULL, 0, f, a2); va_end(a2);
	*res = malloc((size_t) n + 1);
	return vsnprintf(*res, (size_t) n + 1, f, ap);
}
int asprintf (char **res, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(res, f, ap); va_end(ap); return r; }
#endif
