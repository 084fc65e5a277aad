/* HTTP text utilities: percent coding, quoting, searching, numbers and URIs */
#include "vp.h"
#include <string.h>
#include "lib/allocator.h"
#include "lib/http/http_util.h"
#include "lib/helpers/nullsafe_str.h"
#ifndef N
#define N 1
#endif
#define MAXO (MODE == 0 ? 3 * N + 1 : N + 1)
static uint8_t out[80]; static int out_len;
#ifdef VP_CBMC
#include <stdarg.h>
#include <errno.h>
/* the three formats used here */
int sprintf(char *o, const char *f, ...) {
	va_list a;
	va_start(a, f);
	int n = 0;
	if (f[0] == '%' && f[1] == 's') {
		const char *x = va_arg(a, const char *);
		while (x[n]) { o[n] = x[n]; n++; }
		if (f[2]) {
			VP_ASSERT(f[2] == '%' && f[3] == '0' && f[4] == '2' && f[5] == 'X' && f[6] == 0, "format");
			unsigned v = *(uint8_t *) *(void **) a; /* CBMC does not promote */
			VP_ASSERT(v <= 255, "format");
			o[n++] = "0123456789ABCDEF"[v >> 4];
			o[n++] = "0123456789ABCDEF"[v & 15];
		}
	}
	else { VP_ASSERT(f[0] == '/' && f[1] == 0, "format"); o[n++] = '/'; }
	va_end(a);
	o[n] = 0;
	return n;
}
#endif
static int get(const void *s, rrr_nullsafe_len len, void *arg) { (void) arg; VP_ASSERT(len <= MAXO, "length"); out_len = (int) len; for (rrr_nullsafe_len i = 0; i < MAXO; i++) if (i < len) out[i] = ((const uint8_t *) s)[i]; return 0; }
static void get_str(const struct rrr_nullsafe_str *s) { rrr_nullsafe_str_with_raw_do_const(s, get, NULL); }
static struct rrr_nullsafe_str *mk(const void *d, int n) {
	/* exactly as large as the text */
	struct rrr_nullsafe_str *s = NULL; void *p = NULL;
	if (n > 0) { p = malloc((size_t) n); memcpy(p, d, (size_t) n); }
	VP_ASSERT(rrr_nullsafe_str_new_or_replace_raw_allocated(&s, &p, (rrr_nullsafe_len) n) == 0, "new");
	return s;
}
static int alnum(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int in(const char *set, int c) { for (int i = 0; set[i]; i++) if (set[i] == c) return 1; return 0; }
#ifndef N
#define N 1
#endif
static uint8_t d[N + 1];
#if MODE == 0 /* percent encoding: only unreserved characters remain; the decoding which undoes this is MODE 1 */
static void run(void) {
	vp_bytes(d, N);
	struct rrr_nullsafe_str *s = mk(d, N), *e = NULL;
	VP_ASSERT(rrr_http_util_uri_encode(&e, s) == 0, "encode");
	get_str(e);
	int p = 0;
	for (int i = 0; i < N; i++) {
		if (alnum(d[i]) || in("-_.!~*'()", d[i])) VP_ASSERT(out[p] == d[i], "unreserved character"), p++;
		else {
			VP_ASSERT(out[p] == '%' && out[p + 1] == "0123456789ABCDEF"[d[i] >> 4] && out[p + 2] == "0123456789ABCDEF"[d[i] & 15], "encoded character");
			p += 3;
		}
	}
	VP_ASSERT(p == out_len, "length");
}
#elif MODE == 1 /* decoding of anything */
static void run(void) {
	vp_bytes(d, N);
	struct rrr_nullsafe_str *s = mk(d, N);
	uint8_t o[N + 1]; int p = 0, bad = 0;
	for (int i = 0; i < N && !bad; i++) {
		if (d[i] != '%') o[p++] = d[i];
		else if (i + 2 >= N || hex(d[i + 1]) < 0 || hex(d[i + 2]) < 0) bad = 1;
		else { o[p++] = (uint8_t) (hex(d[i + 1]) * 16 + hex(d[i + 2])); i += 2; }
	}
	int r = rrr_http_util_urlencoded_string_decode(s);
	VP_ASSERT((r != 0) == bad, "malformed sequences are refused");
	if (!bad) {
		get_str(s);
		VP_ASSERT(out_len == p, "length");
		for (int i = 0; i < N; i++) if (i < p) VP_ASSERT(out[i] == o[i], "decoded text");
	}
}
#elif MODE == 2 /* header value quoting: what is quoted is found again */
static void run(void) {
	vp_bytes(d, N);
	int bad = 0, token = 1;
	for (int i = 0; i < N; i++) {
		VP_ASSUME(d[i] != '\r');
		if ((d[i] < 32 && d[i] != '\t') || d[i] > 126) bad = 1;
		if (in("()<>@,;:\\\"[] \t", d[i])) token = 0;
	}
	struct rrr_nullsafe_str *s = mk(d, N);
	char *q = rrr_http_util_header_value_quote_nullsafe(s, '"', '"');
	VP_ASSERT((q == NULL) == bad, "control and non-ASCII characters are refused");
	if (q) {
		int l = (int) strlen(q);
		if (!token) {
			VP_ASSERT(q[0] == '"' && q[l - 1] == '"' && l >= N + 2, "quoted");
			/* ends at the last quote and not before, and is the text when the quotes are removed (MODE 3 does that with the real function) */
			int esc = 0, end = -1, n = 0;
			for (int i = 1; i < 2 * N + 2; i++) if (i < l && end < 0) {
				if (!esc && q[i] == '\\') esc = 1;
				else if (!esc && q[i] == '"') end = i;
				else { VP_ASSERT(n < N && (uint8_t) q[i] == d[n], "text"); n++; esc = 0; }
			}
			VP_ASSERT(end == l - 1 && n == N, "quoted string ends where it should");
		}
		else {
			VP_ASSERT(l == N || (l == N + 2 && q[0] == '"' && q[l - 1] == '"'), "text");
			for (int i = 0; i < N; i++) VP_ASSERT((uint8_t) q[i + (l == N ? 0 : 1)] == d[i], "text");
		}
	}
}
#elif MODE == 3 /* unquoting of anything */
static void run(void) {
	vp_bytes(d, N);
	struct rrr_nullsafe_str *s = mk(d, N);
	VP_ASSERT(rrr_http_util_unquote_string(s) == 0, "unquote");
	get_str(s);
	uint8_t o[N + 1]; int n = 0, quote = 0;
	for (int i = 0; i < N; i++) {
		if (quote && d[i] == '\\' && i + 1 < N && (d[i + 1] == quote || d[i + 1] == '\\')) o[n++] = d[++i];
		else if (quote) { if (d[i] == quote) quote = 0; else o[n++] = d[i]; }
		else if (d[i] == '"') quote = '"';
		else if (d[i] == '(') quote = ')';
		else o[n++] = d[i];
	}
	VP_ASSERT(out_len == n, "length");
	for (int i = 0; i < N; i++) if (i < n) VP_ASSERT(out[i] == o[i], "unquoted text");
}
#elif MODE == 4 /* searching */
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void run(void) {
	char *h = malloc(N + (N == 0));
	vp_bytes((uint8_t *) h, N);
	const char *needle = NEEDLE, *r;
	rrr_length rl;
	int nl = (int) strlen(needle), at = -1;
	for (int i = 0; i + nl <= N && at < 0; i++) {
		int ok = 1;
		for (int j = 0; j < nl; j++) if (low(h[i + j]) != low(needle[j])) ok = 0;
		if (ok) at = i;
	}
	int ret = rrr_http_util_strcasestr(&r, &rl, h, h + N, needle);
	VP_ASSERT((ret == 0) == (at >= 0), "found if it is there");
	if (ret == 0) VP_ASSERT(r == h + at && rl == (rrr_length) nl, "position");
	int crlf = -1;
	for (int i = 0; i + 1 < N && crlf < 0; i++) if (h[i] == '\r' && h[i + 1] == '\n') crlf = i;
	const char *c = rrr_http_util_find_crlf(h, h + N);
	VP_ASSERT(crlf < 0 ? c == NULL : c == h + crlf, "line end");
	int ws = 0;
	while (ws < N && (h[ws] == ' ' || h[ws] == '\t')) ws++;
	VP_ASSERT(rrr_http_util_count_whsp(h, h + N) == (rrr_length) ws, "whitespace");
}
#elif MODE == 5 /* numbers */
static void run(void) {
	char *h = malloc(N);
	int pre = (int) strlen(PRE);
	for (int i = 0; i < N; i++) h[i] = i < pre ? PRE[i] : (char) vp_u8();
	unsigned long long v;
	rrr_length rl;
	unsigned __int128 x = 0;
	int n = 0;
	while (n < N && hex(h[n]) >= 0 && hex(h[n]) < BASE) { x = x * BASE + (unsigned) hex(h[n]); n++; }
	int r = rrr_http_util_strtoull_raw(&v, &rl, h, h + N, BASE);
	VP_ASSERT((r == 0) == (n > 0 && x <= 0xffffffffffffffffULL), "numbers which can not be represented are refused");
	if (r == 0) VP_ASSERT(v == (unsigned long long) x && rl == (rrr_length) n, "value");
	struct rrr_nullsafe_str *s = mk(h, N);
	unsigned long long v2;
	VP_ASSERT(rrr_http_util_strtoull(&v2, s, BASE) == r && (r != 0 || v2 == v), "value");
}
#elif MODE == 6 /* URIs made of parts */
static int same(const char *a, const uint8_t *b, int n) { if (a == NULL) return 0; for (int i = 0; i < n; i++) if (a[i] != (char) b[i]) return 0; return a[n] == 0; }
static void run(void) {
	/* scheme :// host [: port] endpoint; a character anywhere may be ~ in TEXT, for anything allowed there */
	uint8_t u[64]; int n = 0;
	int sl = (int) strlen(SCHEME);
	for (int i = 0; i < sl; i++) u[n++] = SCHEME[i];
	int h0 = n;
	const int HL = (int) strlen(HOST), PL = (int) strlen(PORT), EL = (int) strlen(ENDPOINT);
	for (int i = 0; i < HL; i++) { uint8_t c = HOST[i]; if (c == '~') { c = vp_u8(); VP_ASSUME(alnum(c) || c == '.' || (i > 0 && c == '-')); } u[n++] = c; }
	unsigned port = 0;
	if (PL > 0) {
		u[n++] = ':';
		for (int i = 0; i < PL; i++) { uint8_t c = PORT[i]; if (c == '~') { c = vp_u8(); VP_ASSUME(c >= '0' && c <= '9'); } port = port * 10 + c - '0'; u[n++] = c; }
	}
	int e0 = n;
	for (int i = 0; i < EL; i++) { uint8_t c = ENDPOINT[i]; if (c == '~') { c = vp_u8(); VP_ASSUME(alnum(c) || in("!#$%&'*+-.;/?:@=,_~", c)); if (i == 0 && sl) VP_ASSUME(c == '/'); if (!sl) VP_ASSUME(c != '/' && c != ':'); } u[n++] = c; }
	struct rrr_nullsafe_str *s = mk(u, n);
	struct rrr_http_uri *r = NULL;
	int ret = rrr_http_util_uri_parse(&r, s);
	const char *proto = PROTO;
	int ok = proto != NULL || !sl;
	if (PL > 0 && (port < 1 || port > 65535)) ok = 0;
	VP_ASSERT((ret == 0) == ok, "accepted exactly when protocol and port are valid");
	if (ret == 0) {
		if (sl) {
			VP_ASSERT(strcmp(r->protocol, proto) == 0, "protocol");
			VP_ASSERT(HL ? same(r->host, u + h0, HL) : r->host == NULL, "host");
			int def = proto[strlen(proto) - 1] == 's' && strcmp(proto, "ws") != 0 ? 443 : 80;
			VP_ASSERT(r->port == (PL > 0 ? port : (unsigned) def), "port");
			struct rrr_http_uri_flags f;
			rrr_http_util_uri_flags_get(&f, r);
			VP_ASSERT(f.is_tls == (def == 443) && f.is_websocket == (proto[0] == 'w') && f.is_http == (proto[0] == 'h'), "flags");
		}
		else VP_ASSERT(r->protocol == NULL && r->host == NULL && r->port == 0, "only an endpoint");
		VP_ASSERT(same(r->endpoint, u + e0, EL), "endpoint");
		rrr_http_util_uri_destroy(r);
	}
}
#elif MODE == 7 /* URIs of anything: nothing outside of the text is used */
static void run(void) {
	/* ~ in TEXT is any character */
	const int n = (int) strlen(TEXT);
	const int sl = TEXT[0] != 'w' && TEXT[0] != 'h';
	uint8_t u[24];
	for (int i = 0; i < n; i++) u[i] = TEXT[i] == '~' ? vp_u8() : (uint8_t) TEXT[i];
	struct rrr_nullsafe_str *s = mk(u, n);
	struct rrr_http_uri *r = NULL;
	if (n > 0 && rrr_http_util_uri_parse(&r, s) == 0) {
		VP_ASSERT(r->endpoint != NULL && (int) strlen(r->endpoint) <= n, "endpoint");
		if (sl && n < 6) VP_ASSERT(r->protocol == NULL, "protocol");
		rrr_http_util_uri_destroy(r);
	}
	struct rrr_http_uri a = {0};
	if (n > 0) rrr_http_util_uri_host_parse(&a, s, RRR_HTTP_TRANSPORT_HTTPS, RRR_HTTP_APPLICATION_HTTP2);
	rrr_http_util_uri_clear(&a);
}
#elif MODE == 8 /* query string */
static int q_at, q_called;
static int dec_len; static uint8_t dec[N + 1];
static int split(const void *e, rrr_nullsafe_len el, const void *q, rrr_nullsafe_len ql, void *arg) {
	(void) arg;
	q_called++;
	VP_ASSERT((int) el == dec_len, "endpoint");
	for (int i = 0; i < N; i++) if (i < dec_len) VP_ASSERT(((const uint8_t *) e)[i] == dec[i], "endpoint");
	VP_ASSERT((int) ql == (q_at < N ? N - q_at - 1 : 0), "query string");
	for (int i = 0; i < N; i++) if (i > q_at) VP_ASSERT(((const uint8_t *) q)[i - q_at - 1] == d[i], "query string");
	return 3;
}
static int cut;
static int clean(const void *e, rrr_nullsafe_len el, void *arg) { (void) arg; (void) e; VP_ASSERT((int) el == cut, "endpoint"); return 4; }
static void run(void) {
	vp_bytes(d, N);
	struct rrr_nullsafe_str *s = mk(d, N);
	q_at = N; cut = N;
	for (int i = N - 1; i >= 0; i--) { if (d[i] == '?') q_at = i; if (d[i] == '?' || d[i] == '#') cut = i; }
	int bad = 0;
	for (int i = 0; i < N && i < q_at && !bad; i++) {
		if (d[i] != '%') dec[dec_len++] = d[i];
		else if (i + 2 >= q_at || hex(d[i + 1]) < 0 || hex(d[i + 2]) < 0) bad = 1;
		else { dec[dec_len++] = (uint8_t) (hex(d[i + 1]) * 16 + hex(d[i + 2])); i += 2; }
	}
	int r = rrr_http_util_uri_endpoint_and_query_string_split(s, split, NULL);
	VP_ASSERT(bad ? r != 0 && q_called == 0 : r == 3 && q_called == 1, "result");
	get_str(s);
	VP_ASSERT(out_len == N && memcmp(out, d, N) == 0, "text is not changed");
	VP_ASSERT(rrr_http_util_uri_endpoint_clean(s, clean, NULL) == 4, "result");
}
#elif MODE == 9 /* prefix of endpoint */
static void run(void) {
	char p[A + 1], e[B + 1];
	for (int i = 0; i < A; i++) { p[i] = (char) vp_u8(); VP_ASSUME(p[i] != 0); }
	for (int i = 0; i < B; i++) { e[i] = (char) vp_u8(); VP_ASSUME(e[i] != 0); }
	p[A] = e[B] = 0;
	struct rrr_http_uri u = {0};
	u.endpoint = rrr_strdup(e);
	VP_ASSERT(rrr_http_util_uri_endpoint_prepend(&u, p) == 0, "prepend");
	int ps = A > 0 && p[A - 1] == '/', es = B > 0 && e[0] == '/';
	char x[A + B + 2]; int n = 0;
	for (int i = 0; i < A - (ps && es); i++) x[n++] = p[i];
	if (!ps && !es) x[n++] = '/';
	for (int i = 0; i < B; i++) x[n++] = e[i];
	x[n] = 0;
	VP_ASSERT(strcmp(x, u.endpoint) == 0, "endpoint");
	rrr_http_util_uri_clear(&u);
}
#elif MODE == 10 /* copies of URIs */
static char *str(const char *x) { if (!x) return NULL; int n = (int) strlen(x); char *r = malloc((size_t) n + 1); for (int i = 0; i < n; i++) { r[i] = (char) vp_u8(); VP_ASSUME(r[i] != 0); } r[n] = 0; return r; }
static int eq(const char *a, const char *b) { return a == NULL || b == NULL ? a == b : a != b && strcmp(a, b) == 0; }
static void run(void) {
	struct rrr_http_uri u = {0}, c = {0};
	u.protocol = str(PROTO); u.host = str(HOST); u.endpoint = str(ENDPOINT);
	u.port = vp_u16();
	u.transport = RRR_HTTP_TRANSPORT_HTTPS;
	u.application_type = RRR_HTTP_APPLICATION_HTTP1;
	VP_ASSERT(rrr_http_util_uri_dup(&c, &u) == 0, "dup");
	VP_ASSERT(eq(c.protocol, u.protocol) && eq(c.host, u.host) && eq(c.endpoint, u.endpoint) && c.port == u.port, "copy is equal");
	VP_ASSERT(c.transport == u.transport && c.application_type == u.application_type, "copy is equal");
}
#else /* host and port only */
static void run(void) {
	uint8_t u[16]; int n = 0;
	const int HL = (int) strlen(HOST), PL = (int) strlen(PORT);
	for (int i = 0; i < HL; i++) { uint8_t c = HOST[i]; if (c == '~') { c = vp_u8(); VP_ASSUME(alnum(c) || c == '.' || (i > 0 && c == '-')); } u[n++] = c; }
	unsigned port = 0;
	if (PL > 0) {
		u[n++] = ':';
		for (int i = 0; i < PL; i++) { uint8_t c = PORT[i]; if (c == '~') { c = vp_u8(); VP_ASSUME(c >= '0' && c <= '9'); } port = port * 10 + c - '0'; u[n++] = c; }
	}
	struct rrr_http_uri a = {0};
	struct rrr_nullsafe_str *t = mk(u, n);
	int ret = rrr_http_util_uri_host_parse(&a, t, RRR_HTTP_TRANSPORT_HTTPS, RRR_HTTP_APPLICATION_HTTP2);
	VP_ASSERT((ret == 0) == (PL > 0 && port >= 1 && port <= 65535), "accepted when there is a port");
	if (ret == 0) {
		VP_ASSERT(a.port == port && a.transport == RRR_HTTP_TRANSPORT_HTTPS && a.application_type == RRR_HTTP_APPLICATION_HTTP2, "port");
		VP_ASSERT(HL ? a.host != NULL : a.host == NULL, "host");
		for (int i = 0; i < HL; i++) VP_ASSERT(a.host[i] == (char) u[i], "host");
		if (HL) VP_ASSERT(a.host[HL] == 0, "host");
	}
}
#endif
void vp_harness(void) { run(); VP_COVER("done"); }
