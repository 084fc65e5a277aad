/* Framing of HTTP/1 messages: the parser as it is driven by the receive function of rrr_http_application_http1 */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include "lib/allocator.h"
#include "lib/http/http_part.h"
#include "lib/http/http_part_parse.h"
#include "lib/http/http_fields.h"
#include "lib/http/http_header_fields.h"
#include "lib/http/http_util.h"
#include "lib/helpers/nullsafe_str.h"
#define TL ((int) sizeof(TEXT) - 1)
static uint8_t t[TL + 1];
#ifdef VP_CBMC
struct vp_str { void *str; rrr_nullsafe_len len; };
/* no text here has the size of one of these */
#define VP_T(type) if (size == sizeof(type)) { type *p = malloc(sizeof(*p)); *p = (type) {0}; return p; }
void *vp_typed_malloc(size_t size) {
	VP_T(struct rrr_http_chunk)
	VP_T(struct rrr_http_header_field)
	VP_T(struct rrr_http_field)
	VP_T(struct vp_str)
	return NULL;
}
#endif
static const char *base; static int base_len; /* received data */
static unsigned __int128 sym_value; /* of the field with the number */
static int hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
#ifdef VP_CBMC
/* The search functions, which C16 checks for any text. Here they only look at the template: a symbolic character is never one they look for, but the solver would not know before it is too late. */
static int at(const char *p) { VP_ASSERT(__CPROVER_same_object(p, base) && p >= base && p <= base + base_len, "position is in the received data"); return (int) (p - base); }
static int crlf_tab[TL + 2];
const char *rrr_http_util_find_crlf(const char *start, const char *end) {
	int e = at(end), r = crlf_tab[at(start)];
	return r + 1 < e ? base + r : NULL;
}
const char *rrr_http_util_find_whsp(const char *start, const char *end) { int e = at(end); for (int i = at(start); i < e; i++) if (TEXT[i] == ' ' || TEXT[i] == '\t') return base + i; return NULL; }
rrr_length rrr_http_util_count_whsp(const char *start, const char *end) { int a = at(start), e = at(end), i = a; while (i < e && (TEXT[i] == ' ' || TEXT[i] == '\t')) i++; return (rrr_length) (i - a); }
const char *rrr_http_util_strchr(const char *start, const char *end, char c) { int e = at(end); for (int i = at(start); i < e; i++) if (TEXT[i] == c) return base + i; return NULL; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int rrr_http_util_strcasestr(const char **result, rrr_length *len, const char *start, const char *end, const char *needle) {
	int a = at(start), e = at(end), n = (int) strlen(needle);
	*result = NULL; *len = 0;
	for (int i = a; i + n <= e; i++) {
		int j = 0;
		while (j < n && low(TEXT[i + j]) == low(needle[j])) j++;
		if (j == n) { *result = base + i; *len = (rrr_length) n; return 0; }
	}
	return 1;
}
static int digit(int c, int b) { return c == '~' ? CLS == 1 || (CLS == 2 && b == 16) : hex(c) >= 0 && hex(c) < b; }
int rrr_http_util_strtoull_raw(unsigned long long *result, rrr_length *len, const char *start, const char *end, int b) {
	int a = at(start), e = at(end), n = 0;
	unsigned __int128 v = 0;
	*result = 0; *len = 0;
	while (a + n < e && digit(TEXT[a + n], b)) { v = v * (unsigned) b + (unsigned) hex(t[a + n]); n++; }
	if (n == 0 || (n > 15 && v > 0xffffffffffffffffULL)) return 1;
	*result = (unsigned long long) v; *len = (rrr_length) n;
	return 0;
}
/* the value of the field is the one with the number */
int rrr_http_util_strtoull(unsigned long long *result, const struct rrr_nullsafe_str *s, int b) {
	(void) b;
	VP_ASSERT(rrr_nullsafe_str_len(s) >= 1, "there is a number");
	if (VAL_LEN > 19 && sym_value > 0xffffffffffffffffULL) return 1;
	*result = (unsigned long long) sym_value;
	return 0;
}
int snprintf(char *o, size_t size, const char *f, ...) {
	VP_ASSERT(f[0] == '%' && f[1] == 'l' && f[2] == 'l' && f[3] == 'u' && f[4] == 0 && VAL_LEN < (int) size, "format");
	for (int i = 0; i < VAL_LEN; i++) o[i] = '0'; /* only the length matters */
	o[VAL_LEN] = 0;
	return VAL_LEN;
}
void rrr_nullsafe_str_output_strip_null_append_null_trim(const struct rrr_nullsafe_str *s, char *o, rrr_nullsafe_len size) { (void) s; (void) size; o[0] = 0; }
#endif
#ifdef VP_CBMC
void rrr_http_util_print_where_message(const char *start, const char *end) { (void) start; (void) end; }
#endif
static struct rrr_http_part part[1];
static rrr_biglength pos, target;
static int feed(int avail) {
	/* exactly as much memory as there is data */
	char *b = malloc((size_t) avail + (avail == 0));
	for (int i = 0; i < avail; i++) b[i] = (char) t[i];
	base = b;
	base_len = avail;
#ifdef VP_CBMC
	crlf_tab[TL + 1] = crlf_tab[TL] = TL + 5;
	for (int i = TL - 1; i >= 0; i--) crlf_tab[i] = TEXT[i] == '\r' && TEXT[i + 1] == '\n' ? i : crlf_tab[i + 1];
#endif
	int ret, rounds = 0;
	rrr_biglength parsed;
	do {
		VP_ASSERT(rounds++ < ROUNDS, "the parser does not run forever");
		ret = rrr_http_part_parse(part, &target, &parsed, b, pos, b + avail, TYPE ? RRR_HTTP_PARSE_REQUEST : RRR_HTTP_PARSE_RESPONSE);
		VP_ASSERT(parsed <= (rrr_biglength) avail && pos <= (rrr_biglength) avail - parsed, "no more is parsed than there is");
		pos += parsed;
	} while (parsed != 0 && ret == RRR_HTTP_PARSE_INCOMPLETE);
	free(b);
	return ret;
}
static int str_is(const struct rrr_nullsafe_str *s, const char *x);
static const char *cmp; static int cmp_ok, cmp_len;
static int cmp_cb(const void *s, rrr_nullsafe_len len, void *arg) { (void) arg; cmp_ok = len == (rrr_nullsafe_len) cmp_len; for (int i = 0; i < cmp_len && cmp_ok; i++) if (((const char *) s)[i] != cmp[i]) cmp_ok = 0; return 0; }
static int raw_is(const struct rrr_nullsafe_str *s, const char *x, int n) { cmp = x; cmp_len = n; rrr_nullsafe_str_with_raw_do_const(s, cmp_cb, NULL); return cmp_ok; }
static int str_is(const struct rrr_nullsafe_str *s, const char *x) { return raw_is(s, x, (int) strlen(x)); }
static int head; /* length of first line and header */
static void check(int ret, int avail) {
#if KIND == 0 /* content length */
	if (VAL_LEN > 19 && sym_value > 0xffffffffffffffffULL - (unsigned) head) { VP_ASSERT(ret != RRR_HTTP_PARSE_OK && ret != RRR_HTTP_PARSE_INCOMPLETE, "length which can not be is refused"); return; }
	VP_ASSERT(ret == RRR_HTTP_PARSE_OK, "header is complete");
	VP_ASSERT(target == (rrr_biglength) head + (rrr_biglength) sym_value, "total length");
	VP_ASSERT(part->data_length == (rrr_biglength) sym_value, "length of body");
#elif KIND == 1 /* no length, but none is needed */
	VP_ASSERT(ret == RRR_HTTP_PARSE_OK && target == (rrr_biglength) head && part->data_length == 0, "no body");
#elif KIND == 2 /* until the connection closes */
	VP_ASSERT(ret == RRR_HTTP_PARSE_INCOMPLETE && part->data_length_unknown && target == 0, "length is not known");
#elif KIND == 3 /* error */
	VP_ASSERT(ret != RRR_HTTP_PARSE_OK && ret != RRR_HTTP_PARSE_INCOMPLETE, "refused");
	return;
#elif KIND == 4 /* chunks */
	int p = head, n = 0, last = 0, bad = 0, inc = 0;
	struct rrr_http_chunk *c = RRR_LL_FIRST(&part->chunks);
	for (int k = 0; k < CHUNKS + 1 && !last && !bad && !inc; k++) {
		if (p + 1 < avail && t[p] == '\r' && t[p + 1] == '\n' && n > 0) p += 2;
		unsigned __int128 len = 0;
		int digits = 0;
		for (int i = 0; i < 20; i++) if (p < avail && hex(t[p]) >= 0) { len = len * 16 + (unsigned) hex(t[p]); p++; digits++; }
		if (p + 4 > avail) inc = 1;
		else if (digits == 0 || t[p] != '\r' || t[p + 1] != '\n' || len > 0xffffffffffffffffULL) bad = 1;
		else {
			p += 2;
			VP_ASSERT(c != NULL && c->start == (rrr_biglength) p && c->length == (rrr_biglength) len, "chunk");
			c = c->ptr_next;
			n++;
			if (len == 0) last = 1;
			else if (len > (unsigned) (avail - p)) inc = 1;
			else p += (int) len;
		}
	}
	VP_ASSERT(c == NULL, "no more chunks");
	if (inc) VP_ASSERT(ret == RRR_HTTP_PARSE_INCOMPLETE, "more data is needed");
	else if (bad) VP_ASSERT(ret != RRR_HTTP_PARSE_OK && ret != RRR_HTTP_PARSE_INCOMPLETE, "bad chunk header is refused");
	else {
		VP_ASSERT(ret == RRR_HTTP_PARSE_OK, "complete");
		VP_ASSERT(target == (rrr_biglength) p + 2, "total length");
	}
#endif
#if KIND < 3
	VP_ASSERT(part->header_complete && part->headroom_length + part->header_length == (rrr_biglength) head, "length of header");
#if TYPE
	VP_ASSERT(part->request_method == METHOD, "method");
	/* between the first two spaces */
	int a = 0, b;
	while (t[a] != ' ') a++;
	for (b = a + 1; TEXT[b] != ' '; b++);
	VP_ASSERT(raw_is(part->request_uri_nullsafe, (const char *) t + a + 1, b - a - 1), "URI");
#else
	VP_ASSERT(part->response_code == METHOD, "response code");
#endif
	VP_ASSERT(part->parsed_connection == CONN, "connection");
	VP_ASSERT(RRR_LL_COUNT(&part->headers) == FIELDS, "number of fields");
#endif
#ifdef FIELD
	{
		const struct rrr_http_header_field *f = rrr_http_part_header_field_get_raw(part, FIELD);
		VP_ASSERT(f != NULL, "field is there");
		if (f != NULL) VP_ASSERT(raw_is(f->value_full, (const char *) t + VAL_AT, VAL_LEN), "value of field");
	}
#endif
}
void vp_harness(void) {
	int any = 0;
	for (int i = 0; i < TL; i++) {
		t[i] = (uint8_t) TEXT[i];
		if (t[i] == '~') {
			t[i] = vp_u8();
			any = 1;
			if (CLS == 1) { VP_ASSUME(t[i] >= '0' && t[i] <= '9'); if (LEAD) VP_ASSUME(t[i] != '0' || TEXT[i - 1] != ' '); }
			else if (CLS == 2) VP_ASSUME(hex(t[i]) >= 0);
			else if (CLS == 3) VP_ASSUME(t[i] > ' ' && t[i] < 127 && t[i] != ',' && t[i] != ';' && t[i] != '=' && t[i] != ':');
		}
		if (KIND == 4) head = 2;
		else if (i >= 3 && !head && TEXT[i] == '\n' && TEXT[i - 1] == '\r' && TEXT[i - 2] == '\n' && TEXT[i - 3] == '\r') head = i + 1;
	}
#if KIND == 0
	for (int i = VAL_AT; i < VAL_AT + VAL_LEN; i++) sym_value = sym_value * 10 + t[i] - '0';
#endif
	/* all in one, and cut at each of the given places */
	for (int cut = LO; cut < HI; cut += STEP) {
		memset(part, 0, sizeof(*part));
		pos = 0;
		target = 0;
#if KIND == 4
		/* behind the header */
		part->is_chunked = part->header_complete = 1;
		part->parsed_application_type = RRR_HTTP_APPLICATION_HTTP1;
		part->headroom_length = 1;
		part->header_length = (rrr_biglength) head - 1;
		pos = (rrr_biglength) head;
#endif
		int ret = RRR_HTTP_PARSE_INCOMPLETE;
		if (cut > 0 && cut < TL) {
			ret = feed(cut);
			if (KIND < 3 && cut < head) VP_ASSERT(ret == RRR_HTTP_PARSE_INCOMPLETE, "header is not complete");
		}
		if (ret == RRR_HTTP_PARSE_INCOMPLETE && !(cut >= head && KIND < 3 && cut < TL)) ret = feed(TL);
		check(ret, TL);
	}
	(void) any;
	VP_COVER("done");
}
