/* MQTT topic filters: validation and both matchers against a level-by-level definition */
#include "vp.h"
#include <stddef.h>
#include "lib/mqtt/mqtt_topic.h"
#include "lib/allocator.h"
/* one UTF-8 character by the Unicode definition; number of bytes or 0 */
static int u8(const unsigned char *p, int left) {
	uint32_t v; int n;
	if (left < 1) return 0;
	if (p[0] < 0x80) return 1;
	if ((p[0] & 0xe0) == 0xc0) { n = 2; v = p[0] & 0x1f; }
	else if ((p[0] & 0xf0) == 0xe0) { n = 3; v = p[0] & 0x0f; }
	else if ((p[0] & 0xf8) == 0xf0) { n = 4; v = p[0] & 0x07; }
	else return 0;
	if (left < n) return 0;
	for (int i = 1; i < n; i++) { if ((p[i] & 0xc0) != 0x80) return 0; v = v << 6 | (p[i] & 0x3f); }
	if (n == 2 && v < 0x80) return 0;
	if (n == 3 && v < 0x800) return 0;
	if (n == 4 && v < 0x10000) return 0;
	if (v >= 0xd800 && v <= 0xdfff) return 0;
	if (v > 0x10ffff) return 0;
	return n;
}
static int utf8_ok(const char *s, int n) {
	for (int i = 0; i < n; ) { int k = u8((const unsigned char *) s + i, n - i); if (k == 0) return 0; i += k; }
	return 1;
}
static int filter_ok(const char *s, int n) {
	if (!utf8_ok(s, n)) return 0;
	for (int i = 0; i < n; i++) {
		if (s[i] == '#' && ((i > 0 && s[i - 1] != '/') || i != n - 1)) return 0;
		if (s[i] == '+' && ((i > 0 && s[i - 1] != '/') || (i != n - 1 && s[i + 1] != '/'))) return 0;
	}
	return 1;
}
static int topic_ok(const char *s, int n) {
	if (n == 0 || !utf8_ok(s, n)) return 0;
	for (int i = 0; i < n; i++) if (s[i] == '#' || s[i] == '+') return 0;
	return 1;
}
/* levels are compared one by one; a missing level never matches */
static int spec(const char *f, int nf, const char *t, int nt) {
	int i = 0, j = 0;
	for (int level = 0; level < 10; level++) {
		int fe = i, te = j;
		while (fe < nf && f[fe] != '/') fe++;
		while (te < nt && t[te] != '/') te++;
		if (fe - i == 1 && f[i] == '#') return !(te > j && t[j] == '$');
		if (fe - i == 1 && f[i] == '+') { if (te > j && t[j] == '$') return 0; }
		else {
			if (fe - i != te - j) return 0;
			for (int k = 0; k < fe - i; k++) if (f[i + k] != t[j + k]) return 0;
		}
		if ((fe == nf) != (te == nt)) return 0;
		if (fe == nf) return 1;
		i = fe + 1; j = te + 1;
	}
	return 0;
}
#ifdef TOKM
/* matching given the levels: NF and NT levels of at most two characters */
#define D(k) ((char *) (k) + offsetof(struct rrr_mqtt_topic_token, data))
static struct rrr_mqtt_topic_token *level(struct rrr_mqtt_topic_token *next) {
	struct rrr_mqtt_topic_token *k = malloc(sizeof(*k) + 3);
	D(k)[0] = (char) vp_u8(); D(k)[1] = (char) vp_u8(); D(k)[2] = 0;
	for (int i = 0; i < 2; i++) VP_ASSUME(D(k)[i] != '/');
	if (D(k)[0] == 0) VP_ASSUME(D(k)[1] == 0);
	k->next = next;
	return k;
}
#define LEN(k) (D(k)[0] == 0 ? 0 : D(k)[1] == 0 ? 1 : 2)
void vp_harness(void) {
	struct rrr_mqtt_topic_token *f = NULL, *t = NULL;
	for (int i = 0; i < NF; i++) {
		f = level(f);
		for (int j = 0; j < 2; j++) if (D(f)[j] == '#' || D(f)[j] == '+') VP_ASSUME(LEN(f) == 1 && (D(f)[j] == '+' || i == 0));
	}
	for (int i = 0; i < NT; i++) {
		t = level(t);
		for (int j = 0; j < 2; j++) VP_ASSUME(D(t)[j] != '#' && D(t)[j] != '+');
	}
	int want = 1;
	const struct rrr_mqtt_topic_token *a = f, *b = t;
	for (int i = 0; i < (NF > NT ? NF : NT); i++) {
		if (a == NULL || b == NULL) { want = 0; break; }
		if (D(a)[0] == '#') { if (D(b)[0] == '$') want = 0; break; }
		if (D(a)[0] == '+') { if (D(b)[0] == '$') want = 0; }
		else if (D(a)[0] != D(b)[0] || D(a)[1] != D(b)[1]) want = 0;
		a = a->next; b = b->next;
	}
	int r = rrr_mqtt_topic_match_tokens_recursively(f, t);
	VP_ASSERT((r == RRR_MQTT_TOKEN_MATCH) == want, "filter matches exactly the topics it describes");
	VP_ASSERT(r == RRR_MQTT_TOKEN_MATCH || r == RRR_MQTT_TOKEN_MISMATCH, "no other result");
	if (want == (NF <= NT)) VP_COVER("match");
}
#else
void vp_harness(void) {
	char f[NF + 1]; char *t = malloc(NT);
	vp_bytes(f, NF); f[NF] = 0;
	vp_bytes(t, NT);
	for (int i = 0; i < NF; i++) VP_ASSUME(f[i] != 0);
	for (int i = 0; i < NT; i++) VP_ASSUME(t[i] != 0);
#ifdef VALID
	VP_ASSERT((rrr_mqtt_topic_filter_validate_name(f) == 0) == filter_ok(f, NF), "exactly the valid topic filters are accepted");
	VP_ASSERT((rrr_mqtt_topic_validate_name_with_end(t, t + NT) == 0) == topic_ok(t, NT), "exactly the valid topic names are accepted");
	if (filter_ok(f, NF)) VP_COVER("valid filter");
#elif defined(TOK)
	/* splitting: one token per level, in order */
	struct rrr_mqtt_topic_token *tok = NULL, *n;
	VP_ASSERT(rrr_mqtt_topic_tokenize_with_end(&tok, t, t + NT) == 0, "splits");
	int j = 0;
	for (n = tok; n != NULL; n = n->next) {
		int k = 0;
		for (; j + k < NT && t[j + k] != '/'; k++) VP_ASSERT(n->data[k] == t[j + k], "level content");
		VP_ASSERT(n->data[k] == 0, "level length");
		j += k + 1;
		if (j > NT) break;
	}
	VP_ASSERT(n != NULL && n->next == NULL && j == NT + 1, "one token per level");
	rrr_mqtt_topic_token_destroy(tok);
	VP_COVER("tokenized");
#else
	/* ASCII: the matchers compare bytes */
	for (int i = 0; i < NF; i++) VP_ASSUME(!(f[i] & 0x80));
	for (int i = 0; i < NT; i++) VP_ASSUME(!(t[i] & 0x80));
	VP_ASSUME(filter_ok(f, NF) && topic_ok(t, NT));
	int want = spec(f, NF, t, NT);
#ifdef LINEAR
	int r = rrr_mqtt_topic_match_topic_and_linear_with_end(t, t + NT, f, f + NF);
#else
	int r = rrr_mqtt_topic_match_str_with_end(f, t, t + NT);
#endif
	VP_ASSERT((r == RRR_MQTT_TOKEN_MATCH) == want, "filter matches exactly the topics it describes");
	VP_ASSERT(r == RRR_MQTT_TOKEN_MATCH || r == RRR_MQTT_TOKEN_MISMATCH, "no other result");
	if (want) VP_COVER("match"); else VP_COVER("mismatch");
#endif
	free(t);
}
#endif
