/* MQTT packets of type T as received from a peer using protocol version V */
#define rrr_utf8_validate real_utf8_validate
#define rrr_utf8_validate_and_iterate real_utf8_validate_and_iterate
#include "lib/util/utf8.c"
#undef rrr_utf8_validate
#undef rrr_utf8_validate_and_iterate
#include "vp.h"
#include "lib/mqtt/mqtt_packet.h"
#include "lib/mqtt/mqtt_parse.h"
#include "lib/mqtt/mqtt_property.h"
#include "lib/mqtt/mqtt_subscription.h"
#include "lib/mqtt/mqtt_topic.h"
#include "lib/mqtt/mqtt_common.h"
#include "lib/allocator.h"
#include "lib/util/rrr_time.h"
uint64_t rrr_time_get_64 (void) { return 1; }
#ifdef VP_CBMC
#define TYPED(s) if (size == sizeof(struct s)) { struct s *p = malloc(sizeof(struct s)); *p = (struct s) {0}; return p; }
void *vp_typed_malloc(size_t size) {
#if T == 1
	TYPED(rrr_mqtt_p_connect)
#elif T == 2
	TYPED(rrr_mqtt_p_connack)
#elif T == 3
	TYPED(rrr_mqtt_p_publish)
#elif T >= 4 && T <= 7
	TYPED(rrr_mqtt_p_puback)
#elif T == 8 || T == 10
	TYPED(rrr_mqtt_p_subscribe)
#elif T == 9 || T == 11
	TYPED(rrr_mqtt_p_suback)
#elif T == 14
	TYPED(rrr_mqtt_p_disconnect)
#endif
	TYPED(rrr_mqtt_property)
	return NULL;
}
#endif
/* In packets which must be accepted, all strings are printable ASCII (checked here), the outcome of the UTF-8 check is then known.
 * All other packets have the real check. */
static char mode;
int rrr_utf8_validate (const char *buf, rrr_length len) {
	if (mode != 'A') return real_utf8_validate(buf, len);
	for (rrr_length i = 0; i < len; i++) VP_ASSERT(buf[i] > 32 && buf[i] < 127, "text is printable");
	return 0;
}
int rrr_utf8_validate_and_iterate (const char *buf, rrr_length len, int (*callback)(uint32_t character, void *arg), void *arg) {
	if (mode != 'A') return real_utf8_validate_and_iterate(buf, len, callback, arg);
	for (rrr_length i = 0; i < len; i++) { VP_ASSERT(buf[i] > 32 && buf[i] < 127, "text is printable"); if (callback((uint32_t) buf[i], arg)) return 1; }
	return 0;
}
#define MAXL 40
static uint8_t in[MAXL];
/* reference decoder: position behind a property list which begins at p and must not extend beyond e; 0 if malformed */
static int vint(int p, int e, uint32_t *v) {
	uint32_t m = 1; *v = 0;
	for (int i = 0; i < 4; i++) {
		if (p >= e) return 0;
		*v += (in[p] & 0x7f) * m; m *= 128;
		if (!(in[p++] & 0x80)) return p;
	}
	return 0;
}
static int str(int p, int e) {
	if (p + 2 > e) return 0;
	int l = in[p] << 8 | in[p + 1];
	return p + 2 + l > e ? 0 : p + 2 + l;
}
static int ptype(int id) {
	switch (id) {
		case 0x01: case 0x17: case 0x19: case 0x24: case 0x25: case 0x28: case 0x29: case 0x2A: return 1;
		case 0x13: case 0x21: case 0x22: case 0x23: return 2;
		case 0x02: case 0x11: case 0x18: case 0x27: return 4;
		case 0x0B: return 5;
		case 0x09: case 0x16: return 6;
		case 0x03: case 0x08: case 0x12: case 0x15: case 0x1A: case 0x1C: case 0x1F: return 7;
		case 0x26: return 8;
	}
	return 0;
}
static int nprops;
static int props(int p, int e) {
	uint32_t len, v;
	nprops = 0;
	p = vint(p, e, &len);
	if (p == 0 || len > (uint32_t) (e - p)) return 0;
	int pe = p + (int) len;
	for (int i = 0; i < MAXL && p < pe; i++) {
		int t = ptype(in[p++]);
		if (t == 0) return 0;
		if (t <= 4) { p += t; if (p > pe) return 0; }
		else if (t == 5) p = vint(p, pe, &v);
		else { p = str(p, pe); if (p && t == 8) p = str(p, pe); }
		if (p == 0) return 0;
		nprops++;
	}
	return p == pe ? p : 0;
}
static struct rrr_mqtt_parse_session s;
static void run(const uint8_t *b, int n) {
	rrr_mqtt_parse_session_update(&s, (const char *) b, (rrr_biglength) n, T == 1 ? NULL : rrr_mqtt_p_get_protocol_version(V));
	rrr_mqtt_packet_parse(&s);
}
/* Packets: hex digits are concrete, .. is any byte, __ is any printable character other than # and + (content which must be accepted).
 * The first character tells whether the packet must be accepted (A), must be rejected (R) or may be either (?). */
static const char *tmpl[] = {
#include "mqtt_recv.h"
};
static int hex(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void one(const char *t, int k) {
	int n = 0, ascii = 1;
	mode = *t++;
	for (; *t; t += 2) {
		while (*t == ' ') t++;
#ifdef SPLIT
		/* what decides between accepting and refusing is concrete, otherwise the state after the first part is symbolic */
		if (*t == '_' || (*t == '.' && t[-1] == '_')) { in[n++] = 97; continue; }
#endif
		if (*t == '.') in[n] = vp_u8();
		else if (*t == '_') { in[n] = vp_u8(); VP_ASSUME(in[n] > 32 && in[n] < 127 && in[n] != '#' && in[n] != '+'); }
		else in[n] = (uint8_t) (hex(t[0]) << 4 | hex(t[1]));
		n++;
	}
	(void) ascii;
	uint32_t rem = 0;
	const int h = vint(1, n, &rem), e = h + (int) rem;
	const int FL = in[0] & 15, R = (int) rem;
	(void) R;
	rrr_mqtt_parse_session_init(&s);
	long live0 = vp_live; (void) live0;
	if (k > 0) {
		/* the first k bytes arrive first, in a buffer which then grows and moves */
		uint8_t *b0 = malloc(k);
		for (int i = 0; i < k; i++) b0[i] = in[i];
		run(b0, k);
		VP_ASSERT(!RRR_MQTT_PARSE_IS_COMPLETE(&s) || (h > 0 && k >= e), "not complete before all is received");
		free(b0);
		if (RRR_MQTT_PARSE_IS_ERR(&s)) { VP_ASSERT(mode != 'A', "well formed packet is accepted"); rrr_mqtt_parse_session_destroy(&s); return; }
	}
	uint8_t *b = malloc(n);
	for (int i = 0; i < n; i++) b[i] = in[i];
	if (!RRR_MQTT_PARSE_IS_COMPLETE(&s)) run(b, n);
	int ok = RRR_MQTT_PARSE_IS_COMPLETE(&s) && !RRR_MQTT_PARSE_IS_ERR(&s);
	int p = h;
	VP_ASSERT(mode != 'A' || ok, "well formed packet is accepted");
	VP_ASSERT(mode != 'R' || !ok, "malformed packet is not accepted");
	if (ok) {
		struct rrr_mqtt_p *packet = NULL;
		VP_ASSERT(h > 0 && (int) s.target_size == e && e <= n, "the packet is as long as stated");
		VP_ASSERT(s.packet->received_size == (rrr_length) e, "received size");
		rrr_mqtt_packet_parse_session_extract_packet(&packet, &s);
		VP_ASSERT(packet->type_flags == FL, "flags");
#if T == 2
		struct rrr_mqtt_p_connack *c = (struct rrr_mqtt_p_connack *) packet;
		VP_ASSERT(R >= 2 && c->session_present == in[h] && in[h] <= 1, "session present");
		VP_ASSERT(V == 5 ? c->reason_v5 == in[h + 1] : in[h + 1] <= 5, "reason");
		VP_ASSERT(V == 5 ? props(h + 2, e) == e : R == 2, "properties end where the packet ends");
		VP_ASSERT(V != 5 || RRR_LL_COUNT(&c->properties) == nprops, "all properties");
#elif T >= 4 && T <= 7
		struct rrr_mqtt_p_puback *c = (struct rrr_mqtt_p_puback *) packet;
		VP_ASSERT(R >= 2 && c->packet_identifier == (in[h] << 8 | in[h + 1]) && c->packet_identifier != 0, "packet id");
		VP_ASSERT(R == 2 || (V == 5 && c->reason_v5 == in[h + 2]), "reason");
		VP_ASSERT(R <= 3 || props(h + 3, e) == e, "properties end where the packet ends");
		VP_ASSERT(R <= 3 || RRR_LL_COUNT(&c->properties) == nprops, "all properties");
#elif T == 3
		struct rrr_mqtt_p_publish *c = (struct rrr_mqtt_p_publish *) packet;
		p = str(h, e);
		VP_ASSERT(p > h + 2, "topic lies inside of the packet and is not empty");
		for (int i = h + 2; i < p; i++) VP_ASSERT((uint8_t) c->topic[i - h - 2] == in[i] && in[i] != 0 && in[i] != '#' && in[i] != '+', "topic");
		VP_ASSERT(c->topic[p - h - 2] == 0, "topic");
		VP_ASSERT((FL & 6) != 6 && (FL & 14) != 8, "QoS");
		if (FL & 6) { VP_ASSERT(p + 2 <= e && c->packet_identifier == (in[p] << 8 | in[p + 1]) && c->packet_identifier != 0, "packet id"); p += 2; }
		if (V == 5) { p = props(p, e); VP_ASSERT(p > 0 && RRR_LL_COUNT(&c->properties) == nprops, "properties"); }
		VP_ASSERT((int) s.payload_pos == p && p <= e, "payload is the rest of the packet");
		if (p < e) VP_ASSERT(RRR_MQTT_PARSE_STATUS_IS_MOVE_PAYLOAD_TO_PACKET(&s), "payload is delivered");
		if (p < e) VP_COVER("with payload");
#elif T == 8 || T == 10
		struct rrr_mqtt_p_subscribe *c = (struct rrr_mqtt_p_subscribe *) packet;
		VP_ASSERT(R >= 5 && c->packet_identifier == (in[h] << 8 | in[h + 1]) && c->packet_identifier != 0, "packet id");
		p = h + 2;
		if (V == 5) { p = props(p, e); VP_ASSERT(p > 0 && RRR_LL_COUNT(&c->properties) == nprops, "properties"); }
		int n = 0;
		for (int i = 0; i < MAXL && p < e; i++) {
			p = str(p, e);
			VP_ASSERT(p > 0, "topic filter lies inside of the packet");
			if (T == 8) { VP_ASSERT(p < e && (in[p] & 0xc0) == 0 && (in[p] & 3) != 3 && (in[p] & 0x30) != 0x30 && (V == 5 || in[p] < 3), "options of topic filter"); p++; }
			n++;
		}
		VP_ASSERT(p == e, "filters fill the packet");
		int cnt = (int) rrr_mqtt_subscription_collection_count(c->subscriptions);
		VP_ASSERT(cnt >= 1 && cnt <= n, "subscriptions");
		if (n > 1) VP_COVER("two filters");
		if (n > cnt) VP_COVER("equal filters");
#elif T == 9 || T == 11
		struct rrr_mqtt_p_suback *c = (struct rrr_mqtt_p_suback *) packet;
		VP_ASSERT(R >= 2 && c->packet_identifier == (in[h] << 8 | in[h + 1]) && c->packet_identifier != 0, "packet id");
		p = h + 2;
		if (V == 5) { p = props(p, e); VP_ASSERT(p > 0 && RRR_LL_COUNT(&c->properties) == nprops, "properties"); }
		if (T == 9 || V == 5) {
			VP_ASSERT((int) c->acknowledgements_size == e - p && p < e && (const uint8_t *) c->acknowledgements == b + p, "acknowledgements are the rest of the packet");
			if (V != 5) for (int i = p; i < e; i++) VP_ASSERT(in[i] <= 2 || in[i] == 0x80, "acknowledgement");
		}
		else VP_ASSERT(p == e, "no payload");
#elif T == 1
		struct rrr_mqtt_p_connect *c = (struct rrr_mqtt_p_connect *) packet;
		p = str(h, e);
		VP_ASSERT(p > 0 && p + 4 <= e && packet->protocol_version != NULL && packet->protocol_version->id == in[p], "protocol version");
		int f = in[p + 1], v5 = in[p] == 5;
		VP_ASSERT(c->connect_flags == f && !(f & 1) && (f & 0x18) != 0x18 && ((f & 4) || !(f & 0x38)) && (v5 || (f & 0xc0) != 0x40), "flags");
		VP_ASSERT(c->keep_alive == (in[p + 2] << 8 | in[p + 3]), "keep alive");
		p += 4;
		if (v5) { p = props(p, e); VP_ASSERT(p > 0 && RRR_LL_COUNT(&c->properties) == nprops, "properties"); }
		p = str(p, e); VP_ASSERT(p > 0 && c->client_identifier != NULL, "client identifier");
		if (f & 4) {
			if (v5) { p = props(p, e); VP_ASSERT(p > 0 && RRR_LL_COUNT(&c->will_properties) == nprops, "will properties"); }
			p = str(p, e); VP_ASSERT(p > 0 && c->will_topic != NULL && *c->will_topic != 0, "will topic");
			p = str(p, e); VP_ASSERT(p > 0 && c->will_message != NULL, "will message");
		}
		if (f & 0x80) { p = str(p, e); VP_ASSERT(p > 0 && c->username != NULL && *c->username != 0, "user name"); VP_COVER("user name"); }
		if (f & 0x40) { p = str(p, e); VP_ASSERT(p > 0 && c->password != NULL && *c->password != 0, "password"); }
		VP_ASSERT(p == e, "fields fill the packet");
#elif T == 12 || T == 13
		VP_ASSERT(R == 0, "nothing follows the fixed header");
#elif T == 14
		struct rrr_mqtt_p_disconnect *c = (struct rrr_mqtt_p_disconnect *) packet;
		VP_ASSERT(V == 5 || R == 0, "no content");
		VP_ASSERT(R == 0 || c->reason_v5 == in[h], "reason");
		VP_ASSERT(R <= 1 || props(h + 1, e) == e, "properties end where the packet ends");
#else
		VP_ASSERT(0, "not supported");
#endif
#if T != 9 && T != 11 && T != 14
		/* what was accepted can be sent on, with the same content */
		char *out = NULL; rrr_length size = 0;
#if T == 3
		struct rrr_mqtt_p_publish *d = rrr_mqtt_p_clone_publish(c, 1, 1, 1);
		VP_ASSERT(d != NULL, "copy");
		d->packet_identifier = c->packet_identifier;
		struct rrr_mqtt_p *ap = (struct rrr_mqtt_p *) d;
#else
		struct rrr_mqtt_p *ap = packet;
		p = e;
#endif
		VP_ASSERT(ap->type_properties->assemble(&out, &size, ap) == 0, "assemble");
		int same = 1;
#if T == 8 || T == 10
		same = cnt == n;
#elif T >= 4 && T <= 7
		same = V != 5 || R > 3;
#endif
		if (same) {
			VP_ASSERT((int) size == p - h, "assembled size equals that received");
				for (int i = h; V != 3 && i < p; i++) VP_ASSERT((uint8_t) out[i - h] == in[i], "assembled bytes equal those received");
			VP_COVER("sent on");
		}
		rrr_free(out);
#if T == 3
		RRR_MQTT_P_DECREF(d);
#endif
#endif
		VP_COVER("accepted");
		RRR_MQTT_P_DECREF(packet);
	}
	else if (!RRR_MQTT_PARSE_IS_ERR(&s)) {
		VP_COVER("wants more data");
	}
	rrr_mqtt_parse_session_destroy(&s);
	free(b);
}
void vp_harness(void) {
	for (unsigned i = 0; i < sizeof(tmpl) / sizeof(*tmpl); i++) {
#ifdef PART
		if (i % PARTS != PART) continue;
#endif
#ifdef ONLY
		if (i != ONLY) continue;
#endif
#ifdef SPLIT
		int n = 0;
		for (const char *t = tmpl[i] + 1; *t; t++) if (*t != ' ') n++;
		for (int k = SPLIT > 1 ? SPLIT : 1; k < (SPLIT > 1 ? SPLIT + 1 : n / 2); k++) one(tmpl[i], k);
#else
		one(tmpl[i], 0);
#endif
	}
}
