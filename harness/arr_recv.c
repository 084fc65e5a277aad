/* Received array message with arbitrary payload of N bytes */
#include "vp.h"
#include "lib/array.h"
#include "lib/type.h"
#include "lib/messages/msg_msg.h"
#include "lib/allocator.h"
static int valid(int t) {
	static const uint8_t v[] = { RRR_TYPE_HDLC, RRR_TYPE_H, RRR_TYPE_BLOB, RRR_TYPE_SEP, RRR_TYPE_MSG, RRR_TYPE_FIXP, RRR_TYPE_STR, RRR_TYPE_NSEP, RRR_TYPE_STX, RRR_TYPE_VAIN, RRR_TYPE_BE };
	for (unsigned i = 0; i < sizeof(v); i++) if (v[i] == t) return 1;
	return 0;
}
/* the checksum is abstract: any value may match */
uint32_t rrr_crc32buf (const char *buf, rrr_biglength len) { (void) buf; (void) len; return vp_u32(); }
uint32_t rrr_crc32cmp (const char *buf, rrr_biglength len, uint32_t crc) { (void) buf; (void) len; (void) crc; return (uint32_t) vp_bool(); }
#ifdef INVALID
void vp_harness(void) {
	/* types which are only notations for parsing, and unknown ones, are never accepted from the network */
	for (int t = 0; t < 256; t++) {
#if INVALID == 1
		if (t > 17 && t < 255) continue;
#endif
		if (valid(t)) continue;
		struct rrr_msg_msg *m = malloc(30 + N);
		for (int i = 0; i < 30; i++) ((char *) m)[i] = 0;
		m->msg_size = 30 + N; m->msg_type = RRR_MSG_TYPE_MESSAGE; MSG_SET_TYPE(m, MSG_TYPE_MSG); MSG_SET_CLASS(m, MSG_CLASS_ARRAY);
		m->version = RRR_ARRAY_VERSION;
		vp_bytes(m->data, N);
		((char *) m)[30] = (char) t;
		struct rrr_array a = {0};
		uint16_t ver = 0;
		int r = rrr_array_message_append_to_array(&ver, &a, m);
		VP_ASSERT(r != 0 && RRR_LL_COUNT(&a) == 0, "unknown type is rejected");
		free(m);
	}
	VP_COVER("all invalid types tried");
}
#elif defined(LENGTHS)
/* the part that turns one value of the payload into a value is replaced: it sees only memory of the message */
static struct rrr_msg_msg *m; static uint64_t used; static int calls, fail_at;
int rrr_type_value_new_and_unpack (struct rrr_type_value **result, const struct rrr_type_definition *type, const char *data_start, rrr_type_flags flags, rrr_length tag_length, rrr_length total_length, rrr_length element_count) {
	VP_ASSERT(data_start - 14 == m->data + used, "values lie one after another");
	VP_ASSERT(used + 14 + tag_length + (uint64_t) total_length <= N, "tag and value lie inside the payload");
	used += 14 + tag_length + (uint64_t) total_length;
	if (calls++ == fail_at) return 1;
	struct rrr_type_value *v = calloc(1, sizeof(*v));
	*result = v;
	return 0;
}
void vp_harness(void) {
	m = malloc(30 + N);
	for (int i = 0; i < 30; i++) ((char *) m)[i] = 0;
	m->msg_size = 30 + N; m->msg_type = RRR_MSG_TYPE_MESSAGE; MSG_SET_TYPE(m, MSG_TYPE_MSG); MSG_SET_CLASS(m, MSG_CLASS_ARRAY);
	m->version = RRR_ARRAY_VERSION;
	vp_bytes(m->data, N);
	fail_at = (int) vp_u8();
	struct rrr_array a = {0};
	uint16_t ver = 0;
	int r = rrr_array_message_append_to_array(&ver, &a, m);
	VP_ASSERT(r == 0 || RRR_LL_COUNT(&a) == 0, "nothing is delivered from a rejected payload");
	VP_ASSERT(r != 0 || (used == N && RRR_LL_COUNT(&a) == calls), "the values of an accepted payload fill it exactly");
	if (r == 0 && calls > 1) VP_COVER("two values accepted");
	if (r == 0) VP_COVER("payload accepted");
	if (r != 0 && calls > 0) VP_COVER("rejected after the first value");
}
#else
void vp_harness(void) {
	struct rrr_msg_msg *m = malloc(30 + 14 + TL + DL);
	for (int i = 0; i < 30; i++) ((char *) m)[i] = 0;
	m->msg_size = 30 + 14 + TL + DL; m->msg_type = RRR_MSG_TYPE_MESSAGE; MSG_SET_TYPE(m, MSG_TYPE_MSG); MSG_SET_CLASS(m, MSG_CLASS_ARRAY);
	m->version = RRR_ARRAY_VERSION;
	vp_bytes(m->data, 14 + TL + DL);
	char *p = (char *) m + 30;
	p[0] = (char) TYPE;
	for (int i = 0; i < 4; i++) p[2 + i] = p[6 + i] = 0;
	p[5] = TL; p[9] = DL;
	struct rrr_array a = {0};
	uint16_t ver = 0;
	int r = rrr_array_message_append_to_array(&ver, &a, m);
	VP_ASSERT(r == 0 || RRR_LL_COUNT(&a) == 0, "nothing is delivered from a rejected payload");
	if (r == 0) {
		VP_COVER("payload accepted");
		VP_ASSERT(RRR_LL_COUNT(&a) == 1, "one value");
		const struct rrr_type_value *v = RRR_LL_FIRST(&a);
		VP_ASSERT(v->tag_length == TL && v->total_stored_length == DL, "lengths");
		VP_ASSERT(v->element_count > 0 || DL == 0, "element count");
		if (RRR_TYPE_IS_64(v->definition->type) || RRR_TYPE_IS_FIXP(v->definition->type)) VP_ASSERT(DL == 8 * (uint64_t) v->element_count, "integer values hold what they state");
		VP_ASSERT(v->definition->type != RRR_TYPE_BE && v->definition->type != RRR_TYPE_LE, "integers are delivered in host order");
		if (v->definition->type != RRR_TYPE_MSG && v->element_count > 0) VP_ASSERT(DL % v->element_count == 0, "elements have equal size");
	}
	rrr_array_clear(&a);
	free(m);
}
#endif
