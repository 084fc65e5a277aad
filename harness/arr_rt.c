/* Array -> array message -> array: nothing is lost or changed. T1,T2: kinds of the two values */
#include "vp.h"
#include "lib/array.h"
#include "lib/type.h"
#include "lib/messages/msg_msg.h"
#include "lib/allocator.h"
static char tag[2][4], data[2][24];
static rrr_length dlen[2], elems[2]; static uint8_t flags[2], types[2];
static void add(struct rrr_array *a, int i, int kind, int taglen) {
	for (int j = 0; j < taglen; j++) tag[i][j] = (char) ('a' + j + (SAME ? 0 : 3 * i)); /* constant: the symbolic part is the values */
	tag[i][taglen] = 0;
	int r = 0;
	elems[i] = 1; flags[i] = 0;
	switch (kind) {
		case 0: { uint64_t v = vp_u64(); memcpy(data[i], &v, 8); dlen[i] = 8; types[i] = RRR_TYPE_H; r = rrr_array_push_value_u64_with_tag(a, tag[i], v); break; }
		case 1: { int64_t v = (int64_t) vp_u64(); memcpy(data[i], &v, 8); dlen[i] = 8; types[i] = RRR_TYPE_H; flags[i] = 1; r = rrr_array_push_value_i64_with_tag(a, tag[i], v); break; }
		case 2: { int64_t v = (int64_t) vp_u64(); memcpy(data[i], &v, 8); dlen[i] = 8; types[i] = RRR_TYPE_FIXP; r = rrr_array_push_value_fixp_with_tag(a, tag[i], v); break; }
		case 3: vp_bytes(data[i], 3); dlen[i] = 3; types[i] = RRR_TYPE_STR; r = rrr_array_push_value_str_with_tag_with_size(a, tag[i], data[i], 3); break;
		case 4: vp_bytes(data[i], 2); dlen[i] = 2; types[i] = RRR_TYPE_BLOB; r = rrr_array_push_value_blob_with_tag_with_size(a, tag[i], data[i], 2); break;
		case 5: dlen[i] = 0; types[i] = RRR_TYPE_VAIN; r = rrr_array_push_value_vain_with_tag(a, tag[i]); break;
		case 6: { /* two elements */
			struct rrr_type_value *v = NULL;
			r = rrr_type_new_h(&v, (rrr_length) taglen, tag[i], 2);
			vp_bytes(data[i], 16); memcpy(v->data, data[i], 16); dlen[i] = 16; elems[i] = 2; types[i] = RRR_TYPE_H;
			RRR_LL_APPEND(a, v);
			break; }
		case 7: dlen[i] = 0; types[i] = RRR_TYPE_STR; r = rrr_array_push_value_str_with_tag_with_size(a, tag[i], "", 0); break;
	}
	VP_ASSERT(r == 0, "value is added");
}
void vp_harness(void) {
	struct rrr_array a = {0}, b = {0};
	add(&a, 0, T1, G1); add(&a, 1, T2, G2);
	uint64_t ts = vp_u64();
	char topic[3]; vp_bytes(topic, 2);
	struct rrr_msg_msg *m = NULL;
	VP_ASSERT(rrr_array_new_message_from_array(&m, &a, ts, topic, 2) == 0, "array is packed");
	VP_ASSERT(m->timestamp == ts && MSG_TOPIC_LENGTH(m) == 2 && memcmp(MSG_TOPIC_PTR(m), topic, 2) == 0 && MSG_IS_MSG_ARRAY(m), "message carries timestamp and topic");
	uint16_t ver = 0;
	VP_ASSERT(rrr_array_message_append_to_array(&ver, &b, m) == 0, "array message is unpacked");
	VP_ASSERT(RRR_LL_COUNT(&b) == 2, "same number of values");
	int i = 0;
	RRR_LL_ITERATE_BEGIN(&b, struct rrr_type_value);
		VP_ASSERT(node->definition->type == types[i] && node->flags == flags[i] && node->element_count == elems[i], "type, sign and element count are preserved");
		VP_ASSERT(node->total_stored_length == dlen[i] && (dlen[i] == 0 || memcmp(node->data, data[i], dlen[i]) == 0), "value is preserved");
		VP_ASSERT(node->tag_length == strlen(tag[i]) && (node->tag_length == 0 || (memcmp(node->tag, tag[i], node->tag_length) == 0 && node->tag[node->tag_length] == 0)), "tag is preserved");
		i++;
	RRR_LL_ITERATE_END();
	VP_ASSERT(i == 2, "both values seen");
	/* look up by tag: gives the first value with the tag */
	const struct rrr_type_value *v = rrr_array_value_get_by_tag_const(&b, tag[1]);
	int same_tag = strcmp(tag[0], tag[1]) == 0;
	VP_ASSERT(v != NULL && v == (same_tag ? RRR_LL_FIRST(&b) : RRR_LL_LAST(&b)), "lookup by tag finds the first value with that tag");
	static const char *q[] = {"a", "ab", "abc", "d", "de", "b", "x"};
	for (int k = 0; k < 7; k++) {
		int w = strcmp(q[k], tag[0]) == 0 ? 0 : strcmp(q[k], tag[1]) == 0 ? 1 : -1; /* the value which is to be found */
		VP_ASSERT(rrr_array_message_has_tag(m, q[k]) == (w >= 0), "tag is present in the message exactly if a value has it");
		VP_ASSERT(rrr_array_has_tag(&b, q[k]) == (w >= 0), "tag is present in the array exactly if a value has it");
		v = rrr_array_value_get_by_tag_const(&b, q[k]);
		VP_ASSERT(v == (w < 0 ? NULL : w == 0 ? RRR_LL_FIRST(&b) : RRR_LL_LAST(&b)), "lookup in the array finds the first value with the tag");
		struct rrr_type_value *c = NULL;
		VP_ASSERT(rrr_array_message_clone_value_by_tag(&c, m, q[k]) == 0, "lookup in the message");
		VP_ASSERT((c != NULL) == (w >= 0), "lookup in the message finds a value exactly if there is one with the tag");
		if (c) {
			VP_ASSERT(c->definition->type == types[w] && c->flags == flags[w] && c->element_count == elems[w] && c->total_stored_length == dlen[w] && (dlen[w] == 0 || memcmp(c->data, data[w], dlen[w]) == 0), "lookup in the message finds the first value with the tag");
			rrr_type_value_destroy(c);
		}
	}
	/* clear by tag: those with the tag go, the others stay */
	unsigned int n = 0;
	rrr_array_clear_by_tag_checked(&n, &b, "a");
	VP_ASSERT((int) n == (strcmp(tag[0], "a") == 0) + (strcmp(tag[1], "a") == 0), "all values with the tag are cleared");
	VP_ASSERT(RRR_LL_COUNT(&b) == 2 - (int) n && !rrr_array_has_tag(&b, "a"), "values without the tag stay");
	VP_COVER("round trip done");
	rrr_array_clear(&a); rrr_array_clear(&b); rrr_free(m);
}
