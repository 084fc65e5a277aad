/* Sender side conversion followed by receiver side verification. CORRUPT: an error pattern is applied in between. */
#include "vp.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_checksum.h"
#include "lib/messages/msg_log.h"
#include "lib/messages/msg_addr.h"
#include "lib/stats/stats_message.h"
#include "lib/allocator.h"
#include "lib/util/crc32.h"
#define MAXN 64
#ifndef CORRUPT
#define CORRUPT 0
#endif
static char topic[8], data[16];
/* Checksum abstraction: an arbitrary function that tells apart any two different inputs of this run. What the real one tells
 * apart is decided by crc.c */
static struct { uint32_t h; uint64_t len; char c[MAXN]; } hist[6]; static int nhist;
uint32_t rrr_crc32buf (const char *buf, uint64_t len) {
	VP_ASSUME(len <= MAXN && nhist < 6);
	uint32_t h = vp_u32();
	for (uint64_t i = 0; i < len; i++) hist[nhist].c[i] = buf[i];
	for (int j = 0; j < nhist; j++) {
		int same = hist[j].len == len;
		for (uint64_t i = 0; i < len; i++) same = same && hist[j].c[i] == buf[i];
		if (same) h = hist[j].h; else VP_ASSUME(h != hist[j].h);
	}
	hist[nhist].h = h; hist[nhist].len = len; nhist++;
	return h;
}
static int calls;
static uint8_t type, class_, version; static uint64_t ts; static uint16_t tl; static uint32_t dl;
static int cb_msg(struct rrr_msg_msg **m_, void *a, void *b) {
	struct rrr_msg_msg *m = *m_;
	calls++;
	VP_ASSERT(MSG_TYPE(m) == type && MSG_CLASS(m) == class_ && m->timestamp == ts && MSG_TOPIC_LENGTH(m) == tl && MSG_DATA_LENGTH(m) == dl, "header fields survive the wire");
	VP_ASSERT(memcmp(MSG_TOPIC_PTR(m), topic, TL) == 0, "topic survives the wire");
	VP_ASSERT(memcmp(MSG_DATA_PTR(m), data, DL) == 0, "data survives the wire");
	VP_ASSERT(rrr_msg_msg_topic_equals(m, topic) || memchr(topic, 0, TL) != NULL, "topic compares equal to what was sent");
	return 0;
}
static int cb_ctrl(const struct rrr_msg *m, void *a, void *b) { calls++; return 0; }
void vp_harness(void) {
	type = (uint8_t) vp_range(1, 5); class_ = vp_bool() ? 1 : 11; ts = vp_u64(); tl = TL; dl = DL;
	vp_bytes(topic, TL); vp_bytes(data, DL);
	for (int i = 0; i < TL; i++) VP_ASSUME((unsigned char) topic[i] < 0x80);
	struct rrr_msg_msg *m = NULL;
	VP_ASSERT(rrr_msg_msg_new_with_data(&m, type, class_, ts, topic, tl, data, dl) == 0, "message is created");
	const uint32_t n = 30 + TL + DL;
	VP_ASSERT(m->msg_size == n, "size of new message");
	rrr_msg_msg_prepare_for_network(m);
	rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) m);
	char *buf = malloc(n);
	memcpy(buf, m, n);
	rrr_free(m);
#if CORRUPT
	/* an arbitrary error confined to: the header checksum field, the rest of the header, or the payload */
	static const int lo[3] = {0, 4, 18}, hi[3] = {4, 18, 30 + TL + DL};
	unsigned char err[30 + TL + DL], any = 0;
	memset(err, 0, sizeof(err));
	for (int i = lo[CORRUPT - 1]; i < hi[CORRUPT - 1]; i++) { err[i] = vp_u8(); any |= err[i]; buf[i] ^= (char) err[i]; }
	VP_ASSUME(any != 0);
#endif
	rrr_length target = 0;
	int r = rrr_msg_get_target_size_and_check_checksum(&target, (struct rrr_msg *) buf, n);
	struct rrr_msg *rm = (struct rrr_msg *) buf;
	if (r == 0 && target == n)
		r = rrr_msg_to_host_and_verify_with_callback(&rm, n, cb_msg, NULL, NULL, cb_ctrl, NULL, NULL, NULL);
	else
		r = 1;
	VP_COVER("receiver decides");
#if CORRUPT
	VP_ASSERT(calls == 0 && r != 0, "corrupted message is not delivered");
#else
	VP_ASSERT(r == 0 && calls == 1, "sent message is delivered");
#endif
	free(buf);
}
