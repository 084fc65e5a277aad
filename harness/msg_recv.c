/* Arbitrary bytes of N bytes as the read framework would hand them over: size from the header, then verification and
 * dispatch. Whatever is delivered must be well-formed and usable without touching memory outside the message. */
#include "vp.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_addr.h"
#include "lib/messages/msg_log.h"
#include "lib/stats/stats_message.h"
#include "lib/allocator.h"
#include "lib/util/crc32.h"
#ifndef N
#define N 33
#endif
#ifndef TYPE
#define TYPE 0
#endif
static int calls;
static const struct rrr_msg *cur;
static volatile uint8_t sink;
/* The checksum function is replaced: it touches its range and gives any verdict (that it detects corruption is C02's subject) */
uint32_t rrr_crc32cmp (const char *buf, uint64_t len, uint32_t crc32) {
	if (len > 0) sink = buf[0] ^ buf[len - 1];
	return vp_u32();
}
static int cb_msg(struct rrr_msg_msg **m_, void *a, void *b) {
	struct rrr_msg_msg *m = *m_;
	calls++;
	VP_COVER("data message delivered");
	VP_ASSERT(m->msg_size == N, "delivered message states the size that was received");
	VP_ASSERT((uint64_t) MSG_TOPIC_LENGTH(m) + 30 <= N, "topic lies within the delivered message");
	VP_ASSERT((uint64_t) MSG_TOPIC_LENGTH(m) + MSG_DATA_LENGTH(m) + 30 == N, "topic and data fill the delivered message exactly");
	VP_ASSERT(MSG_TYPE(m) >= 1 && MSG_TYPE(m) <= 5, "delivered message has a known type");
	VP_ASSERT(MSG_CLASS(m) == MSG_CLASS_DATA || MSG_CLASS(m) == MSG_CLASS_ARRAY, "delivered message has a known class");
	char *t = NULL; uint16_t l = 0;
	if (rrr_msg_msg_topic_and_length_get(&t, &l, m) == 0) {
		VP_ASSERT(l == MSG_TOPIC_LENGTH(m) && t[l] == '\0', "topic copy is terminated");
		rrr_free(t);
	}
	struct rrr_msg_msg *d = rrr_msg_msg_duplicate(m);
	VP_ASSERT(memcmp(d, m, N) == 0, "duplicate equals the message");
	rrr_free(d);
	return 0;
}
static int cb_addr(const struct rrr_msg_addr *m, void *a, void *b) {
	calls++;
	VP_COVER("address message delivered");
	VP_ASSERT(m->msg_size == N && RRR_MSG_ADDR_GET_ADDR_LEN(m) == N - 19, "address length is what was received");
	return 0;
}
static int cb_log(const struct rrr_msg_log *m, void *a, void *b) {
	calls++;
	VP_COVER("log message delivered");
	char *p = NULL, *s = NULL;
	VP_ASSERT(m->msg_size == N, "delivered log message states the size that was received");
	VP_ASSERT((uint64_t) m->prefix_size + 155 <= N, "prefix lies within the delivered log message");
	if (rrr_msg_msg_log_to_str(&p, &s, m) == 0) {
		rrr_free(p); rrr_free(s);
	}
	return 0;
}
static int cb_ctrl(const struct rrr_msg *m, void *a, void *b) {
	calls++;
	VP_COVER("control message delivered");
	VP_ASSERT(m->msg_size == N, "delivered control message states the size that was received");
	VP_ASSERT((m->msg_type & ~RRR_MSG_CTRL_F_ALL) == 0, "only known control flags are delivered");
	return 0;
}
static int cb_stats(const struct rrr_msg_stats *m, void *a, void *b) {
	calls++;
	VP_COVER("stats message delivered");
	VP_ASSERT(m->data_size <= sizeof(m->data), "stats data fits its buffer");
	VP_ASSERT(m->data_size <= N - 25, "stats data lies within the received message");
	VP_ASSERT(m->path[N > 25 ? N - 25 : 0] == 0, "stats path lies within the received message");
	VP_ASSERT(memchr(m->path, 0, sizeof(m->path)) != NULL, "stats path is terminated");
	VP_ASSERT((m->flags & ~RRR_STATS_MESSAGE_FLAGS_ALL) == 0 && m->type <= 3, "only known stats flags and types are delivered");
	return 0;
}
void vp_harness(void) {
#define ALLOC (TYPE == 6 && N < sizeof(struct rrr_msg_stats_packed) ? sizeof(struct rrr_msg_stats_packed) : N)
	char *buf = malloc(ALLOC);
	memset(buf, 'x', ALLOC);
	/* log messages: the file name field is concrete, header, lengths and payload are symbolic */
	vp_bytes(buf, TYPE == 16 && N > 146 ? 18 : N);
	if (TYPE == 16 && N > 146) { memset(buf + 18, 'f', 128); vp_bytes(buf + 146, N - 146); }
	if (N > 18) {
		/* type 0: any */
		if (TYPE) { buf[8] = 0; buf[9] = TYPE; }
	}
	rrr_length target = 0;
	int r = rrr_msg_get_target_size_and_check_checksum(&target, (struct rrr_msg *) buf, N);
	VP_ASSERT(r == RRR_MSG_READ_OK || r == RRR_MSG_READ_SOFT_ERROR || r == RRR_MSG_READ_INCOMPLETE, "known result");
	VP_ASSERT(N >= 18 || r == RRR_MSG_READ_INCOMPLETE, "more bytes are requested until the header is complete");
	if (r != RRR_MSG_READ_OK) { free(buf); return; }
	VP_ASSERT(target >= 18, "accepted size is at least the header");
	if (target != N) { free(buf); return; } /* read framework waits for / cuts at target */
	VP_COVER("header accepted");
	struct rrr_msg *m = (struct rrr_msg *) buf;
	cur = m;
	r = rrr_msg_to_host_and_verify_with_callback(&m, N, cb_msg, cb_addr, cb_log, cb_ctrl, cb_stats, NULL, NULL);
	VP_ASSERT(r == 0 || calls == 0, "nothing is delivered from a rejected message");
	VP_ASSERT(calls <= 1, "delivered once");
	free(m);
}
