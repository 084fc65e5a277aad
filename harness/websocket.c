/* WebSocket: what is sent is received; received frames, each in all length forms */
#include "vp.h"
#include "lib/allocator.h"
#include "lib/websocket/websocket.h"
#include "lib/net_transport/net_transport.h"
#include "lib/net_transport/net_transport_ctx.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/read.h"
#include "lib/read_constants.h"
static uint64_t now = 1000000;
uint64_t rrr_time_get_64 (void) { return now; }
static uint32_t key; int rrr_rand (void) { key = vp_u32() & 0x7fffffff; return (int) key; }
int rrr_net_transport_ctx_get_fd (struct rrr_net_transport_handle *handle) { (void) handle; return 0; }
rrr_net_transport_handle rrr_net_transport_ctx_handle (struct rrr_net_transport_handle *handle) { (void) handle; return 0; }
/* wire */
#define WIRE 160
static uint8_t wire[WIRE]; static int wl;
static const uint8_t *big; static uint64_t bigl;
int rrr_net_transport_ctx_send_push_const (struct rrr_net_transport_handle *handle, const void *data, rrr_biglength size) {
	(void) handle;
	if (size > 64 && LEN > 130) { big = data; bigl = size; return 0; }
	VP_ASSERT(wl + size <= WIRE, "fits");
	memcpy(wire + wl, data, size); wl += (int) size;
	return 0;
}
/* one frame arrives: begins with AVAIL bytes, the rest follows when asked for (as the read functions do) */
static uint8_t *rx; static uint64_t rxl; static uint64_t total; static int rejected, incomplete;

static int seen, lastop; static uint64_t seenl; static uint8_t seenb[24];
static int got(uint8_t op, const struct rrr_nullsafe_str *payload, void *arg) {
	(void) arg;
	seen++; lastop = op; seenl = rrr_nullsafe_str_len(payload);
	rrr_nullsafe_len w = 0; rrr_nullsafe_str_copyto(&w, seenb, 24, payload);
	return 0;
}
static struct rrr_websocket_state ws;
#define MAXF 20
int rrr_net_transport_ctx_read_message (
		struct rrr_net_transport_handle *handle, rrr_biglength read_step_initial, rrr_biglength read_step_max_size, rrr_biglength read_max_size,
		uint64_t ratelimit_interval_us, rrr_biglength ratelimit_max_bytes,
		int (*get_target_size)(struct rrr_read_session *read_session, void *arg), void *get_target_size_arg,
		void (*get_target_size_error)(struct rrr_read_session *read_session, int is_hard_err, void *arg), void *get_target_size_error_arg,
		int (*complete_callback)(struct rrr_read_session *read_session, void *arg), void *complete_callback_arg
) {
	(void) handle; (void) read_step_initial; (void) read_step_max_size; (void) read_max_size; (void) ratelimit_interval_us; (void) ratelimit_max_bytes; (void) get_target_size_error; (void) get_target_size_error_arg;
	struct rrr_read_session s = {0};
	rejected = incomplete = 0; total = 0;
	int ret = RRR_READ_INCOMPLETE;
	for (int k = 0; k < 2; k++) {
		/* the first bytes only, then all */
		s.rx_buf_ptr = (char *) rx; s.rx_buf_size = rxl; s.rx_buf_wpos = k == 0 ? FIRST : rxl;
		ret = get_target_size(&s, get_target_size_arg);
		if (ret == RRR_READ_OK) {
			total = s.target_size;
			if (total > s.rx_buf_wpos) { ret = RRR_READ_INCOMPLETE; continue; }
			s.rx_buf_wpos = total; s.read_complete = 1;
			return complete_callback(&s, complete_callback_arg);
		}
		if (ret != RRR_READ_INCOMPLETE) { rejected = 1; return ret; }
	}
	incomplete = 1;
	return ret;
}
static int receive(uint8_t *b, uint64_t n) {
	rx = b; rxl = n; seen = 0;
	return rrr_websocket_transport_ctx_read_frames(NULL, &ws, 1, 1, 0, 0, 0, got, NULL);
}
#ifdef SEQ
/* frames: opcode, fin, payload length; masked with a symbolic key */
static uint8_t pl[4][4]; static int plen[4];
static int frame(int i, int op, int fin, int n) {
	uint8_t *b = malloc(6 + n); uint8_t k[4];
	vp_bytes(k, 4); vp_bytes(pl[i], n); plen[i] = n;
	b[0] = (uint8_t) (fin << 7 | op);
	if (MASK) {
		b[1] = (uint8_t) (0x80 | n);
		for (int j = 0; j < 4; j++) b[2 + j] = k[j];
		for (int j = 0; j < n; j++) b[6 + j] = pl[i][j] ^ k[j & 3];
	}
	else {
		b[1] = (uint8_t) n;
		for (int j = 0; j < n; j++) b[2 + j] = pl[i][j];
	}
	int r = receive(b, (MASK ? 6 : 2) + n);
	free(b);
	return r;
}
static void expect(int op, int a, int b, int c) {
	VP_ASSERT(seen == 1 && lastop == op, "the message is delivered once, with its type");
	int o[3] = {a, b, c}, p = 0;
	for (int i = 0; i < 3; i++) for (int j = 0; o[i] >= 0 && j < plen[o[i]]; j++) { VP_ASSERT(seenb[p] == pl[o[i]][j], "message content is that of its fragments in order"); p++; }
	VP_ASSERT(seenl == (uint64_t) p, "message length");
}
static int queued(void) { int n = 0; RRR_LL_ITERATE_BEGIN(&ws.send_queue, struct rrr_websocket_frame); VP_ASSERT(node->header.opcode == RRR_WEBSOCKET_OPCODE_PONG, "pong"); n++; RRR_LL_ITERATE_END(); return n; }
void vp_harness(void) {
	/* whole messages */
	VP_ASSERT(frame(0, 1, 1, 3) == 0, "text"); expect(1, 0, -1, -1);
	VP_ASSERT(frame(0, 2, 1, 2) == 0, "binary"); expect(2, 0, -1, -1);
	VP_ASSERT(frame(0, 2, 1, 0) == 0, "empty"); expect(2, 0, -1, -1);
#if SEQ == 0
	/* fragments */
	VP_ASSERT(frame(0, 1, 0, 2) == 0 && seen == 0, "first"); VP_ASSERT(frame(1, 0, 0, 1) == 0 && seen == 0, "second"); VP_ASSERT(frame(2, 0, 1, 3) == 0, "last"); expect(1, 0, 1, 2);
	VP_ASSERT(frame(0, 2, 0, 0) == 0 && seen == 0, "first"); VP_ASSERT(frame(1, 0, 1, 1) == 0, "last"); expect(2, 0, 1, -1);
#elif SEQ == 1
	/* control frames between fragments */
	VP_ASSERT(frame(0, 2, 0, 2) == 0 && seen == 0, "first");
	VP_ASSERT(frame(3, 9, 1, 2) == 0 && seen == 0, "ping"); VP_ASSERT(queued() == 1, "ping is answered");
	VP_ASSERT(frame(1, 0, 0, 1) == 0 && seen == 0, "second");
	ws.waiting_for_pong = 1;
	VP_ASSERT(frame(3, 10, 1, 0) == 0 && seen == 0 && !ws.waiting_for_pong, "pong");
	VP_ASSERT(frame(2, 0, 1, 2) == 0, "last"); expect(2, 0, 1, 2);
#elif SEQ == 2
	VP_ASSERT(frame(0, 0, 1, 2) != 0 && seen == 0, "continuation of nothing is an error");
#elif SEQ == 3
	VP_ASSERT(frame(0, 8, 1, 2) == RRR_READ_EOF && seen == 0, "close");
#elif SEQ == 4
	int op = vp_range(0, 15), fin = vp_bool();
	int r = frame(0, op, fin, 2);
	if (op == 0) VP_ASSERT(r != 0, "continuation of nothing is an error");
	else if (op > 2 && op < 8) VP_ASSERT(r == RRR_READ_SOFT_ERROR && seen == 0, "unknown type");
	else if (op > 10) VP_ASSERT(r == RRR_READ_SOFT_ERROR && seen == 0, "unknown type");
	else if (op >= 8 && !fin) VP_ASSERT(r == RRR_READ_SOFT_ERROR, "fragmented control frame");
	else if (op <= 2) VP_ASSERT(r == 0 && seen == fin, "message");
#endif
	VP_COVER("done");
	rrr_websocket_state_clear_all(&ws);
}
#elif defined(RAW)
void vp_harness(void) {
	/* any header */
	uint8_t *b = malloc(RAW);
	vp_bytes(b, RAW);
	VP_ASSUME(b[0] == 0x82); /* binary, final */
	int form = b[1] & 0x7f, masked = b[1] >> 7, h = 2 + (form == 126 ? 2 : form == 127 ? 8 : 0) + (masked ? 4 : 0);
	uint64_t n = form < 126 ? (uint64_t) form : form == 126 ? (uint64_t) (b[2] << 8 | b[3]) : 0;
	for (int i = 0; form == 127 && i < 8; i++) n = n << 8 | b[2 + i];
	uint8_t k[4]; for (int i = 0; i < 4 && masked; i++) k[i] = b[h - 4 + i];
	uint8_t copy[RAW]; for (int i = 0; i < RAW; i++) copy[i] = b[i];
	int r = receive(b, RAW);
	if (n > (uint64_t) INT64_MAX - (uint64_t) h) { VP_ASSERT(r == RRR_READ_SOFT_ERROR && seen == 0, "impossible length is rejected"); VP_COVER("impossible length"); }
	else {
		VP_ASSERT(!rejected && total == n + (uint64_t) h, "frame length");
		if (total > RAW) { VP_ASSERT(seen == 0 && r == RRR_READ_INCOMPLETE, "frame is not complete"); VP_COVER("incomplete"); }
		else {
			VP_ASSERT(r == 0 && seen == 1 && lastop == 2 && seenl == n, "frame is delivered");
			for (int i = 0; i < RAW && (uint64_t) i < n; i++) VP_ASSERT(seenb[i] == (uint8_t) (copy[h + i] ^ (masked ? k[i & 3] : 0)), "payload");
			VP_COVER("complete");
		}
	}
	rrr_websocket_state_clear_all(&ws);
	free(b);
}
#else
void vp_harness(void) {
	if (MASK) rrr_websocket_state_set_client_mode(&ws);
	char *p = LEN ? malloc(LEN) : NULL, keep[4] = {0};
	static const int at[4] = {0, 1, LEN > 2 ? LEN - 2 : 0, LEN > 1 ? LEN - 1 : 0};
	for (int i = 0; i < 4; i++) if (at[i] < LEN) { p[at[i]] = (char) vp_u8(); }
	for (int i = 0; i < 4; i++) if (at[i] < LEN) { keep[i] = p[at[i]]; }
	VP_ASSERT(rrr_websocket_frame_enqueue(&ws, 2, &p, LEN) == 0 && p == NULL, "enqueue");
	VP_ASSERT(rrr_websocket_transport_ctx_send_frames(NULL, &ws) == 0, "send");
	VP_ASSERT(RRR_LL_COUNT(&ws.send_queue) == 0, "queue is empty");
	/* first two bytes by the standard */
	VP_ASSERT(wire[0] == 0x82 && wire[1] >> 7 == MASK, "final, binary, masked by the client only");
	VP_ASSERT((wire[1] & 0x7f) == (LEN < 126 ? LEN : LEN < 65536 ? 126 : 127), "shortest form of length");
	const int h = 2 + (LEN < 126 ? 0 : LEN < 65536 ? 2 : 8) + 4 * MASK;
	if (LEN > 130) {
		VP_ASSERT(wl == h && bigl == LEN, "header and payload are sent");
		uint64_t n = 0; for (int i = 2; i < h; i++) n = n << 8 | wire[i];
		VP_ASSERT(n == LEN, "length field");
	}
	else {
		VP_ASSERT(wl == h + LEN, "header and payload are sent");
		struct rrr_websocket_state tmp = ws;
		memset(&ws, 0, sizeof(ws));
		uint8_t *b = malloc(wl); for (int i = 0; i < wl; i++) b[i] = wire[i];
		VP_ASSERT(receive(b, (uint64_t) wl) == 0 && seen == 1 && lastop == 2 && seenl == LEN, "receive");
		for (int i = 0; i < 4; i++) if (at[i] < LEN && at[i] < 24) VP_ASSERT((char) seenb[at[i]] == keep[i], "content is preserved");
		free(b); ws = tmp;
	}
	VP_COVER("done");
	rrr_websocket_state_clear_all(&ws);
}
#endif
