/* Messages are reassembled from a stream of bytes however it is split up. The stream is M messages, a message is a length byte and contents. */
#include "vp.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include "lib/allocator.h"
#include "lib/read.h"
#include "lib/read_constants.h"
#include "lib/util/rrr_time.h"
uint64_t rrr_time_get_64 (void) { return 100000000; }
#ifndef STEP
#define STEP 3
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef SRCS
#define SRCS 1
#endif
#ifndef FLAGS
#define FLAGS 0
#endif
/* per sender: the stream, how much of it has arrived, how much has been delivered */
static const uint8_t lens[] = { LENS };
#define L ((int) sizeof(lens))
static uint8_t stream[SRCS][40]; static int total, arrived[SRCS], delivered[SRCS], messages[SRCS], lost[SRCS];
static struct rrr_read_session_collection coll;
static unsigned int split, turn; static int now, zero, closed, fd_eof, oversize;
static struct sockaddr_in addr(int i) { struct sockaddr_in a = {0}; a.sin_family = AF_INET; a.sin_port = (in_port_t) (7 + i); return a; }
static int who(struct rrr_read_session *s) { struct sockaddr_in a; memcpy(&a, &s->src_addr, sizeof(a)); VP_ASSERT(s->src_addr_len == sizeof(a), "address"); return a.sin_port - 7; }
static int readfn(char *buf, rrr_biglength *n, rrr_biglength max, void *arg) {
	(void) arg; *n = 0;
	VP_ASSERT(max == STEP, "read step size");
	/* nothing to read at times */
	if (zero) { zero = 0; return RRR_READ_OK; }
	now = SRCS > 1 ? (int) (turn & 1) : 0;
	turn >>= 1;
	if (SRCS > 1 && arrived[now] == total) now = 1 - now;
	if (arrived[now] == total) { fd_eof = 1; return RRR_READ_EOF; }
	int c = 0;
	do {
		buf[c++] = (char) stream[now][arrived[now]++];
		int stop = split & 1;
		split >>= 1;
		if (stop) break;
	} while (c < STEP && arrived[now] < total);
	*n = (rrr_biglength) c;
	return RRR_READ_OK;
}
static int target(struct rrr_read_session *s, void *arg) {
	(void) arg; int i = who(s);
	VP_ASSERT(s->rx_buf_wpos > 0 && s->rx_buf_wpos <= (rrr_biglength) (arrived[i] - delivered[i]), "no data is made up");
	if (MODE == 1) { s->read_complete_method = RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ; return RRR_READ_OK; }
	if (MODE == 3 && s->rx_buf_ptr[0] == 0) { s->rx_buf_skip = 1; delivered[i]++; return RRR_READ_INCOMPLETE; }
	/* the length is in the last byte of a two byte header in this mode */
	if (MODE == 4 && s->rx_buf_wpos < 2) return RRR_READ_INCOMPLETE;
	if (s->rx_buf_ptr[MODE == 4] < 0) return RRR_READ_SOFT_ERROR;
	s->target_size = (rrr_biglength) s->rx_buf_ptr[MODE == 4];
	return RRR_READ_OK;
}
static int target_err;
static void target_error(struct rrr_read_session *s, int hard, void *arg) { (void) s; (void) arg; VP_ASSERT(!hard, "soft error"); target_err++; }
static int complete(struct rrr_read_session *s, void *arg) {
	(void) arg; int i = who(s);
	int len = MODE == 1 ? total : lens[messages[i]];
	while (MODE == 3 && lens[messages[i]] == 0) len = lens[++messages[i]];
	VP_ASSERT(delivered[i] + len <= arrived[i], "a message is complete when all of it has arrived");
	VP_ASSERT(s->rx_buf_ptr != NULL && s->rx_buf_wpos == (rrr_biglength) len && s->target_size == (rrr_biglength) len, "size of message");
	for (int j = 0; j < len; j++) VP_ASSERT((uint8_t) s->rx_buf_ptr[j] == stream[i][delivered[i] + j], "contents of message");
	delivered[i] += len; messages[i]++;
	if (delivered[i] == arrived[i]) s->eof_ok_now = 1;
	/* the callback may keep the buffer */
	if (KEEP) { rrr_free(s->rx_buf_ptr); s->rx_buf_ptr = NULL; }
	return RRR_READ_OK;
}
static struct rrr_read_session *over(void *arg) { (void) arg; return rrr_read_session_collection_get_session_with_overshoot(&coll); }
static struct rrr_read_session *sess(void *arg) {
	(void) arg; struct sockaddr_in a = addr(now); int is_new;
	struct rrr_read_session *s = rrr_read_session_collection_maintain_and_find_or_create(&is_new, &coll, (struct sockaddr *) &a, sizeof(a));
	return s;
}
static void removes(struct rrr_read_session *s, void *arg) { (void) arg; closed++; rrr_read_session_collection_remove_session(&coll, s); }
static int sockopt(struct rrr_read_session *s, void *arg) { (void) arg; s->socket_options = 1; return 0; }
static void one(void) {
	rrr_read_session_collection_init(&coll);
	now = closed = fd_eof = target_err = 0;
	for (int i = 0; i < SRCS; i++) arrived[i] = delivered[i] = messages[i] = 0;
	int r = 0, bad = 0;
	for (int calls = 0; calls < 60; calls++) {
		uint64_t bytes = 0;
		zero = calls & 1;
		r = rrr_read_message_using_callbacks(&bytes, MODE == 2 ? lens[0] : 1, STEP, MAX, FLAGS, NULL, 0, 0, MODE == 2 ? NULL : target, target_error, complete, readfn, over, sess, removes, sockopt, NULL);
		if (r != RRR_READ_OK && r != RRR_READ_INCOMPLETE) break;
		VP_ASSERT(!fd_eof, "end is reported");
		VP_ASSERT(closed == 0, "session is kept");
		int left = 0;
		for (int i = 0; i < SRCS; i++) left += arrived[i] - delivered[i];
		VP_ASSERT(rrr_read_session_collection_has_unprocessed_data(&coll) == (left > 0), "unprocessed data");
	}
	(void) bad;
	VP_ASSERT(r == RRR_READ_EOF || r == RRR_READ_SOFT_ERROR, "comes to an end");
	VP_ASSERT(closed == 1, "session is removed at the end");
#if BAD == 0
	VP_ASSERT(fd_eof, "all is read");
	for (int i = 0; i < SRCS; i++) VP_ASSERT(delivered[i] == total && messages[i] == (MODE == 1 ? 1 : L), "all messages are delivered, each once");
	VP_ASSERT(r == RRR_READ_EOF, "end of stream between messages is not an error");
#elif BAD == 1
	/* the last message is cut off */
	VP_ASSERT(fd_eof && messages[0] == L - 1, "all complete messages are delivered, each once");
	VP_ASSERT(r == RRR_READ_SOFT_ERROR, "end of stream inside a message is an error");
#else
	/* the last message can not be parsed or is too long */
	VP_ASSERT(messages[0] == L - 1, "messages before are delivered, each once");
	VP_ASSERT(r == RRR_READ_SOFT_ERROR && target_err == (BAD == 2), "error is reported");
#endif
	rrr_read_session_collection_clear(&coll);
}
void vp_harness(void) {
	for (int s = 0; s < SRCS; s++) {
		int p = 0;
		for (int i = 0; i < L; i++) {
			/* a zero is a byte to skip in mode 3 */
			for (int j = 0; j < (MODE == 3 && lens[i] == 0 ? 1 : lens[i]); j++) stream[s][p++] = j == (MODE == 4) && MODE != 1 && MODE != 2 ? lens[i] : vp_u8();
		}
		total = p;
	}
	if (BAD == 1) total--;
	if (BAD == 2) stream[0][total - lens[L - 1] + (MODE == 4)] = 0x80;
	/* every way to split the stream */
	for (unsigned int c = FROM; c < (unsigned int) TO; c++) { split = c & 0x3ff; turn = c >> (SRCS > 1 ? 3 : 0) ^ c; one(); }
	VP_COVER("done");
}
