/* Message slot: one writer and R readers. Readers run whenever the slot is not locked by the writer (when it waits and after it unlocks), any of them in any order with any callback results. */
#include "vp.h"
#include <errno.h>
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_slot.c"
#include "lib/message_holder/message_holder_util.h"
#include "lib/message_holder/message_holder_collection.h"
#include "lib/messages/msg_msg.h"
#include "lib/allocator.h"
#include "lib/util/rrr_time.h"
uint64_t rrr_time_get_64 (void) { return 1; }
void rrr_time_gettimeofday_timespec (struct timespec *t, uint64_t us) { (void) us; t->tv_sec = 1; t->tv_nsec = 0; }
int rrr_posix_mutex_init (pthread_mutex_t *mutex, int flags) { (void) flags; mutex->__data.__lock = 0; return 0; }
int rrr_posix_cond_init (pthread_cond_t *c, int flags) { (void) c; (void) flags; return 0; }
int pthread_cond_destroy (pthread_cond_t *c) { (void) c; return 0; }
void pthread_testcancel (void) { }
int sched_yield (void) { VP_ASSERT(0, "no deadlock"); return 0; }
#ifdef VP_CBMC
void *vp_typed_malloc(size_t size) {
	if (size == sizeof(struct rrr_msg_holder)) { struct rrr_msg_holder *p = malloc(sizeof(*p)); *p = (struct rrr_msg_holder) {0}; return p; }
	return NULL;
}
#endif
static struct rrr_msg_holder_slot *slot;
/* thread 0 is the writer, others the readers; a thread may take a lock again when it has it only when it is recursive (entries) */
static int thread, slot_owner = -1, in_reader, armed;
static pthread_mutex_t *slot_lock;
static void readers(void); static void check_empty(void);
static int written, cancelled, pending, held, sched;
int pthread_mutex_lock (pthread_mutex_t *m) {
	if (m == slot_lock) { VP_ASSERT(slot_owner == -1, "no deadlock"); slot_owner = thread; }
	else m->__data.__lock++;
	return 0;
}
int pthread_mutex_trylock (pthread_mutex_t *m) { m->__data.__lock++; return 0; }
int pthread_mutex_unlock (pthread_mutex_t *m) {
	if (m == slot_lock) {
		VP_ASSERT(slot_owner == thread, "slot is locked");
		slot_owner = -1;
		if (thread == 0 && armed) {
			/* what has been written is visible from now */
			if (pending && !cancelled) { check_empty(); written++; pending--; }
			if (!held) readers();
		}
	}
	else {
		VP_ASSERT(m->__data.__lock > 0, "lock is held");
		m->__data.__lock--;
	}
	return 0;
}
int pthread_mutex_destroy (pthread_mutex_t *m) { if (m != slot_lock) VP_ASSERT(m->__data.__lock == 0, "lock is not held"); return 0; }
static int broadcasts, waits;
int pthread_cond_broadcast (pthread_cond_t *c) { (void) c; VP_ASSERT(slot_owner == thread, "slot is locked"); broadcasts++; return 0; }
static uint64_t content[M + 1];
static int seen[3], result_of_callback, keep, did;
static int rd(int *do_keep, struct rrr_msg_holder *e, void *arg) {
	(void) arg;
	int id = (int) e->buffer_time, i = R > 0 ? thread - 1 : 0;
	VP_ASSERT(slot_owner == thread, "slot is locked");
	VP_ASSERT(id < written, "message has been written");
	VP_ASSERT(id == seen[i], "each reader gets each message once and in order");
	struct rrr_msg_msg *m = e->message;
	VP_ASSERT(m->timestamp == content[id] && e->data_length == sizeof(*m) - 1, "contents of message");
	/* the reader may change its copy */
	m->timestamp = 0;
	did = 1;
	*do_keep = keep;
	int r = result_of_callback;
	if (r == 0 && !keep) seen[i]++;
	rrr_msg_holder_unlock(e);
	return r;
}
/* one attempt of a reader */
static void attempt(int i, int kind) {
	if (R == 1 && i == 1) return;
	int t = thread;
	thread = i + 1;
	int r, d = 0;
	did = 0;
	keep = kind == 1; result_of_callback = kind == 2 ? 7 : 0;
	int had = seen[R > 0 ? i : 0] < written;
	if (kind == 3) {
		r = rrr_msg_holder_slot_discard(&d, slot, &seen[i]);
		VP_ASSERT(d == had, "discarded");
		if (d) seen[R > 0 ? i : 0]++;
	}
	else {
		r = rrr_msg_holder_slot_read(slot, &seen[i], rd, NULL);
		VP_ASSERT(did == had, "what has been written is read");
		VP_ASSERT(!did || r == result_of_callback, "result of callback");
	}
	VP_ASSERT(did || r == 0, "no error when there is nothing");
	thread = t;
}
static void readers(void) {
	if (in_reader) return;
	in_reader = 1;
	/* what the readers do is chosen by the run, one digit for each time */
	int c = sched % 9;
	sched /= 9;
	if (c > 0) attempt((c - 1) / 4, (c - 1) % 4);
	in_reader = 0;
}
int pthread_cond_timedwait (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
	(void) c; (void) t;
	VP_ASSERT(m == slot_lock && slot_owner == thread, "slot is locked");
	slot_owner = -1;
	waits++;
	if (waits < 2) readers();
	else {
		/* all readers get to read some time */
		attempt(0, 0); attempt(1, 0);
	}
	VP_ASSERT(slot_owner == -1, "slot is unlocked");
	slot_owner = thread;
	return vp_bool() ? 0 : ETIMEDOUT;
}
static int check_cancel(void *arg) { (void) arg; if (CANCEL) { cancelled = 1; return 5; } return 0; }
static struct rrr_msg_holder *make(int id) {
	struct rrr_msg_holder *e = NULL;
	VP_ASSERT(rrr_msg_holder_util_new_with_empty_message(&e, 0, NULL, 0, 0) == 0, "new");
	((struct rrr_msg_msg *) e->message)->timestamp = content[id];
	e->buffer_time = (uint64_t) id;
	return e;
}
static void check_empty(void) {
	for (int i = 0; i < (R > 0 ? R : 1); i++) VP_ASSERT(seen[i] == written, "a message is not overwritten until everybody has read it");
}
static int write_cb(int *do_drop, struct rrr_msg_holder *e, void *arg) {
	int id = *(int *) arg;
	check_empty();
	if (DROP) *do_drop = 1;
	else {
		struct rrr_msg_holder *x = make(id);
		rrr_msg_holder_set_data_unlocked(e, x->message, x->data_length);
		x->message = NULL;
		rrr_msg_holder_decref(x);
		e->buffer_time = (uint64_t) id;
		pending = 1;
	}
	rrr_msg_holder_unlock(e);
	return 0;
}
static void one(int run) {
	sched = run;
	slot_owner = -1; slot_lock = NULL; armed = 0; written = cancelled = pending = held = waits = 0;
	seen[0] = seen[1] = 0;
	VP_ASSERT(rrr_msg_holder_slot_new(&slot) == 0, "new");
	slot_lock = &slot->lock;
	VP_ASSERT(rrr_msg_holder_slot_reader_count_set(slot, R) == 0, "set");
	for (int i = 0; i < M; i++) content[i] = vp_u64();
	/* the first message is always written */
	struct rrr_msg_holder *first = make(0);
	VP_ASSERT(rrr_msg_holder_slot_write_clone(slot, first, check_cancel, NULL, NULL, NULL) == 0, "write");
	rrr_msg_holder_decref(first);
	written = 1;
	VP_ASSERT(rrr_msg_holder_slot_count(slot) == 1 + R, "count");
	armed = 1;
#if VAR == 3
	struct rrr_msg_holder_collection coll = {0};
	for (int id = 1; id < M; id++) { struct rrr_msg_holder *e = make(id); RRR_LL_APPEND(&coll, e); }
	pending = M - 1;
	int r3 = rrr_msg_holder_slot_write_from_collection(slot, &coll, check_cancel, NULL);
	VP_ASSERT(r3 == (cancelled ? 5 : 0), "result");
	VP_ASSERT(RRR_LL_COUNT(&coll) == M - written, "what was not written stays in the collection");
	rrr_msg_holder_collection_clear(&coll);
#else
	for (int id = 1; id < M && !cancelled; id++) {
		int r = 0;
		waits = 0;
#if VAR == 0
		r = rrr_msg_holder_slot_write(slot, NULL, 0, 0, write_cb, &id, check_cancel, NULL);
#else
		struct rrr_msg_holder *e = make(id);
		pending = 1;
		if (VAR == 1) {
			r = rrr_msg_holder_slot_write_clone(slot, e, check_cancel, NULL, NULL, NULL);
			rrr_msg_holder_decref(e);
		}
		else {
			/* the caller has the lock of the entry and keeps its reference */
			rrr_msg_holder_lock(e); held = 1;
			r = rrr_msg_holder_slot_write_incref(slot, e, check_cancel, NULL);
			VP_ASSERT(rrr_msg_holder_usercount(e) == (r == 0 ? 2 : 1), "reference count");
			rrr_msg_holder_decref_while_locked_and_unlock(e); held = 0;
			readers();
		}
#endif
		VP_ASSERT(r == (cancelled ? 5 : 0), "result");
	}
#endif
	armed = 0; pending = 0;
	for (int k = 0; k < M; k++) for (int i = 0; i < (R > 0 ? R : 1); i++) attempt(i, 0);
	check_empty();
	uint64_t del, wr;
	rrr_msg_holder_slot_get_stats(&del, &wr, slot);
	VP_ASSERT(wr == (uint64_t) written && del == (uint64_t) written, "statistics");
	VP_ASSERT(rrr_msg_holder_slot_count(slot) == 0, "count");
	rrr_msg_holder_slot_destroy(slot);
}
void vp_harness(void) {
	for (int run = LO; run < HI; run += STEP) one(run);
	VP_COVER("done");
}
