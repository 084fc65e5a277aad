/* FIFO shared between threads: any callback results, while other threads write whenever no lock is held (modelled as writes made by the callback). The maximum number of reads in one go is scaled to 2. */
#include "vp.h"
#include "lib/fifo_protected.h"
#include "lib/allocator.h"
#include "lib/util/posix.h"
uint64_t rrr_time_get_64 (void) { return 1; }
int rrr_posix_usleep (size_t us) { (void) us; VP_ASSERT(0, "no deadlock"); return 0; }
int rrr_slow_noop (void) { return 0; }
/* locks: a lock which is held is never taken again, and all are released in the end */
static int locks;
#define LOCK(m) (&(m)->__data.__lock)
#define WLOCK(m) ((int *) &(m)->__data.__readers)
int rrr_posix_mutex_init (pthread_mutex_t *mutex, int flags) { (void) flags; memset(mutex, 0, sizeof(*mutex)); return 0; }
int rrr_posix_rwlock_init (pthread_rwlock_t *rwlock, int flags) { (void) flags; memset(rwlock, 0, sizeof(*rwlock)); return 0; }
int pthread_mutex_lock (pthread_mutex_t *m) { int *l = LOCK(m); VP_ASSERT(*l == 0, "no deadlock"); *l = 1; locks++; return 0; }
int pthread_mutex_unlock (pthread_mutex_t *m) { int *l = LOCK(m); VP_ASSERT(*l == 1, "lock is held"); *l = 0; locks--; return 0; }
int pthread_mutex_destroy (pthread_mutex_t *m) { int *l = LOCK(m); VP_ASSERT(*l == 0, "lock is not held"); return 0; }
int pthread_rwlock_trywrlock (pthread_rwlock_t *m) { int *l = WLOCK(m); VP_ASSERT(*l == 0, "no deadlock"); *l = 1; locks++; return 0; }
int pthread_rwlock_tryrdlock (pthread_rwlock_t *m) { int *l = WLOCK(m); VP_ASSERT(*l == 0, "no deadlock"); *l = 1; locks++; return 0; }
int pthread_rwlock_unlock (pthread_rwlock_t *m) { int *l = WLOCK(m); VP_ASSERT(*l == 1, "lock is held"); *l = 0; locks--; return 0; }
int pthread_rwlock_destroy (pthread_rwlock_t *m) { int *l = WLOCK(m); VP_ASSERT(*l == 0, "lock is not held"); return 0; }
#ifdef VP_CBMC
void *vp_typed_malloc(size_t size) {
	if (size == sizeof(struct rrr_fifo_protected_entry)) { struct rrr_fifo_protected_entry *p = malloc(sizeof(*p)); *p = (struct rrr_fifo_protected_entry) {0}; return p; }
	return NULL;
}
#endif
#define MAXM 12
#ifdef ORD
#define STOP 9
#define W0 0
#define W1 0
#define KIND 0
#endif
static struct rrr_fifo_protected f;
static unsigned int sizes[24];
/* model: the reader's entries, the buffer's entries, the delayed entries */
static int mod[3][MAXM], n[3]; static uint64_t ord[MAXM];
static int freed[24], got[24]; static char *ptr[24]; static int ids;
static void release(void *p) { int i = *(char *) p; VP_ASSERT(!freed[i] && !got[i], "data is released once"); freed[i] = 1; }
static int ordered, more, more_ord; static uint64_t order_in; static int target, base;
static void insert(int t, int at, int id, uint64_t o) {
	for (int i = n[t]; i > at; i--) { mod[t][i] = mod[t][i - 1]; if (t == 1) ord[i] = ord[i - 1]; }
	mod[t][at] = id; if (t == 1) ord[at] = o;
	n[t]++;
}
static int put(char **data, unsigned long int *size, uint64_t *order, void *arg) {
	(void) arg;
	int id = ids++; char *p = malloc(1); *p = (char) id; ptr[id] = p;
	*data = p; *size = sizes[id] = (unsigned int) vp_u32(); *order = order_in;
	int at = n[target];
	if (ordered) for (at = 0; at < n[1] && ord[at] < order_in; at++) ;
	insert(target, at, id, order_in);
	if (more > 0) { more--; return RRR_FIFO_PROTECTED_WRITE_AGAIN | (ordered ? RRR_FIFO_PROTECTED_WRITE_ORDERED : 0); }
	return ordered ? RRR_FIFO_PROTECTED_WRITE_ORDERED : 0;
}
static int dropit(char **data, unsigned long int *size, uint64_t *order, void *arg) { (void) data; (void) size; (void) order; (void) arg; return RRR_FIFO_PROTECTED_WRITE_DROP; }
static void put1(int ord1, uint64_t o) { target = 1; ordered = ord1; order_in = o; more = 0; VP_ASSERT(rrr_fifo_protected_write(&f, put, NULL) == 0, "write"); }
static void delay1(void) { target = 2; ordered = 0; order_in = 0; more = 0; VP_ASSERT(rrr_fifo_protected_write_delayed(&f, put, NULL) == 0, "delayed write"); }
static int fcase;
static int flags[8], calls, stopped, after;
static int what[8];
static int drain(void *arg, char *data, unsigned long int size) {
	(void) arg;
	int at = calls++;
	VP_ASSERT(!stopped && at < 8, "not called again after stop");
	VP_ASSERT(n[0] > 0 && data == ptr[mod[0][0]] && size == sizes[mod[0][0]], "entries come in order, none lost or repeated");
	int id = mod[0][0], k = flags[at];
	for (int i = 0; i + 1 < n[0]; i++) mod[0][i] = mod[0][i + 1];
	n[0]--;
	/* other threads write */
	if (what[at] == 1) put1(0, 9);
	else if (what[at] == 2) delay1();
	else if (what[at] == 3) put1(1, 0);
	if (!(k & RRR_FIFO_PROTECTED_SEARCH_FREE)) got[id] = 1;
	if (STOP == at && !after) stopped = 1;
	return k;
}
static void merge(void) {
	for (int i = 0; i < n[2]; i++) insert(1, n[1], mod[2][i], 0);
	n[2] = 0;
}
/* one read; afterwards the model has what should be in the buffer */
static void rd(int any) {
	merge();
	int take = n[1] < 2 ? n[1] : 2;
	for (int i = 0; i < take; i++) mod[0][i] = mod[1][i];
	n[0] = take;
	for (int i = 0; i + take < n[1]; i++) { mod[1][i] = mod[1][i + take]; ord[i] = ord[i + take]; }
	n[1] -= take;
	calls = stopped = 0;
	/* what is returned and who writes is decided by the configuration */
	for (int i = 0; i < 2; i++) {
		flags[i] = what[i] = 0;
		if (!any) continue;
		if (fcase >> i & 1) flags[i] |= RRR_FIFO_PROTECTED_SEARCH_FREE;
		if (STOP == i) flags[i] |= KIND == 0 ? RRR_FIFO_PROTECTED_SEARCH_STOP : KIND == 1 ? RRR_FIFO_PROTECTED_CALLBACK_ERR : RRR_FIFO_PROTECTED_SEARCH_STOP|RRR_FIFO_PROTECTED_CALLBACK_ERR;
		what[i] = i == 0 ? W0 : W1;
	}
	int r = rrr_fifo_protected_read_clear_forward(&f, drain, NULL);
	int e = 0; for (int i = 0; i < calls; i++) if (flags[i] & RRR_FIFO_PROTECTED_CALLBACK_ERR) e = 1;
	VP_ASSERT((r != 0) == e, "error from callback is reported");
	VP_ASSERT(stopped || n[0] == 0, "all entries are visited");
	VP_ASSERT(locks == 0, "all locks are released");
	/* what was not visited is put back in front */
	for (int i = n[0] - 1; i >= 0; i--) insert(1, 0, mod[0][i], 0);
	n[0] = 0;
	VP_ASSERT(rrr_fifo_protected_get_entry_count(&f) == (rrr_length) n[1], "entry count");
}
static void one(void) {
	memset(freed, 0, sizeof(freed)); memset(got, 0, sizeof(got)); n[0] = n[1] = n[2] = ids = after = 0;
	VP_ASSERT(rrr_fifo_protected_init(&f, release) == 0, "init");
#ifdef ORD
	/* every way the new order may compare with the existing ones (fcase: new order in half steps, and whether all the existing are equal) */
	int equal = fcase & 1, x = 5 + 5 * (fcase >> 1);
	for (int i = 0; i < ORD; i++) put1(0, equal ? 10 : 10 * (i + 1));
	put1(1, x);
	VP_ASSERT(rrr_fifo_protected_get_entry_count(&f) == ORD + 1, "count");
	after = 1;
	while (n[1] > 0 || n[2] > 0) rd(0);
#else
	if (N > 0) { target = 1; more = N - 1; order_in = 5; VP_ASSERT(rrr_fifo_protected_write(&f, put, NULL) == 0, "write"); }
	VP_ASSERT(rrr_fifo_protected_write(&f, dropit, NULL) == 0, "nothing is written");
	if (D > 0) { target = 2; more = D - 1; VP_ASSERT(rrr_fifo_protected_write_delayed(&f, put, NULL) == 0, "write"); }
	rd(1);
	after = 1;
	put1(0, 9);
	while (n[1] > 0 || n[2] > 0) rd(0);
#endif
	struct rrr_fifo_protected_stats st;
	rrr_fifo_protected_get_stats(&st, &f);
	VP_ASSERT(n[1] == 0 && n[2] == 0 && st.total_entries_written == (uint64_t) ids && st.total_entries_deleted == (uint64_t) ids, "statistics");
	delay1(); put1(0, 1);
	rrr_fifo_protected_destroy(&f);
	for (int i = 0; i < ids; i++) VP_ASSERT(freed[i] + got[i] == 1, "all data is given to the reader or released");
}
void vp_harness(void) {
#ifdef ORD
	for (fcase = 0; fcase < 4 * ORD + 2; fcase++) one();
#else
	for (fcase = 0; fcase < (STOP == 0 || N + D == 1 ? 2 : 4); fcase++) one();
#endif
	VP_COVER("done");
}
