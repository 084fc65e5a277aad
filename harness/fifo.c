/* FIFO buffer: one operation (OP) on a buffer of N entries, with any combination of callback results */
#include "vp.h"
#include "lib/fifo.h"
#include "lib/allocator.h"
#define MAXN 6
/* model: identifiers of the entries in order */
static int mod[2 * MAXN + 4], modn;
static uint64_t ord[2 * MAXN + 4];
static int freed[32], held[32];
static char *ptr[32];
static int ids = 0;
static char *fresh(int *id) { int i = ids++; char *p = malloc(1); *p = (char) i; ptr[i] = p; *id = i; return p; }
static void incref(void *arg) { held[(int) *(char *) arg]++; }
static void decref(void *arg) { int i = *(char *) arg; VP_ASSERT(held[i] == 1, "data is released once"); held[i] = 0; freed[i] = 1; }
static int flags[MAXN + 2], fi;
static uint64_t orders[MAXN + 2];
static int putn, put_ordered;
static int put(char **data, unsigned long int *size, uint64_t *order, void *arg) {
	int id; (void) arg;
	*data = fresh(&id); *size = (unsigned long) id + 100; *order = orders[fi];
	int at = modn;
	if (put_ordered) { for (at = 0; at < modn && ord[at] < *order; at++) ; }
	for (int i = modn; i > at; i--) { mod[i] = mod[i - 1]; ord[i] = ord[i - 1]; }
	mod[at] = id; ord[at] = *order; modn++;
	fi++;
	return (put_ordered ? RRR_FIFO_WRITE_ORDERED : 0) | (fi < putn ? RRR_FIFO_WRITE_AGAIN : 0);
}
static int expect;
static uint64_t minimum; static int use_min;
static int see(void *arg, char *data, unsigned long int size) {
	(void) arg;
	while (use_min && expect < modn && ord[expect] <= minimum) expect++;
	VP_ASSERT(expect < modn && data == ptr[mod[expect]] && size == (unsigned long) mod[expect] + 100 && !freed[mod[expect]], "entries come in order, none lost or repeated");
	expect++;
	return 0;
}
static void check(struct rrr_fifo *f) {
	VP_ASSERT(rrr_fifo_get_entry_count(f) == (rrr_length) modn, "entry count");
	expect = 0; use_min = 0;
	VP_ASSERT(rrr_fifo_read(f, see, NULL) == 0, "read");
	VP_ASSERT(expect == modn, "all entries are read");
}
static void drop(int at) { for (int i = at; i + 1 < modn; i++) { mod[i] = mod[i + 1]; ord[i] = ord[i + 1]; } modn--; }
static int pos, calls, err;
/* search: keep, give, give and free, each with or without stop, or error */
static int search(void *arg, char *data, unsigned long int size) {
	(void) arg; (void) size;
	int k = flags[calls++], id = mod[pos];
	VP_ASSERT(!err, "not called again after stop");
	VP_ASSERT(pos < modn && data == ptr[id], "search visits the entries in order");
	if (k & RRR_FIFO_CALLBACK_ERR) { err = 2; return k; }
	if (k & RRR_FIFO_SEARCH_STOP) err = 1;
	if (k & RRR_FIFO_SEARCH_GIVE) drop(pos); else pos++;
	return k;
}
static int again;
static int repl(char **data, unsigned long int *size, uint64_t *order, void *arg) {
	(void) arg;
	if (again && (err || pos == modn)) {
		/* call after looping */
		fi = 0; putn = 1; return put(data, size, order, arg);
	}
	int k = flags[calls++];
	VP_ASSERT(!err, "not called again after stop");
	VP_ASSERT(pos < modn && *data == ptr[mod[pos]] && *order == ord[pos], "search visits the entries in order");
	if (k & RRR_FIFO_CALLBACK_ERR) { err = 2; return k; }
	if (k & RRR_FIFO_SEARCH_STOP) err = 1;
	if (k & RRR_FIFO_SEARCH_GIVE) drop(pos);
	else if (k & RRR_FIFO_SEARCH_REPLACE) {
		int id; *data = fresh(&id); *size = (unsigned long) id + 100;
		mod[pos] = id; pos++;
	}
	else pos++;
	return k;
}
static int first;
/* number of entries at the front of the model which the reader has taken */
static int taken; static struct rrr_fifo *the; static int wr[MAXN];
static int drain(void *arg, char *data, unsigned long int size) {
	(void) arg; (void) size;
	int at = calls, k = flags[calls++];
	VP_ASSERT(!err, "not called again after stop");
	VP_ASSERT(data == ptr[mod[0]], "entries come in order");
	drop(0); taken--;
	if (wr[at]) { fi = MAXN; putn = fi + 1; put_ordered = 0; VP_ASSERT(rrr_fifo_write(the, put, NULL) == 0, "write while reading"); }
	if (k & RRR_FIFO_CALLBACK_ERR) err = 2; else if (k & RRR_FIFO_SEARCH_STOP) err = 1;
	return k;
}
static int dfree(int k) { return (k & RRR_FIFO_SEARCH_FREE) != 0; }
void vp_harness(void) {
	struct rrr_fifo f;
	rrr_fifo_init_custom_refcount(&f, incref, decref);
	/* a buffer of N entries, in order */
	if (N > 0) {
		for (int i = 0; i < N; i++) orders[i] = OP == 1 ? vp_u8() : i;
		for (int i = 1; OP == 1 && i < N; i++) VP_ASSUME(orders[i - 1] <= orders[i]);
		fi = 0; putn = N; put_ordered = 0;
		VP_ASSERT(rrr_fifo_write(&f, put, NULL) == 0, "write");
	}
	check(&f);
	int gone[MAXN], before[MAXN];
	for (int i = 0; i < N; i++) before[i] = mod[i];
	for (int i = 0; i < N + 1; i++) flags[i] = 0;
	calls = pos = err = 0;
#if OP == 0 || OP == 2
	/* any choice for each entry */
	for (int i = 0; i < N; i++) {
#ifdef FEW
		static const int few[] = {0, 2, 4, 7};
		int c = few[vp_range(0, 3)];
#else
		int c = vp_range(0, OP == 0 ? 6 : 9);
#endif
		flags[i] = c == 0 ? 0 : c == 1 ? RRR_FIFO_SEARCH_GIVE : c == 2 ? RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE : c == 3 ? RRR_FIFO_SEARCH_STOP :
			c == 4 ? RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_STOP : c == 5 ? RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP : c == 6 ? RRR_FIFO_CALLBACK_ERR :
			c == 7 ? RRR_FIFO_SEARCH_REPLACE|RRR_FIFO_SEARCH_FREE : c == 8 ? RRR_FIFO_SEARCH_REPLACE : RRR_FIFO_SEARCH_REPLACE|RRR_FIFO_SEARCH_STOP;
	}
#endif
#if OP == 0
	int r = rrr_fifo_search(&f, search, NULL);
	VP_ASSERT((r != 0) == (err == 2), "error from callback is reported");
	for (int i = 0; i < N; i++) VP_ASSERT(freed[before[i]] == (i < calls && (flags[i] & RRR_FIFO_SEARCH_FREE) != 0), "exactly the entries to be freed are freed");
	VP_ASSERT(err || calls == N, "all entries are visited");
	check(&f);
#elif OP == 1
	/* ordered write into a sorted buffer */
	orders[0] = vp_u8(); fi = 0; putn = 1; put_ordered = 1;
	VP_ASSERT(rrr_fifo_write(&f, put, NULL) == 0, "write");
	VP_ASSERT(rrr_fifo_get_entry_count(&f) == N + 1, "count");
	/* reading above a minimum gives exactly those entries, in order */
	expect = 0; use_min = 1; minimum = vp_u8();
	int want = 0; for (int i = 0; i < modn; i++) if (ord[i] > minimum) want++;
	VP_ASSERT(rrr_fifo_read_minimum(&f, NULL, see, NULL, minimum) == 0, "read minimum");
	int got = 0; for (int i = 0; i < expect; i++) if (ord[i] > minimum) got++;
	VP_ASSERT(got == want, "all entries above the minimum are read");
	check(&f);
#elif OP == 2
	again = AGAIN;
	int n0 = ids;
	int r = rrr_fifo_search_and_replace(&f, repl, NULL, again);
	VP_ASSERT((r != 0) == (err == 2), "error from callback is reported");
	for (int i = 0; i < N; i++) VP_ASSERT(freed[before[i]] == (i < calls && (flags[i] & RRR_FIFO_SEARCH_FREE) != 0), "exactly the entries to be freed are freed");
	VP_ASSERT(err || calls == N, "all entries are visited");
	check(&f); (void) n0;
#elif OP == 3
	for (int i = 0; i < N; i++) { int c = vp_range(0, 5); flags[i] = c == 0 ? 0 : c == 1 ? RRR_FIFO_SEARCH_FREE : c == 2 ? RRR_FIFO_SEARCH_STOP : c == 3 ? RRR_FIFO_SEARCH_STOP|RRR_FIFO_SEARCH_FREE : c == 4 ? RRR_FIFO_CALLBACK_ERR : RRR_FIFO_CALLBACK_ERR|RRR_FIFO_SEARCH_FREE; }
	the = &f; taken = modn;
#ifdef WR
	for (int i = 0; i < N; i++) wr[i] = vp_bool();
#endif
	int r = rrr_fifo_read_clear_forward_all(&f, drain, NULL);
	VP_ASSERT((r != 0) == (err == 2), "error from callback is reported");
	for (int i = 0; i < N; i++) VP_ASSERT(freed[before[i]] == (i < calls && dfree(flags[i])), "exactly the entries to be freed are freed");
	VP_ASSERT(err || calls == N, "all entries are visited");
	check(&f);
	/* what is written afterwards comes behind what was put back */
	fi = 0; putn = 2; put_ordered = 0;
	VP_ASSERT(rrr_fifo_write(&f, put, NULL) == 0, "write");
	check(&f);
#elif OP == 4
	struct rrr_fifo g;
	rrr_fifo_init_custom_refcount(&g, incref, decref);
	int save[MAXN]; uint64_t so[MAXN]; int m = modn;
	for (int i = 0; i < m; i++) { save[i] = mod[i]; so[i] = ord[i]; }
	modn = 0; fi = 0; putn = M;
	if (M > 0) VP_ASSERT(rrr_fifo_write(&g, put, NULL) == 0, "write");
	for (int i = M - 1; i >= 0; i--) { mod[i + m] = mod[i]; ord[i + m] = ord[i]; }
	for (int i = 0; i < m; i++) { mod[i] = save[i]; ord[i] = so[i]; }
	modn = m + M;
	VP_ASSERT(rrr_fifo_merge(&f, &g) == 0, "merge");
	check(&f);
	int k = modn; modn = 0; check(&g); modn = k;
	rrr_fifo_destroy(&g);
	fi = 0; putn = 2;
	VP_ASSERT(rrr_fifo_write(&f, put, NULL) == 0, "write");
	check(&f);
#endif
	VP_COVER("done");
	rrr_fifo_destroy(&f);
	for (int i = 0; i < modn; i++) VP_ASSERT(freed[mod[i]], "all entries are freed at the end");
	(void) gone; (void) first;
}
