/* MQTT packet id pool: one operation from an arbitrary pool state */
#include "vp.h"
#include "lib/mqtt/mqtt_id_pool.h"
#include "lib/allocator.h"
#ifndef FULL
#define FULL 0
#endif
static int in_use(struct rrr_mqtt_id_pool *p, unsigned id) {
	unsigned maj = (id - 1) / 32;
	return maj < p->allocated_majors && (p->pool[maj] >> ((id - 1) % 32) & 1);
}
void vp_harness(void) {
	struct rrr_mqtt_id_pool p;
	VP_ASSERT(rrr_mqtt_id_pool_init(&p) == 0, "init");
	/* arbitrary state: words FULL.. are arbitrary, words before it are all in use */
	if (A > 0) {
		p.pool = rrr_allocate(A * 4);
		p.allocated_majors = A;
		for (int i = 0; i < A; i++) p.pool[i] = 0xffffffff;
		for (int i = FULL; i < A; i++) p.pool[i] = vp_u32();
	}
	p.last_allocated_id = vp_u16();
	uint32_t before[A + 1];
	for (int i = 0; i < A; i++) before[i] = p.pool[i];
	unsigned id = vp_u16();
	VP_ASSUME(id > 0 && id <= 32 * RRR_MQTT_ID_POOL_SIZE_IN_32);
	int was = in_use(&p, id);
#ifdef RELEASE
	VP_ASSUME(was);
	rrr_mqtt_id_pool_release_id(&p, (uint16_t) id);
	VP_ASSERT(!in_use(&p, id), "released id is free");
	for (int i = 0; i < A; i++) VP_ASSERT((before[i] & ~p.pool[i]) == ((unsigned) i == (id - 1) / 32 ? 1u << ((id - 1) % 32) : 0) && (p.pool[i] & ~before[i]) == 0, "no other id changes");
	VP_COVER("released");
#else
	unsigned r = rrr_mqtt_id_pool_get_id(&p);
	if (r != 0) {
		unsigned m = (r - 1) / 32;
		VP_ASSERT(m >= A || !(before[m < A ? m : 0] >> ((r - 1) % 32) & 1), "handed out id was not in use");
		VP_ASSERT(in_use(&p, r), "handed out id is in use");
		VP_ASSERT(id == r || in_use(&p, id) == was, "no other id changes");
		VP_COVER("got id");
	}
	else {
		VP_ASSERT(was, "no id is handed out only if all are in use");
		VP_ASSERT(in_use(&p, id), "ids stay in use");
		VP_COVER("no id left");
	}
#endif
	rrr_mqtt_id_pool_clear(&p);
	VP_ASSERT(p.pool == NULL && p.allocated_majors == 0, "cleared");
	uint16_t again = rrr_mqtt_id_pool_get_id(&p);
	VP_ASSERT(again != 0, "cleared pool has ids");
	rrr_mqtt_id_pool_destroy(&p);
}
