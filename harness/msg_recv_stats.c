/* A received statistics message of any size up to and beyond the maximum, all of its bytes arbitrary */
#include "vp.h"
#include "lib/messages/msg.h"
#include "lib/stats/stats_message.h"
void vp_harness(void) {
	struct rrr_msg_stats_packed *p = malloc(sizeof(*p));
	p->type = vp_u8(); p->flags = vp_u32(); p->path_size = vp_u16();
	uint32_t size = (uint32_t) vp_range(0, 2000);
	uint16_t zero = (uint16_t) vp_range(0, sizeof(p->path_and_data) - 1);
	p->path_and_data[zero] = 0;
	struct rrr_msg_stats t;
	if (rrr_msg_stats_flip_and_unpack(&t, p, size) == 0) {
		VP_COVER("stats message accepted");
		VP_ASSERT(size >= 25 && size <= sizeof(*p), "size within range");
		VP_ASSERT(t.data_size <= sizeof(t.data), "stats data fits its buffer");
		uint32_t path_size = ((p->path_size & 0xff) << 8) | (p->path_size >> 8);
		VP_ASSERT(path_size + t.data_size == size - 25, "path and data fill the message");
		VP_ASSERT(path_size <= sizeof(t.path), "path fits its buffer");
	}
	free(p);
}
