/* The checksum itself. MODE 1: affine over xor (so whether an error is detected does not depend on the message); MODE 2: every burst
 * of up to 32 bits and every error of one or two bits changes it (decided on the all-zero message); MODE 3: standard check value */
#include "vp.h"
#include "lib/util/crc32.h"
#ifndef N
#define N 2
#endif
void vp_harness(void) {
	char a[N + 1], b[N + 1], c[N + 1], z[N + 1];
	memset(z, 0, sizeof(z));
#if MODE == 1
	vp_bytes(a, N); vp_bytes(b, N);
	for (int i = 0; i < N; i++) c[i] = a[i] ^ b[i];
	VP_ASSERT((rrr_crc32buf(a, N) ^ rrr_crc32buf(b, N)) == (rrr_crc32buf(c, N) ^ rrr_crc32buf(z, N)), "checksum is affine");
#elif MODE == 2
	memset(a, 0, sizeof(a));
	uint32_t burst = vp_u32(); VP_ASSUME(burst != 0);
	uint32_t first = (uint32_t) vp_range(0, N - 1);
	uint32_t shift = (uint32_t) vp_range(0, 7);
	uint64_t e = (uint64_t) burst << shift;
	for (uint32_t i = 0; i < N; i++) {
		if (i >= first && i < first + 5) a[i] = (char) (e >> ((i - first) * 8));
	}
	for (uint32_t i = 0; i < 5; i++) if (first + i >= N) VP_ASSUME(((e >> (i * 8)) & 0xff) == 0);
	VP_ASSERT(rrr_crc32buf(a, N) != rrr_crc32buf(z, N), "burst of up to 32 bits changes the checksum");
#elif MODE == 4
	memset(a, 0, sizeof(a));
	uint32_t p1 = (uint32_t) vp_range(0, N * 8 - 1), p2 = (uint32_t) vp_range(0, N * 8 - 1);
	VP_ASSUME(p1 < p2);
	for (uint32_t i = 0; i < N; i++) {
		if (i == p1 / 8) a[i] = (char) (a[i] ^ (1 << (p1 % 8)));
		if (i == p2 / 8) a[i] = (char) (a[i] ^ (1 << (p2 % 8)));
	}
	VP_ASSERT(rrr_crc32buf(a, N) != rrr_crc32buf(z, N), "two bit error changes the checksum");
#else
	uint8_t one = (uint8_t) vp_range('1', '1');
	char s[10] = "123456789"; s[0] = (char) one;
	VP_ASSERT(rrr_crc32buf(s, 9) == 0xCBF43926u, "CRC-32 check value");
	uint32_t x = vp_u32();
	vp_bytes(a, N);
	VP_ASSERT((rrr_crc32cmp(a, N, x) == 0) == (rrr_crc32buf(a, N) == x), "comparison accepts exactly the right checksum");
#endif
	VP_COVER("checksum computed");
}
