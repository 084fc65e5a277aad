/* base64, base64url and hex: encode and decode are inverse, and the text is as in RFC4648 (base64 with line feeds) */
#include "vp.h"
#include "lib/allocator.h"
#include "lib/util/base64.h"
#include "lib/util/hex.h"
#ifndef NODEC
#define NODEC 0
#endif
static int six(uint8_t c, int url) {
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	if (c == (url ? '-' : '+')) return 62;
	if (c == (url ? '_' : '/')) return 63;
	return -1;
}
void vp_harness(void) {
	static uint8_t in[N + 1]; vp_bytes(in, N);
	rrr_biglength n = 0;
#if MODE == 0 || MODE == 1
	unsigned char *t = MODE == 0 ? rrr_base64_encode(in, N, &n) : rrr_base64url_encode(in, N, &n);
	VP_ASSERT(t != NULL && t[n] == 0, "text");
	rrr_biglength p = 0;
	for (int i = 0; i < N; i += 3) {
		int left = N - i < 3 ? N - i : 3;
		uint32_t w = (uint32_t) in[i] << 16 | (uint32_t) (left > 1 ? in[i + 1] : 0) << 8 | (left > 2 ? in[i + 2] : 0);
		for (int j = 0; j < 4; j++) {
			if (j <= left) VP_ASSERT(six(t[p++], MODE) == (int) (w >> (18 - 6 * j) & 63), "characters");
			else if (MODE == 0) VP_ASSERT(t[p++] == '=', "padding");
		}
		if (MODE == 0 && (i / 3 % 18 == 17 || i + 3 >= N)) VP_ASSERT(t[p++] == '\n', "line feed");
	}
	VP_ASSERT(p == n, "length");
	if (N > 0 && !NODEC) {
		rrr_biglength m = 99;
		/* decode, also without line feeds */
		for (int nolf = 0; nolf < 2; nolf++) {
			unsigned char *d = MODE == 0 ? rrr_base64_decode(t, n - (rrr_biglength) (nolf && MODE == 0), &m) : rrr_base64url_decode(t, n, &m);
			VP_ASSERT(d != NULL && m == N, "length after decode");
			for (int i = 0; i < N; i++) VP_ASSERT(d[i] == in[i], "same data");
			rrr_free(d);
		}
	}
	rrr_free(t);
#elif MODE == 2
	char *t = NULL;
	VP_ASSERT(rrr_hex_bin_to_hex(&t, &n, in, N) == 0 && n == 2 * N && t[n] == 0, "hex");
	for (int i = 0; i < 2 * N; i++) VP_ASSERT(t[i] == "0123456789abcdef"[i % 2 ? in[i / 2] & 15 : in[i / 2] >> 4], "digits");
	rrr_free(t);
#else
	/* any text: no access outside, and what is decoded is what the characters state */
	rrr_biglength m = 0;
	unsigned char *d = MODE == 3 ? rrr_base64_decode(in, N, &m) : rrr_base64url_decode(in, N, &m);
	int v[N + 1], c = 0, pad = 0, bad = 0;
	for (int i = 0; i < N; i++) {
		int x = six(in[i], MODE == 4);
		if (MODE == 3 && in[i] == '=') { pad++; v[c++] = 0; }
		else if (x >= 0) { if (pad) bad = 1; v[c++] = x; }
	}
	if (!bad) {
		int ok = c > 0 && (MODE == 3 ? c % 4 == 0 && pad <= 2 : c % 4 != 1);
		VP_ASSERT((d != NULL) == ok, "text of complete characters is decoded");
		if (d != NULL) {
			VP_ASSERT(m == (rrr_biglength) (c / 4 * 3 + (c % 4 ? c % 4 - 1 : 0) - pad), "length");
			for (int i = 0; i < 3 * N / 4; i++) {
				if ((rrr_biglength) i < m) {
					int a = i / 3 * 4 + i % 3;
					VP_ASSERT(d[i] == (uint8_t) (i % 3 == 0 ? v[a] << 2 | v[a + 1] >> 4 : i % 3 == 1 ? v[a] << 4 | v[a + 1] >> 2 : v[a] << 6 | v[a + 1]), "data");
				}
			}
		}
	}
	if (d) rrr_free(d);
#endif
	VP_COVER("done");
}
