/* Identifiers from the incrementer: all values of all parameters which pass verification */
#include "vp.h"
#include "lib/util/increment.h"
static uint8_t bits(uint64_t n) { uint8_t b = 0; while (n) { b++; n >>= 1; } return b; }
void vp_harness(void) {
	uint64_t step = vp_u64(), min = vp_u64(), max = vp_u64(), pos = vp_u64(), prefix = vp_u64();
#if PART == 0
	/* exactly the usable parameters are accepted */
	int ok = step >= 1 && step <= 255 && min <= max && max <= 0xffffffff && pos < step && max - min + 1 >= step && bits(prefix) + bits(max) <= 64;
	int r = rrr_increment_verify(step, min, max, pos, prefix);
	VP_ASSERT((r == 0) == ok, "usable parameters are accepted and others are not");
	VP_COVER("done");
#elif PART == 1
	/* no concurrent users: next value */
	VP_ASSUME(rrr_increment_verify(step, min, max, 0, 0) == 0);
	uint32_t value = vp_u32();
	uint32_t n = rrr_increment_basic(value, (uint32_t) step, (uint32_t) min, (uint32_t) max);
	VP_ASSERT(n >= min && n <= max, "within range");
	uint64_t want = (uint64_t) value + step;
	VP_ASSERT(n == (want < min || want > max ? min : want), "next value, or the first at the end of the range");
	VP_COVER("done");
#elif PART == 2
	/* one of several users of the same range */
	VP_ASSUME(rrr_increment_verify(step, min, max, pos, 0) == 0);
#ifdef MOD
	VP_ASSUME(step == MOD);
	step = MOD;
#ifdef TOP
	VP_ASSUME(max <= TOP);
#endif
#endif
	uint32_t value = vp_u32();
	uint32_t n = rrr_increment_mod(value, (uint8_t) step, (uint32_t) min, (uint32_t) max, (uint8_t) pos);
	VP_ASSERT(n >= min && n <= max, "within range");
	VP_ASSERT(n % step == pos, "identifiers of other users are not used");
	if (value >= min && value <= max && value % step == pos) {
		if (value + step <= max) VP_ASSERT(n == value + step, "no identifier is skipped");
		else VP_ASSERT(n < min + step, "starts again from the first");
	}
	VP_COVER("done");
#else
	VP_ASSUME(rrr_increment_verify(step, min, max, pos, prefix) == 0);
	uint32_t value = vp_u32();
	VP_ASSUME(value <= max);
	uint64_t v = rrr_increment_apply_prefix(value, (uint32_t) max, prefix), p = 0;
	VP_ASSERT(v >> bits(max) == prefix && (bits(max) == 0 || (v & (~(uint64_t) 0 >> (64 - bits(max)))) == value), "prefix and value are both in the identifier");
	VP_ASSERT(rrr_increment_verify_value_prefix(v, (uint32_t) max, prefix) == 0, "prefix is recognized");
	VP_ASSERT(rrr_increment_strip_prefix(&p, v, (uint32_t) max) == value && p == prefix, "prefix and value are found again");
	uint64_t other = vp_u64();
	VP_ASSERT((rrr_increment_verify_value_prefix(other, (uint32_t) max, prefix) == 0) == (other >> bits(max) == prefix), "other prefixes are not recognized");
	uint64_t m = rrr_increment_bits_to_max((uint8_t) bits(max));
	VP_ASSERT(max <= m && (m >> 1 < max || max == 0), "largest value of the bits");
	VP_COVER("done");
#endif
}
