/* C22: contracts of the number encoders/decoders, all values, all alignments */
#include "stubs.h"
#include "util/endec.h"

#define W 24
static uint8_t b0[W], b[W];
static uint64_t be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
static void frame(size_t off, size_t n)
{ for (size_t i = 0; i < W; ++i) if (i < off || i >= off + n) CHECK(b[i] == b0[i], "no byte outside the field is written"); }

int main(void)
{
	for (int i = 0; i < W; ++i) b[i] = b0[i] = ND_U8();
	size_t off = ND_RANGE(0, 15);      /* any alignment */
	uint8_t *p = b + off;
	switch (ND_RANGE(0, 9)) {
	case 0: CHECK(ENDEC_tou16(p) == be(p, 2), "u16 is the big-endian value"); frame(0, 0); REACH("u16"); break;
	case 1: CHECK(ENDEC_toi16(p) == (int16_t)be(p, 2), "i16 is the big-endian two's complement value"); frame(0, 0); REACH("i16"); break;
	case 2: CHECK(ENDEC_tou32(p) == be(p, 4), "u32 is the big-endian value"); frame(0, 0); REACH("u32"); break;
	case 3: CHECK(ENDEC_toi32(p) == (int32_t)be(p, 4), "i32 is the big-endian two's complement value"); frame(0, 0); REACH("i32"); break;
	case 4: CHECK(ENDEC_tou64(p) == be(p, 8), "u64 is the big-endian value"); frame(0, 0); REACH("u64"); break;
	case 5: { union { float f; uint32_t u; } c; c.f = ENDEC_tofloat(p);
		CHECK(c.u == be(p, 4), "float has exactly the big-endian bits"); REACH("float"); break; }
	case 6: { union { double d; uint64_t u; } c; c.d = ENDEC_todouble(p);
		CHECK(c.u == be(p, 8), "double has exactly the big-endian bits"); REACH("double"); break; }
	case 7: { uint32_t v = ND_U32(); ENDEC_fromu32(v, p);
		CHECK(be(p, 4) == v, "u32 is written big-endian"); frame(off, 4);
		CHECK(ENDEC_tou32(p) == v, "u32 round trip"); REACH("fromu32"); break; }
	case 8: { uint64_t v = ND_U64(); ENDEC_fromu64(v, p);
		CHECK(be(p, 8) == v, "u64 is written big-endian"); frame(off, 8);
		CHECK(ENDEC_tou64(p) == v, "u64 round trip"); REACH("fromu64"); break; }
	case 9: { union { double d; uint64_t u; } c, e; c.u = ND_U64(); ENDEC_fromdouble(c.d, p);
		CHECK(be(p, 8) == c.u, "double is written as its big-endian bits"); frame(off, 8);
		e.d = ENDEC_todouble(p); CHECK(e.u == c.u, "double round trip, bit for bit"); REACH("fromdouble"); break; }
	}
	return 0;
}
