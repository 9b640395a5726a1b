/* C02 through the public interface: connect, then two frame reads over an arbitrary stream of up to
 * SLEN bytes delivered in arbitrary chunks, after which the input fails. */
#define VF_MEMCPY_LOOP
#include "stubs.h"
#include "libc_models.h"
#include "core/openskytypes.h"
#include "core/filter.h"
#include "core/input.h"
#include "radarcape/rc-parser.h"
#include "radarcape/rc-input.h"
#include "rc_spec.h"
#ifndef SLEN
#define SLEN 12
#endif
#ifdef CHECK
#endif
struct FILTER_Configuration FILTER_cfg;
static uint8_t S[SLEN];
static unsigned slen, spos;
static unsigned connects;
static bool failed;
#include "gen_rc_parser.c"
void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_disconnect() {}
void RC_INPUT_connect() { ++connects; }
size_t RC_INPUT_write(uint8_t *b, size_t l) { (void)b; return l; }
size_t RC_INPUT_read(uint8_t *b, size_t len)
{
	CHECK(!failed, "input is not read again after it failed");
	if (spos == slen) { failed = true; return 0; }
	unsigned n = ND_RANGE(1, SLEN);
	ASSUME(n <= slen - spos && n <= len);
	for (unsigned i = 0; i < SLEN; ++i)
		if (i < n) b[i] = S[spos + i];
	spos += n;
	return n;
}
VF_BIAS(0x1a, 0x1a, '1', '2', '3', '4', '5', 0)
int main(void)
{
	struct ghost G = { 0 };
	struct OPENSKY_RawFrame raw; struct OPENSKY_DecodedFrame dec;
	slen = ND_RANGE(0, SLEN);
	for (unsigned i = 0; i < SLEN; ++i) S[i] = ND_U8();
	WB = ND_RANGE(0, 20); WR = ND_RANGE(0, 43);
	INPUT_connect();
	CHECK(connects == 1, "connected once");
	unsigned pos = 0;
	for (int f = 0; f < FRAMES; ++f) {
		bool r = INPUT_getFrame(&raw, &dec);
		G.st = G_START;
		for (unsigned i = 0; i < SLEN; ++i)
			if (pos < slen && G.st != G_DONE) { g_step(&G, S[pos]); ++pos; }
		CHECK(r == (G.st == G_DONE), "a frame is delivered exactly when the stream contains a complete one");
		struct RC_PARSER_Statistics st;
		RC_PARSER_getStatistics(&st);
		CHECK(st.outOfSync == G.oos && st.frameTypeUnknown == G.unk, "statistics count every loss of synchronisation and unknown type");
		if (!r) { CHECK(failed, "failure only if the input failed"); REACH("end of stream"); break; }
		g_post(&G, &raw, &dec);
		if (f == FRAMES - 1) REACH("frame decoded");
		if (G.oos) REACH("frame after resynchronisation");
	}
	return 0;
}
