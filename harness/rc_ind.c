/* C02: inductive contract of INPUT_getFrame over streams of any length, from any buffer state.
 * The input delivers 1..K arbitrary bytes per read and may fail at any point; the three loops
 * (per frame, per decoding attempt, per resynchronisation step) are cut by invariants relating the
 * code's state to the specification automaton; the remaining loops are unwound completely. */
#ifndef K
#define K 1
#endif
#if K == 1
#define VF_BYTEWISE
#else
#define VF_MEMCPY_LOOP
#endif
#define VERIF_CUT(id) VERIF_CUT_##id
#include "stubs.h"
#include "libc_models.h"
#include "core/openskytypes.h"
#include "core/filter.h"
#include "radarcape/rc-parser.h"
#include "radarcape/rc-input.h"
#include "rc_spec.h"

struct FILTER_Configuration FILTER_cfg;
static struct ghost G;
static bool failed;
static struct OPENSKY_RawFrame raw;
static struct OPENSKY_DecodedFrame dec;

static void cut_frame(void); static void cut_decode(void); static void cut_sync(void);
#define VERIF_CUT_rc_frame cut_frame()
#define VERIF_CUT_rc_decode cut_decode()
#define VERIF_CUT_rc_sync cut_sync()
static void cut_copy(uint8_t **dst, size_t *len, uint8_t **rawPtr);
#define VERIF_CUT_rc_copy cut_copy(&dst, &len, &rawPtr)
#include "gen_rc_parser.c"

void RC_INPUT_register() {}
void RC_INPUT_init() {}
void RC_INPUT_disconnect() {}
void RC_INPUT_connect() {}
size_t RC_INPUT_write(uint8_t *b, size_t l) { (void)b; return l; }
static void catchup(void);
static unsigned gpos;
size_t RC_INPUT_read(uint8_t *b, size_t len)
{
	CHECK(!failed, "input is not read again after it failed");
	CHECK(len >= K && b == buf, "room for input");
	bufCur = bufEnd;    /* what is left in the window is discarded: the automaton consumes it */
	catchup();
	CHECK(G.st != G_DONE, "no input is awaited once a frame is complete");
	if (ND_BOOL()) { failed = true; return 0; }
	unsigned n = ND_RANGE(1, K);
	for (unsigned i = 0; i < K; ++i)
		b[i] = ND_U8();
	gpos = 0;
	return n;
}

/* the automaton consumes exactly the bytes the code has consumed: it lags behind the reads */
/* gpos: bytes of the buffer the automaton has consumed */
static void catchup(void)
{
	for (unsigned i = 0; i < K; ++i)
		if (gpos < bufCur - buf) { CHECK(G.st != G_DONE, "nothing is consumed beyond the frame"); g_step(&G, buf[gpos]); ++gpos; }
	CHECK(gpos == bufCur - buf, "input is consumed in order");
}
static bool stats_eq(unsigned du) { return stats.outOfSync + du == G.oos && stats.frameTypeUnknown == G.unk; }
static bool is_type(uint8_t b) { return b >= '1' && b <= '4'; }
static bool inv_frame(void) { return G.st == G_START && stats_eq(0) && raw.raw[0] == 0x1a; }
static bool inv_decode(void)
{
	if (raw.raw[0] != 0x1a || !stats_eq(0)) return false;
	if (G.st == G_TYPE) return true;
	/* a byte other than SYNC was peeked, it is the type byte */
	if (bufCur == bufEnd || *bufCur == 0x1a) return false;
	return G.st == G_RESYNC1;
}
static bool inv_sync(void) { return raw.raw[0] == 0x1a && stats_eq(0) && G.st == G_RESYNC; }
static void havoc(void)
{
	for (unsigned i = 0; i < K; ++i) buf[i] = ND_U8();
	unsigned e = ND_RANGE(0, K), c = ND_RANGE(0, K);
	ASSUME(c <= e);
	bufCur = buf + c; bufEnd = buf + e; gpos = c;
	G.st = (enum gs)ND_RANGE(G_START, G_BODY); G.esc = ND_BOOL(); G.type = ND_U8(); G.need = ND_U8(); G.got = ND_U8(); G.nraw = ND_U8();
	G.oos = ND_U64(); G.unk = ND_U64();
	stats.outOfSync = ND_U64(); stats.frameTypeUnknown = ND_U64();
	G.bodyK = ND_U8(); G.rawK = ND_U8();
	for (unsigned i = 0; i < sizeof raw.raw; ++i) raw.raw[i] = ND_U8();
	raw.rawLen = ND_U64();
	dec.frameType = (enum OPENSKY_FRAME_TYPE)ND_U32(); dec.mlat = ND_U64(); dec.siglevel = ND_U8(); dec.payloadLen = ND_U64();
	for (int i = 0; i < 14; ++i) dec.payload[i] = ND_U8();
}
static bool wf_buf(void) { return bufCur >= buf && bufCur <= bufEnd && bufEnd <= buf + K; }
#define CUT(name) \
	static void cut_##name(void) { static bool visited; PRE_##name \
	catchup(); \
	CHECK(wf_buf(), "input window within the buffer (" #name ")"); \
	CHECK(inv_##name(), "loop invariant (" #name ")"); \
	if (visited) { GUARD_##name ASSUME(0); } \
	visited = true; havoc(); ASSUME(inv_##name()); }
#define PRE_frame
#define GUARD_frame     /* the code as it is never repeats this loop */
#define GUARD_decode REACH("invariant re-established (decode)");
#define GUARD_sync REACH("invariant re-established (sync)");
/* an unescaped SYNC inside a frame: the automaton learns it from the peeked byte */
#define PRE_decode catchup(); if (G.st == G_BODY && G.esc && bufCur != bufEnd && *bufCur != 0x1a) { ++G.oos; G.st = G_RESYNC1; }
#define PRE_sync
CUT(frame)
CUT(decode)
CUT(sync)

/* unescaping loop: entered once for the header (7 bytes) and once for the payload */
static void cut_copy(uint8_t **dst, size_t *len, uint8_t **rawPtr)
{
	static bool visited[2]; static uint8_t *base;
	catchup();
	bool ph = G.st == G_BODY && G.got >= 7;     /* payload phase */
	if (!visited[ph]) base = *dst;
	#define INV_COPY (stats_eq(0) && G.st == G_BODY && !G.esc && is_type(G.type) && \
		G.need == (G.type == '1' ? 9 : G.type == '2' ? 14 : 21) && (ph ? G.got >= 7 && G.got < G.need : G.got < 7) && \
		*len == (ph ? G.need : 7u) - G.got && *dst == base + (G.got - (ph ? 7 : 0)) && \
		dec.frameType == G.type && dec.payloadLen == G.need - 7u && raw.raw[0] == 0x1a && \
		raw.rawLen == G.nraw && G.nraw >= 2 + G.got && G.nraw <= 2 + 2 * G.got && *rawPtr == raw.raw + G.nraw && \
		(WR >= G.nraw || raw.raw[WR] == G.rawK))
	CHECK(wf_buf(), "input window within the buffer (copy)");
	CHECK(INV_COPY, "loop invariant (copy)");
	if (ph) CHECK(base == dec.payload, "payload is unescaped into the payload");
	unsigned rel = ph ? WB - 7 : WB;
	bool seen = WB < G.got && (!ph || WB >= 7);
	CHECK(!seen || base[rel] == G.bodyK, "loop invariant (copied content)");
	if (ph && WB < 6) CHECK((uint8_t)(dec.mlat >> (8 * (5 - WB))) == G.bodyK, "loop invariant (timestamp)");
	if (ph) CHECK(dec.mlat >> 48 == 0, "timestamp has 48 bits");
	if (ph && WB == 6) CHECK((uint8_t)dec.siglevel == G.bodyK, "loop invariant (level)");
	if (visited[ph]) { REACH("invariant re-established (copy)"); ASSUME(0); }
	visited[ph] = true;
	uint8_t type = G.type;      /* fixed during the loop */
	if (ph) { havoc(); ASSUME(WB != 6 || (uint8_t)dec.siglevel == G.bodyK);
		ASSUME(WB >= 6 || (uint8_t)(dec.mlat >> (8 * (5 - WB))) == G.bodyK); ASSUME(dec.mlat >> 48 == 0); }
	else { havoc(); for (int i = 0; i < 7; ++i) base[i] = ND_U8(); }
	ASSUME(G.type == type && G.st == G_BODY && is_type(G.type) && G.nraw <= 44 && G.got < 21);
	ASSUME(ph == (G.got >= 7));
	*rawPtr = raw.raw + G.nraw; *dst = base + (G.got - (ph ? 7 : 0)); *len = (ph ? G.need : 7u) - G.got;
	ASSUME(INV_COPY);
	seen = WB < G.got && (!ph || WB >= 7);
	ASSUME(!seen || base[rel] == G.bodyK);
}

int main(void)
{
	WB = ND_RANGE(0, 20); WR = ND_RANGE(0, 43);
	havoc();
	G.st = G_START;
	ASSUME(stats_eq(0));
	bool r = INPUT_getFrame(&raw, &dec);
	if (r) catchup();
	if (r) {
		CHECK(G.st == G_DONE, "a frame is handed on only when the stream contains a complete one");
		CHECK(wf_buf(), "input window within the buffer");
		CHECK(stats_eq(0), "statistics count every loss of synchronisation and unknown type");
		CHECK(!failed, "no frame after a failure");
		g_post(&G, &raw, &dec);
		if (G.type == '1') REACH("frame type 1");
		if (G.type == '3' && G.nraw == 44) REACH("longest frame");
	} else {
		CHECK(failed, "failure is reported only if the input failed");
		REACH("failure");
	}
	return 0;
}
