/* C03: inductive contract of TRIMBLE_PARSER_getFrame over streams of any length, from any window state,
 * any buffer size 2..MAXB. The input delivers 1..K arbitrary bytes per read and may fail at any point. */
#ifndef K
#define K 1
#endif
#define MAXB 1024
#if K == 1
#define VF_BYTEWISE
#else
#define VF_MEMCPY_LOOP
#endif
#define VERIF_CUT(id) VERIF_CUT_##id
#include "stubs.h"
#include "libc_models.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"
#include "tp_spec.h"
static struct tghost G;
static bool failed;
static uint8_t out[MAXB];
static unsigned gpos;
static void cut_frame(void); static void cut_decode(void); static void cut_sync(void);
static void cut_copy(uint8_t **dst, size_t *dstLen, uint8_t *dstStart);
#define VERIF_CUT_tp_frame cut_frame()
#define VERIF_CUT_tp_decode cut_decode()
#define VERIF_CUT_tp_sync cut_sync()
#define VERIF_CUT_tp_copy cut_copy(&dst, &dstLen, dstStart)
#include "gen_trimble_parser.c"

void TRIMBLE_INPUT_register() {}
void TRIMBLE_INPUT_init() {}
void TRIMBLE_INPUT_disconnect() {}
void TRIMBLE_INPUT_connect() {}
size_t TRIMBLE_INPUT_write(const uint8_t *b, size_t l) { (void)b; return l; }
static void catchup(void)
{
	for (unsigned i = 0; i < K; ++i)
		if (gpos < bufCur - buf) { CHECK(G.st != T_DONE, "nothing is consumed beyond the packet"); t_step(&G, buf[gpos]); ++gpos; }
	CHECK(gpos == bufCur - buf, "input is consumed in order");
}
size_t TRIMBLE_INPUT_read(uint8_t *b, size_t len)
{
	CHECK(!failed, "input is not read again after it failed");
	CHECK(len >= K && b == buf, "room for input");
	bufCur = bufEnd;    /* what is left in the window is discarded: the automaton consumes it */
	catchup();
	CHECK(G.st != T_DONE, "no input is awaited once a packet is complete");
	if (ND_BOOL()) { failed = true; return 0; }
	unsigned n = ND_RANGE(1, K);
	for (unsigned i = 0; i < K; ++i)
		b[i] = ND_U8();
	gpos = 0;
	return n;
}
static bool inv_frame(void) { return G.st == T_START; }
static bool inv_decode(void)
{
	if (G.st == T_TYPE) return true;
	/* the identifier was peeked: it is neither DLE nor ETX */
	return G.st == T_RESYNC1 && bufCur != bufEnd && *bufCur != DLE && *bufCur != ETX;
}
static bool inv_sync(void) { return G.st == T_RESYNC; }
static void havoc(void)
{
	for (unsigned i = 0; i < K; ++i) buf[i] = ND_U8();
	unsigned e = ND_RANGE(0, K), c = ND_RANGE(0, K);
	ASSUME(c <= e);
	bufCur = buf + c; bufEnd = buf + e; gpos = c;
	G.st = (enum ts)ND_RANGE(T_START, T_BODY); G.esc = ND_BOOL(); G.got = ND_U64(); G.kb = ND_U8();
	out[WB] = ND_U8(); out[0] = ND_U8();      /* the only cells the proof looks at */
}
static bool wf_buf(void) { return bufCur >= buf && bufCur <= bufEnd && bufEnd <= buf + K; }
#define CUT(name) \
	static void cut_##name(void) { static bool visited; PRE_##name \
	catchup(); \
	CHECK(wf_buf(), "input window within the buffer (" #name ")"); \
	CHECK(inv_##name(), "loop invariant (" #name ")"); \
	if (visited) { GUARD_##name ASSUME(0); } \
	visited = true; havoc(); ASSUME(inv_##name()); }
#define PRE_frame
#define GUARD_frame
/* a DLE inside a packet followed by another identifier: the automaton learns it from the peeked byte */
#define PRE_decode catchup(); if (G.st == T_BODY && G.esc && bufCur != bufEnd && *bufCur != DLE && *bufCur != ETX) G.st = T_RESYNC1;
#define GUARD_decode REACH("invariant re-established (decode)");
#define PRE_sync
#define GUARD_sync REACH("invariant re-established (sync)");
CUT(frame)
CUT(decode)
CUT(sync)
static void cut_copy(uint8_t **dst, size_t *dstLen, uint8_t *dstStart)
{
	static bool visited;
	catchup();
	#define INV_COPY (G.st == T_BODY && !G.esc && G.got >= 1 && G.got < G.cap && out[0] != DLE && out[0] != ETX && *dst == out + G.got && \
		*dstLen == G.cap - G.got && (WB >= G.got || out[WB] == G.kb))
	CHECK(wf_buf(), "input window within the buffer (copy)");
	CHECK(dstStart == out + 1, "content follows the identifier");
	CHECK(INV_COPY, "loop invariant (copy)");
	if (visited) { REACH("invariant re-established (copy)"); ASSUME(0); }
	visited = true;
	havoc();
	ASSUME(G.got < G.cap);
	*dst = out + G.got; *dstLen = G.cap - G.got;
	ASSUME(INV_COPY);
}
int main(void)
{
	WB = ND_RANGE(0, MAXB - 1); G.cap = ND_RANGE(2, MAXB);
	havoc();
	G.st = T_START;
	size_t n = TRIMBLE_PARSER_getFrame(out, G.cap);
	if (n) {
		catchup();
		CHECK(G.st == T_DONE, "a packet is handed on only when the stream contains a complete one");
		CHECK(wf_buf() && !failed, "input window within the buffer");
		CHECK(n == G.got && n <= G.cap, "the length is the number of content bytes");
		if (WB < n) CHECK(out[WB] == G.kb, "the content is the unescaped packet");
		CHECK(out[0] != DLE && out[0] != ETX, "the packet begins with an identifier");
		REACH("packet");
		if (n == 69) REACH("timing packet length");
	} else {
		CHECK(failed, "zero only if the input failed");
		REACH("failure");
	}
	return 0;
}
