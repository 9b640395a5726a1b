/* C11, C12: talkback. IND (CBMC): the packet loop is cut by an inductive invariant; ghost state: number of pending
 * bytes and the pending byte at an arbitrary index. Native search: whole streams in arbitrary segmentation. */
#include "stubs.h"
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"
#include "util/endec.h"
const struct Component NET_comp;
static bool reg[TB_PACKET_TYPE_N]; static size_t plen[TB_PACKET_TYPE_N];
static uint8_t S[256]; static size_t n;      /* pending bytes: received, not yet consumed */
static bool conn; static unsigned reads, conns;
struct ev { unsigned type; uint8_t p[124]; };
#ifdef CUTS
#define NEV 2
#else
#define NEV 40
#endif
static struct ev ev[NEV]; static unsigned evHead, evTail;
static unsigned W, WP;
#ifdef CUTS
static unsigned visits; static uint8_t SW;
#endif
/* effect of a filter command still to be seen */
static bool fAct, fSync, fExt, fReset, fSyncV, fExtV;
static void quiet(void)
{
	CHECK(!fSync && !fExt && !fReset, "a filter command changes all the settings its mask selects");
	fAct = false;
}
void FILTER_setSynchronizedFilter(bool v) { CHECK(fAct && fSync, "synchronisation filter is set only if selected, once"); CHECK(v == fSyncV, "synchronisation filter is set to the value sent"); fSync = false; }
void FILTER_setModeSExtSquitter(bool v) { CHECK(fAct && fExt, "squitter filter is set only if selected, once"); CHECK(v == fExtV, "squitter filter is set to the value sent"); fExt = false; REACH("squitter filter set"); }
void FILTER_reset() { CHECK(fAct && fReset, "synchronisation is reset only if asked for, once"); fReset = false; }
/* one step of the specification: takes one packet from the front of d (m bytes pending) */
enum sp { SP_WAIT, SP_BAD, SP_TAKE };
static enum sp spec_step(const uint8_t *d, size_t m, size_t *len)
{
	if (m < 4) return SP_WAIT;
	unsigned t = d[0] << 8 | d[1];
	*len = d[2] << 8 | d[3];
	if (*len < 4 || *len > 128) return SP_BAD;
	if (m < *len) return SP_WAIT;
	if (t < TB_PACKET_TYPE_N && reg[t] && plen[t] == *len - 4) {
		if (t == TB_PACKET_TYPE_FILTER) {
			quiet();
			fAct = true;
			fSync = d[4] & 1; fExt = d[4] & 2; fReset = d[4] & 0x80;
			fSyncV = d[5] & 1; fExtV = d[5] & 2;
		} else {
			UNDECIDED(evTail < NEV, "events");
			ev[evTail].type = t;
#ifdef CUTS
			ev[evTail].p[WP] = d[4 + WP];
#else
			for (unsigned i = 0; i < 124; ++i) ev[evTail].p[i] = d[4 + i];
#endif
			++evTail;
		}
	}
	return SP_TAKE;
}
static void on(unsigned type, const uint8_t *p)
{
	CHECK(evHead < evTail, "a processor is called only for a well-formed command for it");
	CHECK(ev[evHead].type == type, "commands are dispatched to the processor of their type, in order");
	CHECK(WP >= plen[type] || p[WP] == ev[evHead].p[WP], "exactly the payload is passed on");
	++evHead;
	REACH("dispatched");
}
#define P(k) static void p##k(const uint8_t *p) { on(k, p); }
P(0) P(1) P(2) P(3) P(5)
static void settled(void)
{
	CHECK(evHead == evTail, "every command received completely is dispatched before more is read");
	evHead = evTail = 0;
	quiet();
}
void NET_forceDisconnect() { CHECK(0, "talkback does not drop the connection"); }
void NET_waitConnected()
{
	CHECK(!conn, "waits for a connection only when the last one failed");
	settled();
	if (conns++ == NCONN) VF_HALT();
	conn = true; n = 0;
	if (conns == NCONN) REACH("connection");
}
#ifdef CUTS
static void inv(const uint8_t *buf, size_t len)
{
	CHECK(len == n, "pending bytes are kept");
	CHECK(W >= n || buf[W] == SW, "pending bytes are unchanged and in order");
}
static void cut(uint8_t *buf, size_t *len)
{
	settled();
	inv(buf, *len);
	if (visits++) { REACH("invariant re-established"); VF_HALT(); }
	__CPROVER_havoc_slice(buf, 128);
	memcpy(S, buf, 128);
	n = *len = ND_RANGE(4, 128);
	/* specification step */
	size_t l;
	switch (spec_step(S, n, &l)) {
	case SP_BAD: n = 0; REACH("malformed"); break;
	case SP_TAKE: SW = W + l < 128 ? S[W + l] : 0; n -= l; break;
	case SP_WAIT: SW = S[W]; REACH("incomplete"); break;
	}
}
#define VERIF_CUT(id) CUT_##id
#define CUT_tb_packet cut(buf, &bufLen)
ssize_t NET_receive(uint8_t *ptr, size_t len)
{
	settled();
	CHECK(conn, "reads only from a connection");
	CHECK(n < 128 && len >= 1 && len <= 128, "there is room to read into");
	static uint8_t *base;
	if (!base) base = ptr - n;
	CHECK(ptr == base + n, "reads behind the pending bytes");
	inv(base, n);
	if (reads++ == NREAD) { REACH("next read"); VF_HALT(); }
	if (ND_BOOL()) { conn = false; REACH("failure"); return 0; }
	/* the first read only leads to the cut, where the state becomes arbitrary; after a malformed packet the read
	 * into the empty buffer is the second one */
	size_t k = reads == 1 ? FIRST : ND_RANGE(1, 128);
	ASSUME(k <= len);
	__CPROVER_assert(__CPROVER_w_ok(ptr, len), "P: the receive buffer has the room announced");
	__CPROVER_havoc_slice(ptr, k);
	if (W >= n && W < n + k) SW = ptr[W - n];
	n += k;
	return k;
}
/* assumed contract of memmove, at the arbitrary index W */
static void *vf_move(uint8_t *d, const uint8_t *s, size_t k)
{
	__CPROVER_assert(__CPROVER_w_ok(d, k) && __CPROVER_r_ok(s, k), "P: memory is moved within the buffer");
	uint8_t keep = W < k ? s[W] : 0;
	__CPROVER_havoc_slice(d, k);
	if (W < k) d[W] = keep;
	return d;
}
#define memmove vf_move
#else
ssize_t NET_receive(uint8_t *ptr, size_t len)
{
	settled();
	CHECK(conn, "reads only from a connection");
	CHECK(len >= 1, "there is room to read into");
	if (reads++ == NREAD) VF_HALT();
	if (ND_RANGE(0, 15) == 0) { conn = false; return 0; }
	for (size_t i = 0; i < len; ++i) ptr[i] = 0xaa;      /* all of the room announced exists */
	size_t k = ND_BOOL() ? len : ND_RANGE(1, len), l;
	/* mostly well-formed packets */
	static uint8_t left[256]; static size_t nleft, off;
	for (size_t i = 0; i < k; ++i) {
		if (off == nleft) {
			unsigned t = ND_RANGE(0, 6);
			l = ND_RANGE(0, 3);
			l = l == 0 ? ND_RANGE(3, 130) : l == 1 ? 4 + ND_RANGE(0, 9) : 4 + (t < TB_PACKET_TYPE_N ? plen[t] : 0);
			left[0] = ND_RANGE(0, 40) == 0; left[1] = t; left[2] = ND_RANGE(0, 60) == 0; left[3] = l;
			nleft = l < 4 ? 4 : l; off = 0;
			for (size_t j = 4; j < nleft; ++j) left[j] = ND_U8();
		}
		S[n + i] = ptr[i] = left[off++];
	}
	n += k;
	while (true) {
		enum sp r = spec_step(S, n, &l);
		if (r == SP_WAIT) break;
		if (r == SP_BAD) { n = 0; off = nleft = 0; break; }
		n -= l;
		memmove(S, S + l, n);
		if (fAct) break;      /* effects of two filter commands in one read are not told apart here */
	}
	if (fAct) { static uint8_t dummy; (void)dummy; /* cut the read after the filter command */
		nleft = off = 0; memset(left, 0, sizeof left); size_t drop = n; n = 0; return k - drop; }
	return k;
}
#endif
#include "core/tb.c"
int main(void)
{
	TB_ProcessorFn f[] = { p0, p1, p2, p3, 0, p5 };
	W = ND_RANGE(0, 127); WP = ND_RANGE(0, 123);
	reg[TB_PACKET_TYPE_FILTER] = true; plen[TB_PACKET_TYPE_FILTER] = 2;
	for (unsigned i = 0; i < TB_PACKET_TYPE_N; ++i) if (i != TB_PACKET_TYPE_FILTER && ND_BOOL()) {
		reg[i] = true; plen[i] = ND_RANGE(0, 124);
		TB_register(i, plen[i], f[i]);
		if (ND_RANGE(0, 7) == 0) { TB_unregister(i); reg[i] = false; }
	}
	TB_register(ND_RANGE(TB_PACKET_TYPE_N, UINT32_MAX), 0, p0);
	TB_comp.main();
	return 0;
}
