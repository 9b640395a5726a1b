/* C09: receive loop. Every operation of the environment (input, filter, buffer) is arbitrary within its
 * contract. The loop carries no state but the frame it holds; at every read the specification state is compared,
 * so that the iterations explored (NREAD reads, with failures and reconnections at any of them) are the inductive step. */
#include "stubs.h"
#include "core/recv.h"
#include "core/input.h"
#include "core/buffer.h"
#include "core/filter.h"
#include "core/openskytypes.h"
#include "cancel.h"
const struct Component BUF_comp, INPUT_comp, FILTER_comp;
#define NC (NREAD + 2)
static struct OPENSKY_RawFrame cells[NC];
enum cs { FREE, HELD, COMMITTED, ABORTED };
static enum cs st[NC];
static unsigned ncells, reads;
static bool connected, resetDone, synced, havePass, pass, pending, failedRead;
static struct OPENSKY_RawFrame last;   /* the frame as received */
static struct OPENSKY_DecodedFrame dec;
static const struct OPENSKY_RawFrame *lastCell;
static unsigned commits;
static unsigned W;      /* arbitrary byte of the frame */
static bool mustSync, syncSet;
static unsigned idx(const struct OPENSKY_RawFrame *f)
{
	for (unsigned i = 0; i < NC; ++i) if (f == &cells[i]) return i;
	CHECK(0, "a frame storage of the buffer");
	VF_HALT(); return 0;
}
static unsigned held(void) { unsigned n = 0; for (unsigned i = 0; i < NC; ++i) n += st[i] == HELD; return n; }
/* the thread is stopped here: the frame storage in use is given back and the input is disconnected */
static void mayCancel(void)
{
	if (!ND_BOOL()) return;
	REACH("cancelled");
	vf_cancel();
	CHECK(held() == 0, "stopped: the frame storage in use is given back");
	CHECK(!connected, "stopped: the input is disconnected");
	VF_HALT();
}
/* the previous frame is settled: judged once; committed exactly if it passed */
static void settled(void)
{
	if (!pending) return;
	CHECK(havePass, "every received frame is judged by the filter");
	CHECK(commits == (pass ? 1 : 0), "exactly the passing frames are committed");
	pending = false;
}
void INPUT_connect() { CHECK(!connected, "connected only when not connected"); CHECK(held() == 0, "no frame storage is lost over a reconnection"); settled(); mayCancel(); connected = true; resetDone = false; synced = false; }
void INPUT_disconnect() { CHECK(connected && (failedRead || vf_cancelled), "disconnected exactly when the input failed"); connected = false; failedRead = false; REACH("disconnect"); }
void INPUT_reconfigure() {}
void FILTER_reset() { CHECK(connected, "synchronisation state is cleared on the new connection"); resetDone = true; synced = false; }
void FILTER_setSynchronized(bool s)
{
	CHECK(s && pending && mustSync, "only a status frame with a timestamp marks the receiver synchronised");
	syncSet = true;
}
bool FILTER_filter(enum OPENSKY_FRAME_TYPE t, uint8_t b)
{
	CHECK(pending && !havePass, "each received frame is judged once");
	CHECK(t == dec.frameType && b == dec.payload[0], "the received frame is judged");
	CHECK(!mustSync || syncSet, "a status frame takes effect before any frame is judged");
	havePass = true;
	return pass = ND_BOOL();
}
struct OPENSKY_RawFrame *BUF_newFrame()
{
	CHECK(held() == 0, "one frame storage at a time");
	UNDECIDED(ncells < NC, "model storage");
	st[ncells] = HELD;
	return &cells[ncells++];
}
void BUF_commitFrame(struct OPENSKY_RawFrame *f)
{
	unsigned i = idx(f);
	CHECK(st[i] == HELD, "only a held frame is committed");
	CHECK(pending && havePass && pass && commits == 0, "only a frame that passed is committed, once");
	CHECK(f == lastCell && f->rawLen == last.rawLen && f->raw[W] == last.raw[W], "the frame is committed as received");
	st[i] = COMMITTED; ++commits;
	REACH("commit");
}
void BUF_abortFrame(struct OPENSKY_RawFrame *f)
{
	unsigned i = idx(f);
	CHECK(st[i] == HELD, "only a held frame is given back");
	CHECK(!(pending && havePass && pass), "a frame that passed is not thrown away");
	st[i] = ABORTED;
}
bool INPUT_getFrame(struct OPENSKY_RawFrame *raw, struct OPENSKY_DecodedFrame *d)
{
	settled();
	CHECK(connected && resetDone && !failedRead, "frames are read from a connected input with cleared synchronisation state");
	CHECK(held() == 1 && st[idx(raw)] == HELD, "a frame is received into the held frame storage");
	if (reads++ == NREAD) { REACH("next read"); VF_HALT(); }
	mayCancel();
	if (ND_BOOL()) { failedRead = true; raw->rawLen = ND_U64(); REACH("input failure"); return false; }
	last.rawLen = ND_U64();
	last.raw[W] = ND_U8();
	raw->rawLen = last.rawLen; raw->raw[W] = last.raw[W];
	lastCell = raw;
	dec.frameType = ND_RANGE('1', '4'); dec.mlat = vf_nd(); dec.payload[0] = ND_U8(); dec.siglevel = ND_U8(); dec.payloadLen = ND_U64();
	*d = dec;
	pending = true; havePass = false; commits = 0; syncSet = false;
	mustSync = dec.frameType == OPENSKY_FRAME_TYPE_STATUS && dec.mlat != 0;
	if (mustSync) REACH("status frame");
	return true;
}
#include "core/recv.c"
int main(void)
{
	W = ND_RANGE(0, sizeof last.raw - 1);
	RECV_comp.main();
	return 0;
}
