/* C10: relay loop. The environment (network, buffer, login) is arbitrary within its contracts; the loop carries no
 * state but the frame it holds, which is compared at every point where it waits. */
#include "stubs.h"
#include "core/relay.h"
#include "core/buffer.h"
#include "core/network.h"
#include "core/login.h"
#include "core/openskytypes.h"
#include "util/cfgfile.h"
#include "cancel.h"
const struct Component NET_comp, BUF_comp;
enum cs { QUEUED, TAKEN, RELEASED, RETURNED };
static struct OPENSKY_RawFrame cell, copy;
static enum cs st = QUEUED;
static bool waiting, loggedIn, flushed, sentOk, sent, timeout, keepalive, broken, keepDue;
static unsigned takes, conns;
static uint32_t wantTimeout;
static unsigned W;      /* arbitrary byte of the frame */
static void idle(void)
{
	CHECK(st != TAKEN, "a frame taken from the buffer is settled before the next step");
	CHECK(!keepDue, "a timeout is answered by exactly one keep-alive");
}
/* the thread is stopped here: a frame in use is returned to the buffer */
static void mayCancel(void)
{
	if (!ND_BOOL()) return;
	REACH("cancelled");
	if (st == TAKEN) REACH("cancelled while sending");
	vf_cancel();
	CHECK(st != TAKEN, "stopped: a frame in use is returned");
	VF_HALT();
}
void NET_waitConnected()
{
	idle();
	CHECK(conns == 0 || broken, "waits for a new connection only after a failure");
	if (conns++ == NCONN) { REACH("next connection"); VF_HALT(); }
	mayCancel();
	loggedIn = flushed = broken = false;
}
void NET_forceDisconnect() { CHECK(0, "the relay does not drop a working connection"); }
bool LOGIN_login()
{
	CHECK(conns && !loggedIn && !broken, "one login per connection");
	mayCancel();
	loggedIn = ND_BOOL();
	broken = !loggedIn;
	if (broken) REACH("login failed");
	return loggedIn;
}
void BUF_flushUnlessHistoryEnabled() { CHECK(loggedIn && !flushed && takes >= 0, "flushed once, after login"); idle(); flushed = true; }
void BUF_flush() { CHECK(0, "the backlog is flushed only if history is disabled"); }
const struct OPENSKY_RawFrame *BUF_getFrame() { return BUF_getFrameTimeout(0); }
const struct OPENSKY_RawFrame *BUF_getFrameTimeout(uint_fast32_t ms)
{
	idle();
	CHECK(loggedIn && !broken, "frames are taken only when logged in");
	CHECK(flushed, "the outdated backlog is dealt with first");
	CHECK(ms == wantTimeout, "the configured timeout is used");
	if (takes++ == NTAKE) { REACH("next frame"); VF_HALT(); }
	sent = false;
	mayCancel();
	if (ND_BOOL()) { keepDue = true; REACH("timeout"); return NULL; }
	cell.rawLen = ND_RANGE(2, 46);
	for (unsigned i = 0; i < 46; ++i) cell.raw[i] = ND_U8();
	copy = cell;
	st = TAKEN;
	return &cell;
}
bool NET_send(const void *buf, size_t len)
{
	CHECK(loggedIn && !broken, "nothing is sent before login or after a failure");
	const uint8_t *b = buf;
	if (keepDue) {
		CHECK(len == 2 && b[0] == 0x1a && b[1] == '6', "keep-alive message");
		keepDue = false;
	} else {
		CHECK(st == TAKEN && !sent, "each frame is sent once");
		CHECK(len == copy.rawLen && (W >= len || b[W] == copy.raw[W]), "the frame is sent as buffered");
		sent = true;
	}
	sentOk = false;
	mayCancel();
	sentOk = ND_BOOL();
	broken = !sentOk;
	if (broken) REACH("send failed");
	return sentOk;
}
void BUF_releaseFrame(const struct OPENSKY_RawFrame *f)
{
	CHECK(f == &cell && st == TAKEN, "a taken frame is released");
	CHECK(sent && sentOk, "released only after it was sent completely");
	st = RELEASED;
	REACH("released");
}
void BUF_putFrame(const struct OPENSKY_RawFrame *f)
{
	CHECK(f == &cell && st == TAKEN, "a taken frame is returned");
	CHECK(!(sent && sentOk), "a delivered frame is not delivered again");
	st = RETURNED;
	REACH("returned");
}
#include "core/relay.c"
int main(void)
{
	W = ND_RANGE(0, 45);
	wantTimeout = ND_U32();
	cfgTimeout = wantTimeout;
	RELAY_comp.main();
	return 0;
}
