/* C14: position service. IND: any single public operation from any state related to the specification state.
 * Otherwise: STEPS operations from the initial state, through the public interface only. */
#include "stubs.h"
#include "core/gps.h"
#include "core/network.h"
#include "msg.h"
static struct { uint64_t p[3]; bool has, fix, owed; } A;   /* specification state */
static unsigned sends, expect; static bool rcs; static bool mustfail;
static int locked;
int vf_mutex_lock(pthread_mutex_t *m) { (void)m; CHECK(!locked, "lock is not taken twice"); locked = 1; return 0; }
int vf_mutex_unlock(pthread_mutex_t *m) { (void)m; CHECK(locked, "only a taken lock is released"); locked = 0; return 0; }
#if !defined(VF_CONC)
bool NET_send(const void *buf, size_t len)
{
	uint8_t body[24];
	for (int i = 0; i < 3; ++i) vf_be64(body + 8 * i, A.p[i]);
	CHECK(A.has && A.fix, "only a known position with a fix is reported");
	CHECK(vf_is_msg(buf, len, '7', body, 24), "one framed message with the current position as big-endian doubles");
	++sends;
	REACH("position sent");
	return rcs = ND_BOOL();
}
#endif
#include "core/gps.c"
static void op(void)
{
	sends = 0; rcs = false; vf_msg_begin();
	unsigned k = ND_RANGE(0, 5);
	uint64_t q[3]; for (int i = 0; i < 3; ++i) q[i] = vf_nd();
	if (k <= 1) { memcpy(A.p, q, sizeof q); A.has = true; if (k == 0) A.fix = true; }
	bool b = ND_BOOL(), due, r;
	switch (k) {
	case 0: GPS_setPositionWithFix(vf_dof(q[0]), vf_dof(q[1]), vf_dof(q[2])); break;
	case 1: GPS_setPosition(vf_dof(q[0]), vf_dof(q[1]), vf_dof(q[2])); break;
	case 2: A.fix = b; GPS_setHasFix(b); break;
	case 3: A.has = A.fix = A.owed = false; GPS_reset(); CHECK(sends == 0, "a reset reports nothing"); break;
	case 4: A.owed = false; GPS_resetNeedFlag(); CHECK(sends == 0, "nothing is reported"); break;
	case 5:
		due = A.has && A.fix;
		r = GPS_sendPosition();
		CHECK(sends == due, "a known position is reported exactly once when asked for");
		CHECK(r == (due ? rcs : true), "failure to send is told to the caller, otherwise success");
		if (!due) { A.owed = true; REACH("owed"); }
		break;
	}
	if (k <= 2) {
		due = A.owed && A.has && A.fix;
		CHECK(sends == due, "an owed position is reported as soon as it is known, and only then");
		if (due) A.owed = !rcs;
		if (due && !rcs) REACH("stays owed");
	}
	CHECK(!locked, "lock is released");
}
#ifdef IND
static bool inv(void)
{
	return needPosition == A.owed && hasPosition == A.has && hasFix == A.fix &&
		(!A.has || (vf_dbits(position.latitude) == A.p[0] && vf_dbits(position.longitute) == A.p[1] && vf_dbits(position.altitude) == A.p[2]));
}
int main(void)
{
	needPosition = A.owed; hasPosition = A.has; hasFix = A.fix;
	CHECK(inv(), "initial state");
	for (int i = 0; i < 3; ++i) A.p[i] = vf_nd();
	A.has = ND_BOOL(); A.fix = ND_BOOL(); A.owed = ND_BOOL();
	needPosition = A.owed; hasPosition = A.has; hasFix = A.fix;
	position.latitude = vf_dof(A.p[0]); position.longitute = vf_dof(A.p[1]); position.altitude = vf_dof(A.p[2]);
	op();
	CHECK(inv(), "state corresponds to the specification after every operation");
	return 0;
}
#else
int main(void)
{
	for (int i = 0; i < STEPS; ++i) op();
	return 0;
}
#endif
