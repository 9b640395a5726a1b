/* C15, C16: server connection. Deductive part: resource invariant INV over the state protected by the lock, assumed
 * whenever the lock is taken and proved whenever it is released; each thread relies on the others not touching the
 * socket it uses (rely) and itself leaves theirs alone (guarantee). Native search: all threads, random schedules. */
#define VF_OWN_SOCKETS
#include "stubs.h"
#include "core/network.h"
#include "util/net_common.h"
#include "util/cfgfile.h"
#include "util/port/socket.h"
#define NFD 4
#define FD0 10
static bool isOpen[64], isShut[64];
static bool fd_ok(int fd) { return fd >= FD0 && fd < FD0 + NFD && isOpen[fd - FD0]; }
static bool fd_none(int fd) { return fd == -1; }
int vf_shutdown(int fd, int how); int vf_close(int fd); ssize_t vf_send(int, const void *, size_t, int); ssize_t vf_recv(int, void *, size_t, int);
unsigned vf_sleep(unsigned s); time_t vf_time(time_t *t);
#define shutdown vf_shutdown
#define close vf_close
#define send vf_send
#define recv vf_recv
#define sleep vf_sleep
#define time vf_time
static time_t now; static unsigned attempts;
time_t vf_time(time_t *t) { if (t) *t = now; return now; }
#ifndef VERIF_NATIVE
#define VERIF_CUT(id) CUT_##id
static const char *cutBuf; static size_t cutLen, done; static unsigned cutN;
static void cut_send(const char **ptr)
{
	CHECK(*ptr == cutBuf + done, "sending continues behind the bytes accepted");
	if (cutN++) { REACH("loop invariant re-established (send)"); VF_HALT(); }
	done = vf_nd();
	ASSUME(done < cutLen);
	*ptr = cutBuf + done;
}
#define CUT_net_send cut_send(&ptr)
#endif
#include "core/network.c"
#undef time
#undef send
#undef recv
#ifndef VERIF_NATIVE
static bool inv(void)
{
	unsigned n = 0; int r = recvsock, s = sendsock;
	for (int i = 0; i < NFD; ++i) n += isOpen[i];
	if (connState == CONN_STATE_CONNECTED) switch (transState) {
	case TRANSIT_NONE: return n == 1 && r == s && fd_ok(r) && !isShut[r - FD0];
	case TRANSIT_SEND: return n == 2 && r != s && fd_ok(r) && fd_ok(s) && !isShut[r - FD0] && isShut[s - FD0];
	case TRANSIT_RECV: return n == 2 && r != s && fd_ok(r) && fd_ok(s) && !isShut[s - FD0] && isShut[r - FD0];
	default: return false;
	}
	if (connState == CONN_STATE_DISCONNECTED) switch (transState) {
	case TRANSIT_NONE: return n == 0 && fd_none(r) && fd_none(s);
	case TRANSIT_SEND: return n == 1 && fd_none(r) && fd_ok(s) && isShut[s - FD0];
	case TRANSIT_RECV: return n == 1 && fd_none(s) && fd_ok(r) && isShut[r - FD0];
	default: return false;
	}
	return connState == CONN_STATE_SHUTDOWN && n == 0 && fd_none(r) && fd_none(s);
}
enum role { R_SEND, R_RECV, R_MAIN, R_USER };
static enum role role; static bool locked, sendLocked, stopping;
static bool changed; static unsigned waits; static bool wasConnected;
static uint64_t sentBytes, recvBytes, bytes0; static bool emitted;
/* state when the lock was taken */
static enum CONN_STATE c0; static enum TRANSIT_STATE t0; static int r0, s0; static uint64_t on0; static time_t since0;
static void havoc(void)
{
	connState = (enum CONN_STATE)ND_RANGE(CONN_STATE_DISCONNECTED, CONN_STATE_SHUTDOWN);
	transState = (enum TRANSIT_STATE)ND_RANGE(TRANSIT_NONE, TRANSIT_RECV);
	recvsock = (int)vf_nd(); sendsock = (int)vf_nd();
	for (int i = 0; i < NFD; ++i) { isOpen[i] = ND_BOOL(); isShut[i] = ND_BOOL(); }
	onlineSince = vf_nd(); now = vf_nd();
	ASSUME(onlineSince >= 0 && onlineSince <= now && now < ((time_t)1 << 40));
	ASSUME(inv());
}
/* any number of steps of the other threads */
static void others(void)
{
	int r = recvsock, s = sendsock; bool ro = fd_ok(r), so = fd_ok(s);
	enum CONN_STATE c = connState;
	havoc();
	if (role == R_SEND) ASSUME(so ? sendsock == s : fd_none(sendsock) || fd_ok(sendsock));
	if (role == R_RECV) ASSUME(ro ? recvsock == r : fd_none(recvsock) || fd_ok(recvsock));
	ASSUME(connState != CONN_STATE_SHUTDOWN || !so && !ro || role == R_USER);   /* stopped only after its users */
	if (role == R_MAIN) ASSUME(connState != CONN_STATE_SHUTDOWN && (connState == c || c == CONN_STATE_CONNECTED));
}
static void taken(void) { c0 = connState; t0 = transState; r0 = recvsock; s0 = sendsock; on0 = stats.onlineSecs; since0 = onlineSince; changed = false; }
static void given(void)
{
	CHECK(inv(), "sockets correspond to the connection state, none is leaked, none is used twice");
	CHECK(connState == c0 || changed, "waiting threads are told of a changed connection state");
	bool so = s0 >= FD0, ro = r0 >= FD0;
	if (role == R_SEND || role == R_USER) CHECK(recvsock == r0 && (!ro || fd_ok(r0)), "a sender leaves the socket of the receiver alone");
	if (role == R_RECV || role == R_USER) CHECK(sendsock == s0 && (!so || fd_ok(s0)), "the receiver leaves the socket of the sender alone");
	if (role == R_MAIN && !stopping) CHECK((so ? sendsock == s0 && fd_ok(s0) : true) && (ro ? recvsock == r0 && fd_ok(r0) : true), "connecting leaves sockets in use alone");
	if (c0 == CONN_STATE_CONNECTED && connState == CONN_STATE_DISCONNECTED) { CHECK(stats.onlineSecs == on0 + (uint64_t)(now - since0), "online time is accounted at the disconnect"); REACH("disconnect"); }
	if (!stopping) CHECK(stats.onlineSecs == on0 || c0 == CONN_STATE_CONNECTED && connState == CONN_STATE_DISCONNECTED, "online time is accounted only at a disconnect");
}
int vf_mutex_lock(pthread_mutex_t *m)
{
	if (m == &sendMutex) { CHECK(!sendLocked && !locked, "lock order"); sendLocked = true; return 0; }
	CHECK(m == &mutex && !locked, "a lock is not taken twice");
	locked = true;
	others(); taken();
	emitted = true;
	return 0;
}
int vf_mutex_unlock(pthread_mutex_t *m)
{
	if (m == &sendMutex) { CHECK(sendLocked, "only a taken lock is released"); sendLocked = false; return 0; }
	CHECK(m == &mutex && locked, "only a taken lock is released");
	given();
	wasConnected = connState == CONN_STATE_CONNECTED;
	locked = false;
	others();
	return 0;
}
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	CHECK(c == &cond && m == &mutex && locked, "waits with the lock held");
	given();
	if (role == R_MAIN) {
		CHECK(connState == CONN_STATE_CONNECTED, "waits for a failure only when connected");
		if (waits == 0) CHECK(stats.connectionAttempts == attempts, "every connection attempt is counted");
	}
	if (waits++ == 2) { REACH("waiting again"); VF_HALT(); }
	uint64_t a = stats.connectionAttempts, d = stats.disconnects;
	others(); taken();
	return 0;
}
int vf_cond_broadcast(pthread_cond_t *c) { CHECK(c == &cond, "the condition"); changed = true; return 0; }
int vf_cond_signal(pthread_cond_t *c) { return 0; }
int vf_shutdown(int fd, int how) { CHECK(fd_ok(fd), "only an open socket is shut down"); if (how == SHUT_RDWR && fd_ok(fd)) isShut[fd - FD0] = true; return 0; }
int vf_close(int fd) { CHECK(fd_ok(fd), "each socket is closed once"); if (fd_ok(fd)) isOpen[fd - FD0] = false; REACH("closed"); return 0; }
unsigned vf_sleep(unsigned s) { CHECK(s <= 60, "retries within reasonable time"); return 0; }
int NETC_connect(const char *p, const char *h, uint16_t port)
{
	CHECK(role == R_MAIN && connState == CONN_STATE_DISCONNECTED, "connects only when disconnected");
	CHECK(h == cfgHost && port == cfgPort, "connects to the configured server");
	unsigned n = 0;
	for (int i = 0; i < NFD; ++i) { n += isOpen[i]; CHECK(!isOpen[i] || isShut[i], "the old connection is shut down before a new one is made"); }
	CHECK(n <= 1, "at most one socket of an old connection is left");
	if (attempts++ == 2) { REACH("retry"); VF_HALT(); }
	if (ND_BOOL()) return -1;
	int fd = (int)ND_RANGE(0, NFD - 1);
	ASSUME(!isOpen[fd]);
	isOpen[fd] = true; isShut[fd] = false;
	return FD0 + fd;
}
static const uint8_t *data; static size_t total; static bool failed;
ssize_t vf_send(int fd, const void *p, size_t len, int flags)
{
	CHECK(sendLocked, "sending is exclusive");
	CHECK(fd_none(fd) || fd_ok(fd) && fd == sendsock, "nothing is sent to a closed socket");
	CHECK(p == cutBuf + done && len >= 1 && len <= total - done, "exactly the bytes not yet accepted are offered");
	CHECK(flags & MSG_NOSIGNAL, "a lost connection does not kill the daemon");
	CHECK(!failed, "nothing is sent after a failure");
	ssize_t rc = (ssize_t)vf_nd();
	ASSUME(rc >= -1 && (rc <= 0 || (size_t)rc <= len));
	if (fd_none(fd) || isShut[fd - FD0]) ASSUME(rc < 0);
	others();
	if (rc <= 0) failed = true; else done += rc;
	emitted = false;
	return rc;
}
ssize_t vf_recv(int fd, void *p, size_t len, int flags)
{
	CHECK(fd_none(fd) || fd_ok(fd) && fd == recvsock, "nothing is read from a closed socket");
	CHECK(p == data && len == total, "received into the buffer given");
	ssize_t rc = (ssize_t)vf_nd();
	ASSUME(rc >= -1 && (rc <= 0 || (size_t)rc <= len));
	if (fd_none(fd)) ASSUME(rc < 0);
	others();
	if (rc > 0) recvBytes = rc;
	failed = rc <= 0; emitted = false;
	if (waits++ == 2) { REACH("receiving again"); VF_HALT(); }
	return rc;
}
int main(void)
{
	uint8_t *store;
	ssize_t rc; bool b; struct NET_Statistics st;
	CHECK(fd_none(recvsock) && fd_none(sendsock) && inv(), "initially there is no connection");
	role = (enum role)ND_RANGE(R_SEND, R_USER);
	havoc();
	stats.bytesSent = ND_U64(); stats.bytesReceived = ND_U64(); stats.onlineSecs = ND_U64();
	total = cutLen = ND_RANGE(1, (uint64_t)1 << 40);
	store = malloc(total);
	data = store; cutBuf = (const char *)store;
	cfgPort = ND_U16();
	bytes0 = role == R_RECV ? stats.bytesReceived : stats.bytesSent;
	switch (role) {
	case R_SEND:
		ASSUME(connState != CONN_STATE_SHUTDOWN);
		switch (ND_RANGE(0, 2)) {
		case 0:
			b = NET_send(data, total);
			CHECK(b == (!failed && done == total), "success is reported exactly if all bytes were accepted");
			CHECK(stats.bytesSent == bytes0 + (b ? total : 0), "exactly the bytes of completed transfers are counted");
			CHECK(b || emitted, "a failed transfer drops the connection");
			if (b) REACH("sent"); else REACH("not sent");
			break;
		case 1: NET_forceDisconnect(); b = false; break;
		case 2:
			b = NET_checkConnected();
			if (b) CHECK(wasConnected && t0 != TRANSIT_SEND, "a lost connection is noticed"); else REACH("lost");
			break;
		}
		CHECK(!locked && !sendLocked, "locks are released");
		break;
	case R_RECV:
		ASSUME(connState != CONN_STATE_SHUTDOWN);
		rc = NET_receive(store, total);
		CHECK(rc >= 0, "a result");
		CHECK(failed == (rc <= 0) && (failed || (uint64_t)rc == recvBytes), "exactly the bytes delivered are returned");
		CHECK(!failed || emitted && !wasConnected, "a failed transfer drops the connection");
		CHECK(stats.bytesReceived == bytes0 + (rc > 0 ? rc : 0), "exactly the bytes of completed transfers are counted");
		CHECK(!locked && !sendLocked, "locks are released");
		if (rc) REACH("received"); else REACH("nothing received");
		break;
	case R_MAIN:
		ASSUME(connState != CONN_STATE_CONNECTED && (connState != CONN_STATE_SHUTDOWN || transState == TRANSIT_NONE));
		ASSUME(fd_none(recvsock) && fd_none(sendsock));
		/* started: the first iteration; then from any state in which it waits */
		memset(&stats, 0, sizeof stats);
		NET_comp.main();
		break;
	case R_USER:
		switch (ND_RANGE(0, 2)) {
		case 0: NET_waitConnected(); CHECK(wasConnected, "returns only when connected"); break;
		case 1:
			b = connState == CONN_STATE_CONNECTED;
			NET_getStatistics(&st);
			CHECK(st.isOnline == b && st.bytesSent == stats.bytesSent && st.bytesReceived == stats.bytesReceived, "the online state is reported");
			CHECK(st.onlineSecs == stats.onlineSecs + (b ? (uint64_t)(now - onlineSince) : 0), "the online time is reported");
			break;
		case 2:
			/* stopped while connected, waiting or connecting; all users are stopped */
			locked = true; role = R_MAIN; stopping = true;
			ASSUME(connState != CONN_STATE_SHUTDOWN);
			taken();
			changed = true;
			cleanupMain();
			break;
		}
		CHECK(!locked && !sendLocked, "locks are released");
		break;
	}
	return 0;
}
#else
#include "coro.h"
static int nfd; static unsigned live;
int vf_mutex_lock(pthread_mutex_t *m) { coro_lock(m); return 0; }
int vf_mutex_unlock(pthread_mutex_t *m) { coro_unlock(m); return 0; }
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { coro_wait(c, m); return 0; }
int vf_cond_broadcast(pthread_cond_t *c) { coro_signal(c, true); return 0; }
int vf_cond_signal(pthread_cond_t *c) { coro_signal(c, false); return 0; }
static bool peerGone[64];
static unsigned opens(bool liveOnly) { unsigned n = 0; for (int i = 0; i < nfd; ++i) n += isOpen[i] && !(liveOnly && isShut[i]); return n; }
int vf_shutdown(int fd, int how) { coro_yield(); if (fd >= FD0) { CHECK(isOpen[fd - FD0], "only an open socket is shut down"); if (how == SHUT_RDWR) isShut[fd - FD0] = true; } return 0; }
int vf_close(int fd) { coro_yield(); CHECK(fd >= FD0 && isOpen[fd - FD0], "each socket is closed once"); isOpen[fd - FD0] = false; return 0; }
unsigned vf_sleep(unsigned s) { coro_yield(); return 0; }
static bool broken;
int NETC_connect(const char *p, const char *h, uint16_t port)
{
	++attempts;
	coro_yield();
	CHECK(opens(true) == 0, "the old connection is shut down before a new one is made");
	CHECK(opens(false) <= 1, "at most one socket of an old connection is left");
	if (vf_nd() % 4 == 0 || nfd >= 50) return -1;
	isOpen[nfd] = true;
	return FD0 + nfd++;
}
static bool gone(int fd) { coro_yield(); if (vf_nd() % 8 == 0) peerGone[fd - FD0] = true; return isShut[fd - FD0] || peerGone[fd - FD0]; }
static uint8_t msg[2][32]; static size_t msgLen[2], acc[2]; static bool inMsg[2];
static uint64_t okBytes, rcvd; static int sending = -1;
ssize_t vf_send(int fd, const void *p, size_t len, int flags)
{
	CHECK(flags & MSG_NOSIGNAL, "a lost connection does not kill the daemon");
	int w = -1;
	for (int i = 0; i < 2; ++i) if ((uint8_t *)p >= msg[i] && (uint8_t *)p < msg[i] + 32) w = i;
	CHECK(w >= 0 && inMsg[w], "only the message is sent");
	CHECK((uint8_t *)p == msg[w] + acc[w] && len >= 1 && len <= msgLen[w] - acc[w], "exactly the bytes not yet accepted are offered");
	CHECK(sending == -1, "sending is exclusive");
	if (fd < FD0) { coro_yield(); return -1; }
	CHECK(isOpen[fd - FD0], "nothing is sent to a closed socket");
	sending = w;
	bool g = gone(fd);
	sending = -1;
	CHECK(isOpen[fd - FD0], "a socket is not closed while it is used");
	if (g) return -1;
	ssize_t k = 1 + vf_nd() % len;
	acc[w] += k;
	return k;
}
ssize_t vf_recv(int fd, void *p, size_t len, int flags)
{
	if (fd < FD0) { coro_yield(); return -1; }
	CHECK(isOpen[fd - FD0], "nothing is read from a closed socket");
	bool g = gone(fd);
	CHECK(isOpen[fd - FD0], "a socket is not closed while it is used");
	if (g) return -(ssize_t)(vf_nd() & 1);
	ssize_t k = 1 + vf_nd() % len;
	rcvd += k;
	return k;
}
static bool once;
static void sendOne(int w)
{
	msgLen[w] = 1 + vf_nd() % 32; acc[w] = 0; inMsg[w] = true;
	bool b = NET_send(msg[w], msgLen[w]);
	inMsg[w] = false;
	CHECK(b == (acc[w] == msgLen[w]), "success is reported exactly if all bytes were accepted");
	if (b) okBytes += msgLen[w];
}
static void sender(void) { while (1) { NET_waitConnected(); once = true; for (int i = 0; i < 3; ++i) {
	unsigned long k = vf_nd() % 16;
	sendOne(0);
	} } }
static void second(void) { while (1) { coro_yield(); if (once) sendOne(1); } }
static void receiver(void) { while (1) { NET_waitConnected(); uint8_t b[16]; while (NET_receive(b, sizeof b) > 0); } }
int main(void)
{
	coro_spawn(NET_comp.main); coro_spawn(sender); coro_spawn(receiver);
	if (ND_BOOL()) coro_spawn(second);
	coro_run(1500);
	struct NET_Statistics st;
	NET_getStatistics(&st);
	CHECK(st.connectionAttempts >= attempts && st.connectionAttempts <= attempts + 1, "every connection attempt is counted");
	CHECK(st.bytesSent == okBytes || st.bytesSent + 32 >= okBytes, "bytes of completed transfers are counted");
	CHECK(opens(false) <= 2, "no socket is leaked");
	return 0;
}
#endif
