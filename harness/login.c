/* C13: login, for every device type, serial number, user name and outcome of every step. */
#include "stubs.h"
#include "core/network.h"
#include "core/login.h"
#include "core/serial.h"
#include "core/gps.h"
#include "msg.h"
enum { S_DEV, S_SER, S_GPS, S_USER, S_N };
static unsigned next;          /* steps completed, in order */
static bool failed;
static uint32_t devtype, serial;
static enum SERIAL_RETURN serialRc;
static char name[OPENSKY_MAX_USERNAME + 3];
static bool named;
static unsigned serialCalls;
static void step(unsigned s) { CHECK(!failed, "nothing further is sent after a failure"); CHECK(next == s, "order: device id, serial number, position, user name"); ++next; }
unsigned long vf_strtoul(const char *s, char **e, int b)
{
	unsigned long v = 0;
	(void)b;
	while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); ++s; }
	*e = (char *)s;
	return v;
}
bool GPS_sendPosition() { step(S_GPS); failed = ND_BOOL(); return !failed; }
enum SERIAL_RETURN SERIAL_getSerial(uint32_t *s)
{
	++serialCalls;
	CHECK(s != NULL, "room for the serial number");
	CHECK(next == S_SER && !failed, "the serial number is asked for after the device id was sent");
	serialRc = (enum SERIAL_RETURN)ND_RANGE(SERIAL_RETURN_FAIL_TEMP, SERIAL_RETURN_SUCCESS);
	serial = ND_U32();
	if (serialRc == SERIAL_RETURN_SUCCESS) *s = serial;
	else failed = true;
	return serialRc;
}
bool NET_send(const void *buf, size_t len)
{
	uint8_t body[40] = { 0 };
	if (next == S_DEV) {
		vf_be32(body, devtype); vf_be32(body + 4, 2); vf_be32(body + 8, 1); vf_be32(body + 12, 7);
		CHECK(vf_is_msg(buf, len, 65, body, 16), "device identification: type and version");
		step(S_DEV);
	} else if (next == S_SER) {
		CHECK(serialCalls == 1 && serialRc == SERIAL_RETURN_SUCCESS, "only a determined serial number is sent");
		vf_be32(body, serial);
		CHECK(vf_is_msg(buf, len, '5', body, 4), "serial number message");
		step(S_SER);
	} else {
		for (int i = 0; i < 40 && name[i]; ++i) body[i] = name[i];
		CHECK(named, "no user name message without a user name");
		CHECK(vf_is_msg(buf, len, 67, body, 40), "user name message: the name, zero-padded");
		step(S_USER);
		REACH("user name sent");
	}
	vf_msg_begin();
	failed = ND_BOOL();
	return !failed;
}
#define strtoul vf_strtoul
#include "core/login.c"
static void login(void)
{
	next = 0; failed = false; serialCalls = 0;
	vf_msg_begin();
	bool r = LOGIN_login();
	CHECK(r == !failed, "success is reported exactly if every message was sent");
	if (r) { CHECK(next == (named ? S_N : S_USER), "a successful login sent every message"); REACH("login succeeded"); }
	else REACH("login failed");
}
int main(void)
{
	devtype = ND_RANGE(1, 0xffffffff);
	LOGIN_setDeviceType(devtype);
	if (ND_BOOL()) {
		for (unsigned i = 0; i < sizeof name - 1; ++i) name[i] = ND_U8();
		name[sizeof name - 1] = 0;
		LOGIN_setUsername(name);
		if (name[0] && strlen(name) <= 40) named = true; else name[0] = 0;
#ifdef AGAIN
		if (ND_BOOL()) { LOGIN_setUsername(NULL); named = false; name[0] = 0; }
		else if (ND_BOOL()) {
			for (unsigned i = 0; i < sizeof name - 1; ++i) name[i] = ND_U8();
			LOGIN_setUsername(name);
			if (name[0] && strlen(name) <= 40) named = true; else { named = false; name[0] = 0; }
		}
#endif
	}
	login();
#ifdef AGAIN
	login();
#endif
	return 0;
}
