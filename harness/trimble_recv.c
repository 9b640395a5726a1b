/* C04: one iteration of the Trimble main loop, for every packet (any length 0..1024, any content);
 * iterations share no state, so this is the inductive step of the loop. */
#include "stubs.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_input.h"
#include "core/gps.h"
#include "core/network.h"
#include "util/component.h"
const struct Component NET_comp;
static uint8_t P[69];
static size_t plen;
static unsigned calls, connects, discs, resets, sets;
static double lat, lon, alt;
static bool resetAfterConnect;
static void judge(void);
void TRIMBLE_INPUT_register() {}
void TRIMBLE_PARSER_init() {}
void TRIMBLE_PARSER_connect() { if (calls) judge(); ++connects; resetAfterConnect = false; }
void TRIMBLE_PARSER_disconnect() { ++discs; }
void GPS_reset()
{
#ifdef C14
	CHECK(0, "a request for the position is never forgotten by the GPS receiver thread");
#endif
	++resets; if (connects) resetAfterConnect = true;
}
void GPS_setHasFix(bool fix) { CHECK(!fix, "a fix is announced only together with its position"); if (connects) resetAfterConnect = true; }
void GPS_setPositionWithFix(double a, double b, double c) { ++sets; lat = a; lon = b; alt = c; }
void GPS_setPosition(double a, double b, double c) { ++sets; lat = a; lon = b; alt = c; }
static uint64_t be(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | p[i]; return v; }
static double bed(const uint8_t *p) { union { uint64_t u; double d; } x; x.u = be(p); return x.d; }
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static void judge(void)
{
	bool trusted = plen == 69 && P[0] == 0x8f && P[1] == 0xac &&
		P[2] == 7 /* overdetermined clock */ && P[3] == 0 /* locked */ &&
		P[9] == 0 && P[10] == 0 /* no critical alarm */ &&
		!(P[11] & 0x01) /* no test mode */ && !(P[12] & 0x20) /* no self survey */ && P[13] == 0 /* doing fixes */;
	CHECK(sets == (trusted ? 1 : 0), "the position is set exactly by a trustworthy timing packet");
	if (trusted) {
		CHECK(same(alt, bed(P + 53)), "altitude of the packet");
#if !defined(FPMUL)
		/* radians to degrees: 1 rad = 57.29577951308232 deg */
		CHECK(same(lat, bed(P + 37) * 57.29577951308232), "latitude of the packet in degrees");
		CHECK(same(lon, bed(P + 45) * 57.29577951308232), "longitude of the packet in degrees");
#endif
		REACH("trusted");
	}
	CHECK(discs == (plen == 0 ? 1 : 0), "the receiver is disconnected exactly after a failure");
	CHECK(connects == 1, "one connection");
	if (plen == 0) REACH("failure");
	if (plen == 68) REACH("short");
	VF_HALT();
}
size_t TRIMBLE_PARSER_getFrame(uint8_t *b, size_t n)
{
	CHECK(resetAfterConnect, "the earlier fix is withdrawn after every connection");
	CHECK(n <= 1024 && n >= 69, "buffer can hold a timing packet");
	if (calls++) judge();
	plen = ND_RANGE(0, 1024);
	for (unsigned i = 0; i < 69; ++i) { P[i] = ND_U8(); b[i] = P[i]; }
	return plen;
}
#include "trimble/trimble_recv.c"
VF_BIAS(0x8f, 0xac, 7, 0, 0, 0, 0, 0, 69, 69)
int main(void)
{
	TRIMBLE_comp.main();
	return 0;
}
