/* C01: direct contract of BEAST_encode, all blocks up to MAXIN bytes (bounded), exact frame */
#include "stubs.h"
#include "libc_models.h"
#include "core/beast.c"
int main(void)
{
	uint8_t in[MAXIN + 1], out[2 * MAXIN + 2], ref[2 * MAXIN + 2];
	size_t len = ND_RANGE(0, MAXIN), n = 0;
	for (size_t i = 0; i < MAXIN; ++i) in[i] = ND_U8();
	for (size_t i = 0; i < 2 * MAXIN + 2; ++i) ref[i] = out[i] = 0xa5;
	for (size_t i = 0; i < len; ++i) { ref[n++] = in[i]; if (in[i] == 0x1a) ref[n++] = 0x1a; }
	size_t r = BEAST_encode(out, in, len);
	CHECK(r == n, "length is the input length plus the number of SYNCs");
	for (size_t i = 0; i < 2 * MAXIN + 2; ++i) CHECK(out[i] == ref[i], "exactly the escaped block is written");
	if (len == MAXIN && n == 2 * len) REACH("all SYNC");
	if (len == MAXIN && n == len) REACH("no SYNC");
	return 0;
}
