#include "verif.h"
#include "core/beast.h"
#define MAXIN 40
size_t BEAST_encode(uint8_t * __restrict out, const uint8_t * __restrict in, size_t len)
VF_CONTRACT(
__CPROVER_requires(len <= MAXIN && __CPROVER_r_ok(in, len) && __CPROVER_w_ok(out, 2 * len))
__CPROVER_assigns(__CPROVER_object_upto(out, 2 * len))
__CPROVER_ensures(__CPROVER_return_value <= 2 * len && __CPROVER_return_value >= len)
);
#include "libc_models.h"
#include "core/beast.c"

int main(void)
{
	uint8_t in[MAXIN], out[2*MAXIN+1], ref[2*MAXIN+1];
	size_t len = ND_RANGE(0, MAXIN);
	size_t n = 0;
	for (size_t i = 0; i < MAXIN; ++i) in[i] = ND_U8();
	for (size_t i = 0; i < len; ++i) { ref[n++] = in[i]; if (in[i] == 0x1a) ref[n++] = 0x1a; }
	size_t r = BEAST_encode(out, in, len);
	CHECK(r == n, "length");
	for (size_t i = 0; i < n; ++i) CHECK(out[i] == ref[i], "content");
	if (len==MAXIN) REACH("end");
	return 0;
}
