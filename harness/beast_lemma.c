/* C01 lemma: prefix counts are monotone and 1-Lipschitz (induction on b: base, step) */
#include "stubs.h"
int main(void)
{
	uint32_t ca = ND_U32(), cb = ND_U32(), cb1 = ND_U32();
	uint64_t a = ND_RANGE(0, 65536), b = ND_RANGE(0, 65535);
	bool sync = ND_BOOL();
	ASSUME(ca <= 65536 && cb <= 65536);
	if (b == a) { CHECK(ca <= ca && ca - ca <= b - a, "base"); }
	ASSUME(a <= b && ca <= cb && cb - ca <= b - a);          /* hypothesis for b */
	ASSUME(cb1 == cb + (sync ? 1 : 0));                      /* definition of cnt[b+1] */
	CHECK(ca <= cb1 && cb1 - ca <= b + 1 - a, "step");
	REACH("step");
	return 0;
}
