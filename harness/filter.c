/* P08: contracts of the frame filter.
 * Modes: -DIND  arbitrary state satisfying the representation invariant, one operation (induction step)
 *        else   construction + STEPS arbitrary public operations (API only) */
#include "stubs.h"
#include "core/filter.h"
#include "core/input.h"

static unsigned g_reconf;           /* ghost: input reconfigurations */
static bool g_reconf_ext;
void INPUT_reconfigure(void) { ++g_reconf; g_reconf_ext = FILTER_getConfiguration()->extSquitter; }

#ifndef VERIF_NATIVE
/* typed models of memcpy/memset on the statistics record (same effect, cheaper encoding) */
static void *vf_cp(struct FILTER_Statistics *d, const struct FILTER_Statistics *s, size_t n)
{ __CPROVER_assert(n == sizeof *d, "P: whole statistics record copied"); *d = *s; return d; }
static void *vf_ms(struct FILTER_Statistics *d, int c, size_t n)
{ struct FILTER_Statistics z = { { 0 } }; __CPROVER_assert(n == sizeof *d && c == 0, "P: whole statistics record cleared"); *d = z; return d; }
#define memcpy(d, s, n) _Generic((d), struct FILTER_Statistics *: vf_cp, default: memcpy)((d), (s), (n))
#define memset(d, c, n) _Generic((d), struct FILTER_Statistics *: vf_ms, default: memset)((d), (c), (n))
#endif
#include "core/filter.c"

/* abstract view of the filter */
static struct { bool sync, ext, synced; struct FILTER_Statistics st; } M;
static struct FILTER_Statistics S;
static unsigned W1, W2;

/* specification of the filter decision, from the property text */
static bool spec(enum OPENSKY_FRAME_TYPE t, uint8_t b0)
{
	unsigned df = b0 / 8;
	if (t >= '1' && t <= '4') ++M.st.framesByType[t - '1'];
	if (!M.synced) ++M.st.unsynchronized;
	if (!M.synced && M.sync) { ++M.st.filtered; return false; }
	if (t != '2' && t != '3') { ++M.st.filtered; return false; }
	++M.st.modeSByType[df];
	if (M.ext && df != 17 && df != 18) { ++M.st.filtered; ++M.st.modeSfiltered; return false; }
	return true;
}

static void check_view(void)
{
	FILTER_getStatistics(&S);
	/* W1, W2: arbitrary but fixed indices, i.e. universally quantified */
	CHECK(S.framesByType[W1] == M.st.framesByType[W1], "per-type frame counter");
	CHECK(S.modeSByType[W2] == M.st.modeSByType[W2], "per-downlink-format counter");
	CHECK(S.filtered == M.st.filtered, "filtered counter");
	CHECK(S.modeSfiltered == M.st.modeSfiltered, "mode-s filtered counter");
	CHECK(S.unsynchronized == M.st.unsynchronized, "unsynchronized counter");
	CHECK(S.unknown == M.st.unknown, "unknown counter");
	CHECK(FILTER_getConfiguration()->sync == M.sync, "configured sync filter");
	CHECK(FILTER_getConfiguration()->extSquitter == M.ext, "configured extended squitter filter");
}

static void op(void)
{
	bool b = ND_BOOL();
	unsigned r0 = g_reconf;
	switch (ND_RANGE(0, 5)) {
	case 0: FILTER_reset(); M.synced = false; break;
	case 1: FILTER_setSynchronizedFilter(b); M.sync = b; break;
	case 2: FILTER_setModeSExtSquitter(b); M.ext = b;
		CHECK(g_reconf == r0 + 1 && g_reconf_ext == b, "the receiver is reconfigured with the new filter");
		break;
	case 3: FILTER_setSynchronized(b); M.synced = b; break;
	case 4: {
		enum OPENSKY_FRAME_TYPE t = (enum OPENSKY_FRAME_TYPE)ND_RANGE('1', '4');
		uint8_t f = ND_U8();
		bool e = spec(t, f);
		bool r = FILTER_filter(t, f);
		CHECK(r == e, "frame passes exactly when the filter rules say so");
		if (e) REACH("passed"); else REACH("rejected");
		break; }
	case 5: FILTER_comp.onReset(); memset(&M.st, 0, sizeof M.st); break;
	}
	check_view();
}

int main(void)
{
	W1 = ND_RANGE(0, 3); W2 = ND_RANGE(0, 31);
	FILTER_cfg.crc = ND_BOOL(); FILTER_cfg.sync = ND_BOOL(); FILTER_cfg.extSquitter = ND_BOOL();
	M.sync = FILTER_cfg.sync; M.ext = FILTER_cfg.extSquitter; M.synced = false;
	bool ok = FILTER_comp.onConstruct();
	CHECK(ok, "construction succeeds");
#ifdef IND
	/* any state satisfying the representation invariant */
	isSynchronized = M.synced = ND_BOOL();
	for (int i = 0; i < 4; ++i) stats.framesByType[i] = M.st.framesByType[i] = ND_U64();
	for (int i = 0; i < 32; ++i) stats.modeSByType[i] = M.st.modeSByType[i] = ND_U64();
	stats.unknown = M.st.unknown = ND_U64(); stats.filtered = M.st.filtered = ND_U64();
	stats.modeSfiltered = M.st.modeSfiltered = ND_U64(); stats.unsynchronized = M.st.unsynchronized = ND_U64();
	enum MODES_TYPE f0 = modeSFilter;
	op();
	/* representation invariant restored: the state is again a function of the abstract view */
	CHECK(isSynchronized == M.synced, "invariant: synchronisation flag");
	FILTER_cfg.extSquitter = M.ext; f0 = modeSFilter; FILTER_comp.onConstruct();
	CHECK(modeSFilter == f0, "invariant: mask corresponds to the configuration");
#else
	FILTER_comp.onReset();
	check_view();
	for (int i = 0; i < STEPS; ++i) op();
#endif
	REACH("end");
	return 0;
}
