/* C01: contract of BEAST_encode for blocks of any length (up to MAXN bytes, the
 * array size of the harness; no loop is unwound over the length).
 *
 * Universal statements over positions are proved for one arbitrary but fixed
 * position K (witness). cnt[x] = number of SYNC bytes in in[0..x) is an
 * uninterpreted ghost function; its defining equation and its monotonicity are
 * instantiated where needed (LEMMA), monotonicity is proved in beast_lemma.c.
 */
#include <stddef.h>
#define VERIF_CUT(id) VERIF_CUT_##id
#include "stubs.h"
#include "core/beast.h"

#ifndef MAXN
#define MAXN 64
#endif
static uint8_t gin[MAXN], gout[2 * MAXN + 1];
static uint32_t cnt[MAXN + 1];
static size_t glen, K;

#define SYNC(x) (gin[x] == 0x1a)
#define POS(k) ((k) + cnt[k])
#define DEF(x) ASSUME((x) >= glen || cnt[(x) + 1] == cnt[x] + (SYNC(x) ? 1 : 0))
/* monotone and 1-Lipschitz: a <= b  ==>  cnt[a] <= cnt[b] <= cnt[a] + (b - a) */
#define LEMMA(a, b) ASSUME(!((a) <= (b) && (b) <= glen) || (cnt[a] <= cnt[b] && cnt[b] - cnt[a] <= (b) - (a)))

/* what is already known to be right at position k: first, second byte */
#define AT(k) (gout[POS(k)] == gin[k])
#define AT2(k) (!SYNC(k) || gout[POS(k) + 1] == 0x1a)

/* contract of memchr, in terms of cnt: no SYNC before the result */
static void *vf_memchr(const void *s, int c, size_t n)
{
	const uint8_t *p = s;
	CHECK(__CPROVER_same_object(p, gin), "memchr searches the input");
	size_t i = p - gin;
	CHECK(c == 0x1a && i <= glen && n <= glen - i, "memchr stays within the input");
	LEMMA(i, i + n);
	if (cnt[i] == cnt[i + n])
		return 0;
	size_t j = vf_nd();
	ASSUME(j >= i && j < i + n && SYNC(j) && cnt[j] == cnt[i]);
	DEF(j); LEMMA(j + 1, glen); LEMMA(i, j);
	if (K < glen) { LEMMA(i, K); LEMMA(K, j); LEMMA(K + 1, j); LEMMA(j + 1, K); }
	return gin + j;
}

/* contract of memcpy: the watched output bytes get their new value */
static void *vf_memcpy(void *d, const void *s, size_t n)
{
	CHECK(__CPROVER_same_object(d, gout) && __CPROVER_same_object(s, gin), "copies from input to output");
	size_t dp = (uint8_t *)d - gout, sp = (const uint8_t *)s - gin;
	CHECK(sp <= glen && n <= glen - sp, "copy reads only the input");
	CHECK(dp <= glen + cnt[glen] && n <= glen + cnt[glen] - dp, "copy writes only the needed output bytes");
	if (K < glen) {
		size_t p0 = POS(K), p1 = POS(K) + 1;
		if (p0 >= dp && p0 - dp < n) gout[p0] = gin[sp + (p0 - dp)];
		if (p1 >= dp && p1 - dp < n && SYNC(K)) gout[p1] = gin[sp + (p1 - dp)];
	}
	return d;
}

static bool visited;
static size_t ci, cp, cs;   /* position of in, ptr, sync at the cut */
static bool chs;
static bool inv(void)
{
	if (!(ci < glen && cp <= 2 * glen)) return false;
	if (cp == 0) { if (ci != 0) return false; }
	else if (!(SYNC(ci) && cp == POS(ci) + 1)) return false;
	size_t b = ci + (cp != 0);
	if (!chs) { if (cnt[glen] != cnt[b]) return false; }
	else if (!(cs < glen && cs >= b && SYNC(cs) && cnt[cs] == cnt[b])) return false;
	if (K < ci && !(AT(K) && AT2(K))) return false;
	if (cp != 0 && K == ci && !AT(K)) return false;
	return true;
}
static void instances(void)
{
	size_t b = ci + (cp != 0);
	DEF(ci); LEMMA(ci, glen); LEMMA(b, glen); LEMMA(0, ci);
	if (chs) { DEF(cs); LEMMA(cs + 1, glen); LEMMA(b, cs); LEMMA(0, cs); }
	if (K < glen) {
		DEF(K); LEMMA(b, K); LEMMA(b, K + 1); LEMMA(K, glen); LEMMA(K + 1, glen); LEMMA(K + 1, ci); LEMMA(0, K); LEMMA(K, ci); LEMMA(ci, K);
		if (chs) { LEMMA(K, cs); LEMMA(K + 1, cs); LEMMA(cs, K); LEMMA(cs + 1, K); }
	}
}
static uint8_t fresh_out[2 * MAXN + 1];
#define VERIF_CUT_beast_encode do { \
	CHECK(__CPROVER_same_object(in, gin) && __CPROVER_same_object(ptr, gout) && (!sync || __CPROVER_same_object(sync, gin)), "loop pointers"); \
	CHECK(end == gin + glen && out == gout, "loop constants"); \
	ci = in - gin; cp = ptr - gout; chs = sync != 0; cs = chs ? (size_t)(sync - gin) : 0; \
	instances(); \
	CHECK(inv(), "loop invariant"); \
	if (visited) { REACH("iteration re-establishes the invariant"); ASSUME(0); } \
	visited = true; \
	ci = vf_nd(); cp = vf_nd(); cs = vf_nd(); chs = vf_nd() & 1; \
	ASSUME(ci < glen && cp <= 2 * glen && cs < glen); \
	if (K < glen) { gout[POS(K)] = ND_U8(); gout[POS(K) + 1] = ND_U8(); } \
	instances(); \
	ASSUME(inv()); \
	in = gin + ci; ptr = gout + cp; sync = chs ? gin + cs : (const uint8_t *)0; \
} while (0)

#define memchr(s, c, n) vf_memchr(s, c, n)
#define memcpy(d, s, n) vf_memcpy(d, s, n)
#include "core/beast.c"
#undef memcpy
#undef memchr

uint8_t nondet_arr(void);
int main(void)
{
	__CPROVER_havoc_object(gin);
	__CPROVER_havoc_object(cnt);
	__CPROVER_havoc_object(gout);
	glen = ND_RANGE(0, MAXN);
	K = ND_RANGE(0, MAXN - 1);
	ASSUME(cnt[0] == 0);
	LEMMA(0, glen);
	if (K < glen) { DEF(K); LEMMA(0, K); LEMMA(K + 1, glen); }
	size_t r = BEAST_encode(gout, gin, glen);
	CHECK(r == glen + cnt[glen], "length is the input length plus the number of SYNCs");
	if (K < glen) {
		CHECK(AT(K), "byte K of the input is at its place");
		CHECK(AT2(K), "a SYNC is doubled");
		/* decoding step: at POS(K) the decoder yields in[K] and continues at POS(K+1) */
		size_t nx = POS(K) + (gout[POS(K)] == 0x1a ? 2 : 1);
		CHECK(nx == POS(K + 1) && nx <= r, "undoubling continues with the next byte, within the result");
		REACH("non-empty");
	} else
		REACH("beyond the end");
	return 0;
}
