/* Dual-mode verification prelude: CBMC (deductive) and native (replay). */
#ifndef VERIF_H
#define VERIF_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef VERIF_NATIVE
#include <stdio.h>
#include <stdlib.h>
#define main vf_main
int vf_main(void);
extern uint64_t vf_nd(void);
extern void vf_fail(const char *msg, const char *file, int line);
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "REPLAY: assumption not met: %s\n", #c); exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) vf_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(msg) do { fprintf(stderr, "REPLAY: reached %s\n", msg); } while (0)
#define VF_CONTRACT(...)
#define VF_BIAS(...) const uint8_t vf_bias[] = { __VA_ARGS__ }; const unsigned vf_nbias = sizeof vf_bias;
#define VF_HALT() exit(0)
#define UNDECIDED(c, msg) ((void)0)
#else
uint64_t nondet_vf_u64(void);
static inline uint64_t vf_nd(void) { uint64_t vf_val = nondet_vf_u64(); return vf_val; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, "P: " msg)
#define REACH(msg) __CPROVER_assert(0, "REACH: " msg)
#define VF_CONTRACT(...) __VA_ARGS__
#define VF_BIAS(...)
#define VF_HALT() __CPROVER_assume(0)
/* limits of the model itself: never a violation, but the unit is then undecided */
#define UNDECIDED(c, msg) do { __CPROVER_assert(c, "UNDEC: " msg); __CPROVER_assume(c); } while (0)
#endif
/* loop cut points in the code; a harness that cuts a loop defines VERIF_CUT itself */
#ifndef VERIF_CUT
#define VERIF_CUT(id) ((void)0)
#endif
#define ND_U8() ((uint8_t)vf_nd())
#define ND_U16() ((uint16_t)vf_nd())
#define ND_U32() ((uint32_t)vf_nd())
#define ND_U64() (vf_nd())
#define ND_BOOL() ((vf_nd() & 1) != 0)
static inline uint64_t vf_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = vf_nd();
#ifdef VERIF_NATIVE
	if (v < lo || v > hi) v = lo + v % (hi - lo + 1);   /* random search; a replayed value is in range */
#endif
	ASSUME(v >= lo && v <= hi); return v;
}
#define ND_RANGE(lo, hi) vf_range((lo), (hi))
#endif
