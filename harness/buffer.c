/* C05, C06, C07: core/buffer.c with the real list operations. The shared state is generated when the lock is taken
 * (any state satisfying the invariant: every cell in exactly one place) and poisoned when it is released; the
 * contract of the operation is checked against the state at the release. The backlog and the free list have any
 * length: only the cells next to their ends are materialised, the others are behind gaps (GAPS=1) whose links are
 * invalid addresses. */
#include "stubs.h"
#include "cancel.h"
#include "util/list.h"
#define malloc vf_malloc
#define calloc vf_calloc
#define free vf_free
#define sleep vf_sleep
#define clock_gettime vf_clock
static void *vf_malloc(size_t n);
static void *vf_calloc(size_t n, size_t m);
static void vf_free(void *p);
static unsigned vf_sleep(unsigned s);
static int vf_clock(clockid_t c, struct timespec *ts);
#include "core/buffer.c"
#undef malloc
#undef calloc
#undef free
#undef sleep
#undef clock_gettime
#ifndef QM
#define QM 3
#endif
#ifndef PM
#define PM 3
#endif
#ifndef MSMAX
#define MSMAX 100000
#endif
#ifndef CM
#define CM 2
#endif
#define FQ 0
#define FP (QM)
#define FC(k) (QM + PM + (k) * CM)
#define FNEW (QM + PM + 2 * CM)
#define FCUR (FNEW + 1)
#define NF (FCUR + 1)
#if OP == 11 || (OP == 0 && !defined(NONEW))
#define NL 3
#else
#define NL 0
#endif
#define ALL (NF + NL)
enum { NONE, Q, P, C0, C1, C2, NEW, CUR, GONE };
typedef struct LIST_LinkD K;
/* separate objects; only the cells of a new pool are a vector */
static struct FrameLink F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11;
static struct FrameLink *const FR[] = { &F0, &F1, &F2, &F3, &F4, &F5, &F6, &F7, &F8, &F9, &F10, &F11 };
_Static_assert(NF <= 12, "cells");
#if NL
static struct FrameLink vec[NL];
#define fr(i) (*((i) < NF ? FR[i] : &vec[(i) - NF]))
#define VEC(n) (&vec[NL - (n)])
#else
#define fr(i) (*FR[i])
#define VEC(n) ((struct FrameLink *)&linkObj[3])
#endif
static struct Pool D0, D1, D2;                  /* D2: newly allocated */
static struct Pool *const DP[] = { &D0, &D1, &D2 };
#define dp(i) (*DP[i])
static uint64_t tag[ALL];
static char linkObj[4];
static K *poisonN(unsigned g) { return (K *)(uintptr_t)(0x1000 * g + 0x100000); }
static K *poisonP(unsigned g) { return (K *)(uintptr_t)(0x1000 * g + 0x100800); }
static bool locked, touched, hist;
static unsigned nd, changes;
struct snap {
	uint8_t place[ALL];     /* where a cell is */
	uint8_t hid[ALL];       /* where the hidden cells before this one are */
	uint8_t pos[ALL], hpos[ALL]; uint8_t nq;        /* position in the backlog (hidden cells count as one) */
	size_t qlen, plen, dlen;
	bool dyn[3];
	struct BUFFER_Statistics st;
};
static struct snap pre, post;
static size_t hidq, hidp, hidd;                 /* numbers of hidden cells, pools */
static bool gone[3];                            /* pools given back */
static bool linksGone[3], staticGone, staticAlloc;
static unsigned mallocs, mfail;
static size_t mallocLinks;
static bool halfway;                            /* the operation has taken effect */
static bool isfree(uint8_t p) { return p == P || p == C0 || p == C1 || p == C2; }
static bool counting;                           /* the number of cells of a pool matters */
static bool needWalk;                           /* the operation walks the additional pools */

/* --- an arbitrary state ----------------------------------------------------------------------------------- */
static void genList(struct LIST_ListDC *l, unsigned first, unsigned max, unsigned min, unsigned n, size_t *hid)
{
	K *end = &l->listD.anchor;
	bool g = false;
	for (unsigned i = 0; i < max; ++i) if (i < n) {
		bool before = GAPS && hid && i > 1 && ND_BOOL();
		K *k = &FR[first + i]->list;
		if (min == 0 || i + 1 >= min) k->next = end;
		k->prev = i == 0 ? end : before ? poisonP(first + i) : &FR[first + i - 1]->list;
		if (i) FR[first + i - 1]->list.next = before ? poisonN(first + i) : k;
		if (before) g = true;
	}
	if (min) end->next = &FR[first]->list; else if (max != min) end->next = n ? &FR[first]->list : end; else end->next = end;
	end->prev = end;
	if (max && max == min) end->prev = &FR[first + max - 1]->list;
	else for (unsigned i = 0; i < max; ++i) if (i + 1 == n) end->prev = &FR[first + i]->list;
	size_t h = g ? ND_RANGE(1, 1ul << 40) : 0;
	l->length = n + h;
	l->tainted = false;
	if (hid) *hid = h;
}
static void put(struct snap *s, unsigned i, uint8_t where, bool hidden)
{
	if (hidden) {
		CHECK(s->hid[i] == NONE, "every cell is in one place only");
		s->hid[i] = where; s->hpos[i] = s->nq;
	} else {
		CHECK(s->place[i] == NONE, "every cell is in one place only");
		s->place[i] = where; s->pos[i] = s->nq;
	}
	if (where == Q) ++s->nq;
}
static void genState(void)
{
#ifndef NPMIN
#define NPMIN 0
#endif
	unsigned nq = ND_RANGE(0, QM), np = PM == NPMIN ? PM : ND_RANGE(NPMIN, PM);
	unsigned c[2] = { ND_RANGE(0, CM), ND_RANGE(0, CM) };
	unsigned st = 0, cnt[2] = { 0, 0 };
#ifdef NDFIX
	nd = NDFIX;
#else
	nd = ND_RANGE(0, 2);
#endif
#ifdef VERIF_NATIVE     /* random states that satisfy the invariant more often */
	if (!hist) nd = 0;
	for (unsigned k = 0; k < 2; ++k) if (k >= nd) c[k] = 0;
	if (dynMaxPools < nd) dynMaxPools = nd + ND_RANGE(0, 1);
#endif
	if (!hist) ASSUME(nd == 0);
	for (unsigned i = 0; i < ALL; ++i) { fr(i).list.next = poisonN(999); fr(i).list.prev = poisonP(999); }
	genList(&queue, FQ, QM, 0, nq, &hidq);
	genList(&pool, FP, PM, NPMIN, np, &hidp);
	for (unsigned i = 0; i < NF; ++i) {
		bool in = (i < nq) || (i >= FP && i < FP + np) || (i >= FC(0) && i < FC(0) + c[0]) || (i >= FC(1) && i < FC(1) + c[1])
			|| (i == FNEW && newFrame) || (i == FCUR && currentFrame);
		unsigned o = ND_RANGE(0, 2);
		if (i >= FC(0) && i < FNEW) o = i >= FC(1);
#ifdef VERIF_NATIVE
		else if (o < 2 && o >= nd) o = 2;
#endif
		if (i >= FC(0) && i < FNEW) { if (in) ASSUME(o < nd); } else if (in) ASSUME(o == 2 || o < nd);
		fr(i).pool = o == 2 ? &staticPool : o ? &D1 : &D0;
		if (in) { if (o == 2) ++st; else if (o) ++cnt[1]; else ++cnt[0]; }
		fr(i).frame.rawLen = tag[i];
	}
	static const struct snap zero;
	pre = zero;
	for (unsigned i = 0; i < NF; ++i) {
		bool in = (i < nq) || (i >= FP && i < FP + np) || (i >= FC(0) && i < FC(0) + c[0]) || (i >= FC(1) && i < FC(1) + c[1])
			|| (i == FNEW && newFrame) || (i == FCUR && currentFrame);
		uint8_t where = i < FP ? Q : i < FC(0) ? P : i < FC(1) ? C0 : i < FNEW ? C1 : i == FNEW ? NEW : CUR;
		if (!in) continue;
		if (GAPS && i < FC(0) && fr(i).list.prev == poisonP(i)) put(&pre, i, where, true);
		put(&pre, i, where, false);
	}
	pre.qlen = nq + hidq; pre.plen = np + hidp;
	pre.dyn[0] = nd >= 1; pre.dyn[1] = nd == 2;
	ASSUME(st >= 2 || hidq || hidp);        /* the preallocated cells are at least two */
	for (unsigned k = 0; k < 2; ++k) {
		genList(&dp(k).collect, FC(k), CM, 0, c[k], NULL);
		if (counting) { ASSUME(k >= nd || cnt[k] >= 1); dp(k).size = cnt[k]; } else dp(k).size = ND_RANGE(1, 1ul << 32);
		ASSUME(c[k] <= dp(k).size);
		dp(k).links = (struct FrameLink *)&linkObj[k];  /* an arbitrary, unique address: never dereferenced */
	}
	K *end = &dynPools.listD.anchor;
	hidd = 0;
	#ifdef NDFIX
	bool hg = false;
#else
	bool hg = GAPS && nd == 2 && ND_BOOL();
#endif
	if (hg) {       /* further pools: hidden if a free cell is found before they are reached */
		ASSUME(!needWalk || np || c[0]);
		hidd = ND_RANGE(1, 1ul << 30);
	}
	end->next = nd ? &D0.list : end;
	end->prev = nd == 2 ? &D1.list : nd ? &D0.list : end;
	D0.list.prev = end;
	D0.list.next = nd == 2 ? (hg ? poisonN(900) : &D1.list) : end;
	D1.list.prev = hg ? poisonP(900) : &D0.list;
	D1.list.next = end;
	dynPools.length = nd + hidd;
	dynPools.tainted = false;
	ASSUME(dynPools.length <= dynMaxPools);
	stats.discardedAll = ND_RANGE(0, 1ul << 60);
	stats.discardedCur = ND_RANGE(0, 1ul << 60);
	stats.discardedMax = ND_RANGE(0, 1ul << 60);
	pre.dlen = dynPools.length;
	pre.st = stats;
}
static void poison(void)
{
	queue.listD.anchor.next = queue.listD.anchor.prev = poisonN(800);
	pool.listD.anchor.next = pool.listD.anchor.prev = poisonN(801);
	dynPools.listD.anchor.next = dynPools.listD.anchor.prev = poisonN(802);
}
/* --- where is every cell ----------------------------------------------------------------------------------- */
static size_t walk(struct snap *s, struct LIST_ListDC *l, uint8_t where, unsigned max)
{
	K *end = &l->listD.anchor, *p = end, *k = end->next;
	unsigned n = 0, step;
	for (step = 0; step < max && k != end; ++step) {
		K *nk = NULL, *nx = NULL, *pv = NULL;
		bool gap = false;
		for (unsigned i = 0; i < ALL; ++i) {
			bool g = GAPS && i && i < NF && k == poisonN(i);
			if (k == &fr(i).list || g) {
				if (g) put(s, i, where, true);
				put(s, i, where, false);
				gap = g; nk = &fr(i).list; nx = fr(i).list.next; pv = fr(i).list.prev;
				if (g) CHECK(pv == poisonP(i), "the cells not involved stay linked");
			}
		}
		CHECK(nk, "a list of cells contains only cells");
		if (!nk) VF_HALT();
		if (!gap) CHECK(pv == p, "a list is well-formed in both directions");
		++n;
		p = nk;
		k = nx;
	}
	CHECK(k == end, "a list of cells ends");
	CHECK(l->listD.anchor.prev == p, "the last cell is known");
	return n;
}
static void look(struct snap *s)
{
	static const struct snap zero;
	*s = zero;
	size_t hq = 0, hp = 0;
	s->qlen = walk(s, &queue, Q, QM + 1);
	s->plen = walk(s, &pool, P, OP == 7 || OP == 8 ? QM + PM : OP == 11 ? NL : PM + NL + 1);
	for (unsigned i = 0; i < NF; ++i) {
		bool h = false;
		if (s->hid[i] == Q || s->hid[i] == P) h = true;
		if (h && i < FP) { if (s->hid[i] == Q) hq = hidq; else hp = hidq; }
	}
	for (unsigned i = FP; i < NF; ++i) if (s->hid[i]) { if (s->hid[i] == P) hp += hidp; else hq += hidp; break; }
	s->qlen += hq; s->plen += hp;
	if (newFrame) { for (unsigned i = 0; i < ALL; ++i) if (newFrame == &fr(i) && !(halfway && s->place[i] != NONE)) put(s, i, NEW, false); }
	if (currentFrame) { for (unsigned i = 0; i < ALL; ++i) if (currentFrame == &fr(i)) put(s, i, CUR, false); }
	/* additional pools */
	K *end = &dynPools.listD.anchor, *p = end, *k = end->next;
	for (unsigned step = 0; step < 3 && k != end; ++step) {
		K *nk = NULL, *nx = NULL;
		for (unsigned i = 0; i < 3; ++i) {
			bool g = GAPS && i == 1 && k == poisonN(900);
			if (k == &dp(i).list || g) {
				nk = &dp(i).list; nx = dp(i).list.next;
				CHECK(dp(i).list.prev == (g ? poisonP(900) : p), "the pools are listed in both directions");
				CHECK(!s->dyn[i] && !gone[i], "every pool is listed once while it exists");
				s->dyn[i] = true;
				if (g) s->dlen += hidd;
			}
		}
		CHECK(nk, "the pools are listed");
		if (!nk) VF_HALT();
		++s->dlen;
		p = nk;
		k = nx;
	}
	CHECK(k == end && end->prev == p, "the pools are listed in both directions");
	for (unsigned i = 0; i < 3; ++i) if (s->dyn[i]) {
		size_t c = walk(s, &dp(i).collect, C0 + i, OP == 9 || OP == 10 ? CM + PM : CM);
		CHECK(LIST_length(&dp(i).collect) == c, "the number of collected cells is known");
	}
	CHECK(LIST_length(&queue) == s->qlen, "the length of the backlog is known");
	CHECK(LIST_length(&pool) == s->plen, "the number of free cells is known");
	CHECK(LIST_length(&dynPools) == s->dlen, "the number of additional pools is known");
	s->st = stats;
}
/* --- contracts --------------------------------------------------------------------------------------------- */
static bool kept(unsigned i) { return pre.place[i] == post.place[i] || (isfree(pre.place[i]) && isfree(post.place[i])); }
static void sameExcept(unsigned x)
{
	for (unsigned i = 0; i < NF; ++i) {
		if (i != x) CHECK(kept(i), "every cell not involved stays free, queued or in use");
		CHECK(pre.hid[i] == post.hid[i] || (isfree(pre.hid[i]) && isfree(post.hid[i])), "every cell not involved stays free or queued");
		if (post.place[i] >= C0 && post.place[i] <= C2)
			CHECK(fr(i).pool == (post.place[i] == C0 ? &D0 : post.place[i] == C1 ? &D1 : &D2), "a collected cell belongs to the pool");
	}
}
static void sameQueue(unsigned skip, int front, int back)
{
	unsigned shift = front >= 0;
	CHECK(post.nq == pre.nq - skip + shift + (back >= 0), "the backlog contains exactly the committed frames");
	for (unsigned i = 0; i < NF; ++i) {
		if (pre.place[i] == Q && pre.pos[i] >= skip) CHECK(post.place[i] == Q && post.pos[i] == pre.pos[i] - skip + shift, "the order of the backlog is kept");
		if (pre.hid[i] == Q) CHECK(post.hid[i] == Q && post.hpos[i] == pre.hpos[i] - skip + shift, "the order of the backlog is kept");
		if ((int)i == front) CHECK(post.place[i] == Q && post.pos[i] == 0, "a frame put back is the first of the backlog");
		if ((int)i == back) CHECK(post.place[i] == Q && post.pos[i] == post.nq - 1, "a committed frame is the last of the backlog");
	}
}
static bool wasFree(unsigned x) { bool r = false; for (unsigned i = 0; i < NF; ++i) if (i == x) r = isfree(pre.place[i]); return r; }
static bool oldest(unsigned x) { bool r = false; for (unsigned i = 0; i < NF; ++i) if (i == x) r = pre.place[i] == Q && pre.pos[i] == 0; return r; }
static void contents(void)
{
	for (unsigned i = 0; i < NF; ++i)
		if (post.place[i] == Q || post.place[i] == CUR) CHECK(fr(i).frame.rawLen == tag[i], "the frames are unchanged");
}
static void samePools(void)
{
	CHECK(post.dlen == pre.dlen && post.dyn[0] == pre.dyn[0] && post.dyn[1] == pre.dyn[1] && !post.dyn[2], "the pools are kept");
	CHECK(mallocs == 0, "no memory is taken");
}
static unsigned signals;
static unsigned idOf(const void *f) { unsigned id = ALL; for (unsigned i = 0; i < ALL; ++i) if (f == &fr(i).frame) id = i; return id; }
static unsigned idOfLink(const struct FrameLink *f) { unsigned id = ALL; for (unsigned i = 0; i < ALL; ++i) if (f == &fr(i)) id = i; return id; }
static bool anyFree, gcRan;
static void gcPost(void)
{
	sameQueue(0, -1, -1);
	for (unsigned k = 0; k < 2; ++k) {
		bool use = false;
		for (unsigned i = 0; i < NF; ++i) if (fr(i).pool == &dp(k) && pre.place[i] && !isfree(pre.place[i])) use = true;
		if (k < nd && !post.dyn[k]) {
			CHECK(!use, "a pool with cells in use is not given back");
			CHECK(gone[k] && linksGone[k], "a pool not listed any more is given back completely");
		} else CHECK(!gone[k] && !linksGone[k], "a pool that is listed is not given back");
	}
	CHECK(!staticGone, "the preallocated cells stay");
	CHECK(mallocs == 0, "no memory is taken");
	for (unsigned i = 0; i < NF; ++i) {
		bool freed = fr(i).pool != &staticPool && gone[fr(i).pool == &dp(1)];
		if (pre.place[i] && freed) CHECK(post.place[i] == NONE, "cells of a pool given back are not used any more");
		else CHECK(kept(i), "every other cell stays free, queued or in use");
		if (post.place[i] >= C0 && post.place[i] <= C2) CHECK(fr(i).pool == (post.place[i] == C0 ? &D0 : post.place[i] == C1 ? &D1 : &D2), "a collected cell belongs to the pool");
	}
#if NDFIX == 2 && PM == 2 && NPMIN == 2
	if (gone[0] && !gone[1]) REACH("one pool given back");
	if (post.place[FP] == C1 || post.place[FP] == C0) REACH("cell collected");
#endif
}
static void effect(void)
{
	switch (OP) {
	case 0: {
		unsigned x = idOfLink(newFrame);
		CHECK(x < ALL, "a cell is provided");
		if (x >= ALL) VF_HALT();
				CHECK(newFrame != currentFrame, "a cell being delivered is not provided");
		if (anyFree) {
			CHECK(wasFree(x), "while there is a free cell, it is used");
			sameQueue(0, -1, -1);
			samePools();
			CHECK(post.st.discardedAll == pre.st.discardedAll, "only discarded frames are counted");
#if PM
			if (hidq) REACH("free cell");
#elif NDFIX
			if (pre.plen == 0) REACH("cells uncollected");
#endif
			sameExcept(x);
		} else if (NL && post.dyn[2]) {
			CHECK(hist && pre.dlen < dynMaxPools, "memory is taken only up to the configured number of pools");
			CHECK(post.dlen == pre.dlen + 1 && post.dyn[0] == pre.dyn[0] && post.dyn[1] == pre.dyn[1], "the pools are kept");
			CHECK(!gone[2] && !linksGone[2] && mallocs == 2, "the new pool is kept");
			CHECK(mallocLinks == cfg.dynBacklog && dp(2).size == cfg.dynBacklog && dp(2).links == VEC(mallocLinks), "the new pool has the configured size");
			for (unsigned i = NF; i < ALL; ++i) {
				if (i < ALL - mallocLinks) CHECK(post.place[i] == NONE, "only the cells of the new pool are added");
				else {
					CHECK(i == x || isfree(post.place[i]), "all cells of the new pool are free");
					CHECK(fr(i).pool == &dp(2), "every cell knows its pool");
				}
			}
			CHECK(x >= NF, "a cell of the new pool is provided");
			CHECK(post.st.discardedAll == pre.st.discardedAll, "only discarded frames are counted");
			sameQueue(0, -1, -1);
			sameExcept(ALL);
#if NL
			REACH("new pool");
#endif
		} else {
			CHECK(!(hist && pre.dlen < dynMaxPools) || mfail, "frames are discarded only if no further memory can be taken");
			CHECK(hist || mallocs == 0, "without history no memory is taken");
			CHECK(pre.dlen < dynMaxPools || mallocs == 0, "no memory is taken beyond the configured number of pools");
			CHECK(mallocs == 0 || gone[2] || mfail == 1, "memory of an incomplete pool is given back");
			CHECK(oldest(x), "exactly the oldest frame is discarded");
			sameQueue(1, -1, -1);
			CHECK(post.st.discardedAll == pre.st.discardedAll + 1, "every discarded frame is counted");
			CHECK(post.dlen == pre.dlen && post.dyn[0] == pre.dyn[0] && post.dyn[1] == pre.dyn[1], "the pools are kept");
			sameExcept(x);
#if !PM
#if NDFIX
			if (mfail) REACH("no memory");
#endif
			REACH("oldest discarded");
#endif
		}
		CHECK(!gone[0] && !gone[1] && !linksGone[0] && !linksGone[1] && !staticGone, "no cell is given back");
		break; }
	case 1:
		CHECK(post.place[FNEW] == Q, "a committed frame is queued");
		sameQueue(0, -1, FNEW); sameExcept(FNEW); samePools();
		REACH("committed");
		break;
	case 2:
		CHECK(isfree(post.place[FNEW]), "an aborted frame is free");
		sameQueue(0, -1, -1); sameExcept(FNEW); samePools();
		REACH("aborted");
		break;
	case 3: case 4:
		if (currentFrame == NULL) { sameQueue(0, -1, -1); sameExcept(ALL); break; }
		CHECK(oldest(idOfLink(currentFrame)), "the oldest frame is delivered");
		sameQueue(1, -1, -1); sameExcept(idOfLink(currentFrame)); samePools();
		REACH("delivered");
		break;
	case 5:
		CHECK(isfree(post.place[FCUR]), "a released frame is free");
		sameQueue(0, -1, -1); sameExcept(FCUR); samePools();
		REACH("released");
		break;
	case 6:
		CHECK(post.place[FCUR] == Q, "a returned frame is queued");
		sameQueue(0, FCUR, -1); sameExcept(FCUR); samePools();
		REACH("returned");
		break;
	case 7: case 8:
		CHECK(OP == 7 || !cfg.history, "the backlog is kept if history is enabled");
		CHECK(post.nq == 0, "the backlog is empty");
		for (unsigned i = 0; i < NF; ++i) {
			if (pre.place[i] == Q) CHECK(isfree(post.place[i]), "all flushed cells are free"); else CHECK(kept(i), "every other cell stays");
			if (pre.hid[i] == Q) CHECK(isfree(post.hid[i]), "all flushed cells are free"); else CHECK(pre.hid[i] == post.hid[i] || (isfree(pre.hid[i]) && isfree(post.hid[i])), "every other cell stays");
		}
		samePools();
		if (hidq && hidp) REACH("flushed");
		break;
	case 9: case 10:
		gcPost();
		REACH("collected");
		break;
	default: sameQueue(0, -1, -1); sameExcept(ALL); samePools();
	}
	contents();
}
/* --- environment ------------------------------------------------------------------------------------------- */
static bool isLock(pthread_mutex_t *m) { return m == &mutex; }
static bool changed(void)
{
	if (pre.nq != post.nq || pre.dlen != post.dlen || pre.st.GCruns != post.st.GCruns) return true;
	for (unsigned i = 0; i < ALL; ++i) if (pre.place[i] != post.place[i] || pre.hid[i] != post.hid[i]) return true;
	for (unsigned i = 0; i < NF; ++i) if (pre.place[i] == Q && pre.pos[i] != post.pos[i]) return true;
	return false;
}
int vf_mutex_lock(pthread_mutex_t *m)
{
	CHECK(isLock(m), "the lock of the buffer is used");
	CHECK(!locked, "the lock is not taken twice");
	locked = true;
	genState();
	anyFree = false;
	for (unsigned i = 0; i < NF; ++i) if (isfree(pre.place[i])) anyFree = true;
	return 0;
}
int vf_mutex_unlock(pthread_mutex_t *m)
{
	CHECK(isLock(m), "the lock of the buffer is used");
	CHECK(locked, "only the lock taken is released");
	halfway = OP == 1 || OP == 2;
	look(&post);
	halfway = false;
	if (changed()) {
		CHECK(changes == 0, "the operation takes effect once");
		++changes;
		effect();
	} else contents();
	locked = false;
	poison();
	return 0;
}
static unsigned waits;
static struct timespec now, until;
static bool timedOut;
static void waitCommon(pthread_cond_t *c, pthread_mutex_t *m)
{
	CHECK(c == &cond && isLock(m) && locked, "waits for frames with the lock held");
	CHECK(LIST_empty(&queue), "waits only while there is no frame");
	vf_mutex_unlock(m);
	if (++waits > 1) VF_HALT();
	REACH("wait");
	vf_mutex_lock(m);
	if (ND_BOOL()) {        /* the consumer is stopped while it waits */
		vf_cancel();
		CHECK(!locked && changes == 0, "a stopped consumer leaves the buffer unlocked and unchanged");
		REACH("cancelled");
		VF_HALT();
	}
}
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { waitCommon(c, m); CHECK(OP == 3, "a wait with timeout ends"); return 0; }
int vf_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	CHECK(ts->tv_sec == until.tv_sec && ts->tv_nsec == until.tv_nsec, "the wait ends when the timeout has passed");
	waitCommon(c, m);
	timedOut = ND_BOOL();
	return timedOut ? ETIMEDOUT : 0;
}
int vf_cond_signal(pthread_cond_t *c) { CHECK(c == &cond, "the consumer is woken"); ++signals; return 0; }
int vf_cond_broadcast(pthread_cond_t *c) { CHECK(c == &cond, "the consumer is woken"); ++signals; return 0; }
static unsigned sleeps;
static unsigned vf_sleep(unsigned s)
{
	CHECK(OP == 10 && s == cfg.gcInterval, "the housekeeping interval is kept");
	CHECK(!locked, "the buffer is not locked between housekeeping");
	if (++sleeps > 1) { REACH("housekeeping"); VF_HALT(); }
	return 0;
}
static int vf_clock(clockid_t c, struct timespec *ts) { CHECK(c == CLOCK_REALTIME, "the clock of the wait"); *ts = now; return 0; }
static void *vf_malloc(size_t n)
{
	++mallocs;
#if !NL
	++mfail; return NULL;
#endif
	if (ND_BOOL()) { ++mfail; return NULL; }
	if (n == sizeof(struct Pool)) { gone[2] = false; return &dp(2); }
	UNDECIDED(n % sizeof(struct FrameLink) == 0 && n <= NL * sizeof(struct FrameLink), "unknown memory request");
	mallocLinks = n / sizeof(struct FrameLink);
	linksGone[2] = false;
	if (OP == 11) staticAlloc = true;
	return VEC(mallocLinks);
}
static void *vf_calloc(size_t n, size_t m) { return vf_malloc(n * m); }
static void vf_free(void *p)
{
	if (!p) return;
	if (OP == 12 && p == (void *)&linkObj[2]) { CHECK(!staticGone, "given back once"); staticGone = true; return; }
	for (unsigned i = 0; i < 2; ++i) if (i < nd) {
		if (p == (void *)&linkObj[i]) { CHECK(!linksGone[i], "memory is given back once"); linksGone[i] = true; return; }
		if (p == (void *)&dp(i)) {
			CHECK(!gone[i], "memory is given back once");
			gone[i] = true;
			dp(i).list.next = dp(i).list.prev = poisonN(700);
			dp(i).links = NULL;
			return;
		}
	}
	if (p == &dp(2)) { CHECK(!gone[2], "memory is given back once"); gone[2] = true; return; }
	if (mallocLinks && p == VEC(mallocLinks)) { CHECK(!linksGone[2], "memory is given back once"); linksGone[2] = true; return; }
	CHECK(0, "only memory taken is given back");
}
int main(void)
{
	for (unsigned i = 0; i < ALL; ++i) { tag[i] = vf_nd(); }
	cfg.statBacklog = ND_U32(); cfg.dynBacklog = ND_U32(); cfg.dynIncrement = ND_U32(); cfg.history = ND_BOOL();
#ifdef VERIF_NATIVE
	cfg.dynBacklog %= NL + 1; cfg.dynIncrement %= 4; if (OP == 11) cfg.statBacklog %= NL + 1;
#endif
	cfg.gc = ND_BOOL(); cfg.gcInterval = ND_U32(); cfg.gcLevel = ND_U32();
	bool gc0 = cfg.gc, hist0 = cfg.history;
	cfgFix(&cfgDesc);
	CHECK(cfg.history == hist0 && (!cfg.gc || gc0), "the configuration is not extended");
	CHECK(cfg.history || !cfg.gc, "housekeeping is enabled only with history");
	CHECK(cfg.statBacklog >= 2, "at least two cells are preallocated");
#if OP == 13
	REACH("fixed");
	return 0;
#endif
	hist = cfg.history;
	dynMaxPools = hist ? cfg.dynIncrement : 0;
	#if NL
#ifdef DB
	if (OP == 11) ASSUME(cfg.statBacklog == DB); else ASSUME(cfg.dynBacklog == DB);
	if (OP == 11) cfg.statBacklog = DB; else cfg.dynBacklog = DB;
#endif
	ASSUME(cfg.dynBacklog <= NL || OP == 11);
	ASSUME(OP != 11 || cfg.statBacklog <= NL);
#endif
	gone[2] = linksGone[2] = true;
	staticPool.links = (struct FrameLink *)&linkObj[2];
	counting = !GAPS;
	needWalk = OP == 0;
#if OP == 11 || OP == 12
	locked = false;
#else
	poison();
	if (ND_BOOL() && (OP == 3 || OP == 4 || OP == 7 || OP == 8 || OP == 9 || OP == 10 || OP == 5 || OP == 6)) newFrame = &fr(FNEW);
	if (OP == 1 || OP == 2) newFrame = &fr(FNEW);
	if (OP == 5 || OP == 6 || ((OP == 0 || OP == 1 || OP == 2 || OP >= 7) && ND_BOOL())) currentFrame = &fr(FCUR);
#endif
	fr(FNEW).frame.rawLen = tag[FNEW]; fr(FCUR).frame.rawLen = tag[FCUR];
	struct OPENSKY_RawFrame *f; const struct OPENSKY_RawFrame *g;
	switch (OP) {
	case 0:
		f = BUF_newFrame();
		CHECK(f && newFrame && f == &newFrame->frame, "the provided cell is the one being filled");
		break;
	case 1:
		BUF_commitFrame(&fr(FNEW).frame);
		CHECK(signals > 0 || pre.nq > 0, "a waiting consumer is woken");
		CHECK(changes == 1 && !newFrame, "the committed frame is not being filled any more");
		break;
	case 2: BUF_abortFrame(&fr(FNEW).frame); CHECK(changes == 1 && !newFrame, "the aborted frame is not being filled any more"); break;
	case 3:
		g = BUF_getFrame();
		CHECK(g && currentFrame && g == &currentFrame->frame, "the delivered frame is the current one");
		break;
	case 4: {
		uint32_t ms = ND_RANGE(0, MSMAX);
		now.tv_sec = ND_RANGE(0, 1ul << 40); now.tv_nsec = ND_RANGE(0, 999999999);
		until.tv_sec = now.tv_sec + ms / 1000; until.tv_nsec = now.tv_nsec + (ms % 1000) * 1000000l;
		if (until.tv_nsec >= 1000000000) { until.tv_nsec -= 1000000000; ++until.tv_sec; }
		g = BUF_getFrameTimeout(ms);
		if (g == NULL) { CHECK(timedOut && !currentFrame && changes == 0, "no frame is delivered only after the timeout"); REACH("timeout"); }
		else CHECK(currentFrame && g == &currentFrame->frame, "the delivered frame is the current one");
		break; }
	case 5: BUF_releaseFrame(&fr(FCUR).frame); CHECK(changes == 1 && !currentFrame, "the released frame is not current any more"); break;
	case 6: BUF_putFrame(&fr(FCUR).frame); CHECK(changes == 1 && !currentFrame, "the returned frame is not current any more"); break;
	case 7: BUF_flush(); CHECK(changes == 1 || pre.nq == 0, "the backlog is flushed"); break;
	case 8:
		BUF_flushUnlessHistoryEnabled();
		CHECK(changes == 1 || cfg.history || pre.nq == 0, "the backlog is flushed if history is disabled");
		CHECK(changes == 0 || !cfg.history, "the backlog is kept if history is enabled");
		break;
	case 9: BUF_runGC(); break;
	case 10: mainloop(); break;
	case 11: {
		bool ok = construct();
		if (!ok) { CHECK(mfail, "only a lack of memory is reported"); REACH("failed"); break; }
		nd = 0;
		look(&post);
		CHECK(post.nq == 0 && post.dlen == 0 && !newFrame && !currentFrame, "the buffer is empty");
		CHECK(mallocLinks == cfg.statBacklog && staticPool.size == mallocLinks, "the preallocated cells are as many as configured");
		for (unsigned i = 0; i < ALL; ++i)
			if (i < ALL - mallocLinks) CHECK(post.place[i] == NONE, "only allocated cells are used");
			else CHECK(post.place[i] == P && fr(i).pool == &staticPool, "every cell is free");
		CHECK(dynMaxPools == (hist ? cfg.dynIncrement : 0), "additional memory is limited as configured");
		REACH("constructed");
		break; }
	case 12:
		genState();
		destruct();
		CHECK(staticGone && (nd < 1 || (gone[0] && linksGone[0])) && (nd < 2 || (gone[1] && linksGone[1])), "all memory is given back");
		REACH("destructed");
		break;
	case 14: {
		struct BUFFER_Statistics s;
		BUFFER_getStatistics(&s);
		CHECK(s.discardedAll == pre.st.discardedAll && s.queueSize == pre.qlen && s.poolSize == pre.plen && s.dynPools == pre.dlen, "the discarded frames and the fill levels are reported");
		CHECK(changes == 0, "statistics have no effect");
		break; }
	case 15: resetStats(); CHECK(changes == 0, "resetting the statistics has no effect on frames"); break;
	}
	CHECK(!locked, "the buffer is not left locked");
	REACH("end");
	return 0;
}
