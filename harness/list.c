/* C20: list.h. Lists of any length: up to NMAX elements are materialised, between any two of them an arbitrary
 * number of further elements may be hidden behind a gap. The links into a gap are invalid addresses, so an
 * operation that would look at a hidden element fails; operations are specified on the sequence of elements. */
#include "stubs.h"
#include "util/list.h"
#if KIND == 1
typedef struct LIST_ListD L; typedef struct LIST_LinkD K;
#define DBL 1
#define CNT 0
#elif KIND == 2
typedef struct LIST_ListDC L; typedef struct LIST_LinkD K;
#define DBL 1
#define CNT 1
#elif KIND == 3
typedef struct LIST_ListS L; typedef struct LIST_LinkS K;
#define DBL 0
#define CNT 0
#else
typedef struct LIST_ListSC L; typedef struct LIST_LinkS K;
#define DBL 0
#define CNT 1
#endif
#define N 7
#ifndef SUB
#define SUB ND_RANGE(0, DBL ? 4 : 3)
#endif
struct elem { uint8_t before; K link; uint8_t after; };
static struct elem node[2 * N];
struct seq { unsigned n; unsigned at[2 * N]; unsigned gap[2 * N]; size_t tot; };     /* gap: 0 = adjacent to the next one */
static L A, B;
static struct seq a, b, r, q;
static K *poisonN(unsigned g) { return (K *)(uintptr_t)(0x1000 * g); }
static K *poisonP(unsigned g) { return (K *)(uintptr_t)(0x1000 * g + 0x800); }
static size_t total(const struct seq *s) { return s->tot; }
static K *lk(const struct seq *s, unsigned i) { return &node[s->at[i]].link; }
/* an arbitrary list of the given elements */
static void gen(L *l, struct seq *s, unsigned first, unsigned max)
{
	K *end = LIST_end(l);
	bool g = false;
	s->n = ND_RANGE(0, max);
	for (unsigned i = 0; i < s->n; ++i) {
		s->at[i] = first + i;
		s->gap[i] = GAPS && i + 1 < s->n && ND_BOOL() ? first + i + 1 : 0;
		if (s->gap[i]) g = true;
	}
	s->tot = s->n;
	if (g) { s->tot = ND_U64(); ASSUME(s->tot > s->n); }
	K *p = end;
	for (unsigned i = 0; i < s->n; ++i) {
		K *k = lk(s, i);
		if (i == 0 || !s->gap[i - 1]) { p->next = k;
#if DBL
			k->prev = p;
#endif
		} else { p->next = poisonN(s->gap[i - 1]);
#if DBL
			k->prev = poisonP(s->gap[i - 1]);
#endif
		}
		p = k;
	}
	p->next = end;
#if DBL
	end->prev = p;
#else
#if KIND == 3
	l->tail = p;
#else
	l->listS.tail = p;
#endif
#endif
#if CNT
	l->length = total(s);
#endif
#if KIND == 2
	l->tainted = TAINT ? ND_BOOL() : false;
	if (l->tainted) l->length = ND_U64();
#endif
}
static void wf(L *l, const struct seq *s)
{
	K *end = LIST_end(l);
	K *p = end;
	for (unsigned i = 0; i < s->n; ++i) {
		K *k = lk(s, i);
		if (i == 0 || !s->gap[i - 1]) { CHECK(p->next == k, "successor");
#if DBL
			CHECK(k->prev == p, "predecessor");
#endif
		} else { CHECK(p->next == poisonN(s->gap[i - 1]), "successor");
#if DBL
			CHECK(k->prev == poisonP(s->gap[i - 1]), "predecessor");
#endif
		}
		p = k;
	}
	CHECK(p->next == end, "the last element is followed by the end");
#if DBL
	CHECK(end->prev == p, "the tail is the last element");
#elif KIND == 3
	CHECK(l->tail == p, "the tail is the last element");
#else
	CHECK(l->listS.tail == p, "the tail is the last element");
#endif
	CHECK(LIST_empty(l) == (s->n == 0), "emptiness");
#if KIND == 2
	CHECK(l->tainted || l->length == total(s), "length");
	CHECK(TAINT || !l->tainted, "the length is known");
#elif CNT
	CHECK(LIST_length(l) == total(s), "length");
#endif
}
static void insert(struct seq *s, unsigned pos, unsigned nd)
{
	for (unsigned i = s->n; i > pos; --i) { s->at[i] = s->at[i - 1]; s->gap[i] = s->gap[i - 1]; }
	s->at[pos] = nd; s->gap[pos] = 0; ++s->n; ++s->tot;
}
static void erase(struct seq *s, unsigned pos)
{
	--s->n; --s->tot;
	for (unsigned i = pos; i < s->n; ++i) { s->at[i] = s->at[i + 1]; s->gap[i] = s->gap[i + 1]; }
}
static void append(struct seq *s, const struct seq *t, unsigned from, unsigned to)
{
	for (unsigned i = from; i < to; ++i, ++s->n) { s->at[s->n] = t->at[i]; s->gap[s->n] = t->gap[i]; }
	if (s->n) s->gap[s->n - 1] = 0;
}
/* a position whose neighbours are materialised */
static unsigned pos(const struct seq *s)
{
	unsigned p = ND_RANGE(0, N);
	ASSUME(p < s->n);
	ASSUME(p == 0 || !s->gap[p - 1]);
	ASSUME(!s->gap[p]);
	return p;
}
static K saved[2 * N];
static void bystander(unsigned n) { CHECK(node[n].link.next == saved[n].next, "an element not involved is untouched"); }
int main(void)
{
	struct elem *x = &node[2 * N - 1], *y = &node[2 * N - 2];
	uint8_t W0 = ND_U8(), W1 = ND_U8();
	for (unsigned i = 0; i < 2 * N; ++i) { node[i].before = W0; node[i].after = W1; }
	saved[2 * N - 2] = y->link;
#if KIND == 2
	B.tainted = ND_BOOL(); B.length = ND_U64();
#endif
	gen(&A, &a, 0, AMAX);
#if OP == 0	/* adding and removing at the ends, initialisation */
	r = a;
	switch (SUB) {
	case 0: LIST_push(&A, &x->link); insert(&r, r.n, 2 * N - 1); break;
	case 1: LIST_unshift(&A, &x->link); insert(&r, 0, 2 * N - 1); break;
	case 2: {
		ASSUME(a.n == 0 || !a.gap[0]);
		K *k = LIST_shift(&A);
		CHECK(k == (a.n ? lk(&a, 0) : LIST_end(&A)), "the first element is shifted");
		CHECK(a.n == 0 || LIST_itemSafe(&A, k, struct elem, link) == &node[a.at[0]], "item of a link");
		if (a.n) erase(&r, 0);
		else CHECK(LIST_itemSafe(&A, k, struct elem, link) == NULL, "no item at the end");
		break; }
	case 3: LIST_init(&A); r.n = 0; r.tot = 0; break;
#if DBL
	case 4: {
		ASSUME(a.n < 2 || !a.gap[a.n - 2]);
		K *k = LIST_pop(&A);
		CHECK(k == (a.n ? lk(&a, a.n - 1) : LIST_end(&A)), "the last element is popped");
		if (a.n) { erase(&r, a.n - 1); if (r.n) r.gap[r.n - 1] = 0; }
		break; }
#endif
	}
	wf(&A, &r);
#elif OP == 1 && DBL	/* inserting and unlinking anywhere */
	r = a;
	if (SUB == 0) {
		unsigned p = pos(&a);
		LIST_unlink(&A, lk(&a, p));
		erase(&r, p);
	} else if (SUB == 1) {
		LIST_insert(&A, LIST_end(&A), &x->link);
		insert(&r, r.n, 2 * N - 1);
	} else {
		unsigned p = pos(&a);
		LIST_insert(&A, lk(&a, p), &x->link);
		insert(&r, p, 2 * N - 1);
	}
	wf(&A, &r);
#elif OP == 2	/* joining */
	gen(&B, &b, N, BMAX);
	if (ND_BOOL()) { LIST_concatenatePush(&A, &B); append(&r, &a, 0, a.n); append(&r, &b, 0, b.n); r.tot = a.tot + b.tot; }
	else { LIST_concatenateUnshift(&A, &B); append(&r, &b, 0, b.n); append(&r, &a, 0, a.n); r.tot = a.tot + b.tot; }
	wf(&A, &r);
	wf(&B, &q);
	REACH("joined");
#elif OP == 3 && DBL	/* splitting */
	unsigned p;
	K *pivot;
	if (ND_BOOL()) { p = a.n; pivot = LIST_end(&A); }
	else { p = pos(&a); pivot = lk(&a, p); REACH("split at an element"); }
	if (ND_BOOL()) {
#if KIND == 2	/* the new list is counted */
		for (unsigned i = p; i + 1 < a.n; ++i) ASSUME(!a.gap[i]);
		if (A.tainted) for (unsigned i = 0; i + 1 < a.n; ++i) ASSUME(!a.gap[i]);
#endif
		LIST_separateFrom(&A, &B, pivot);
		append(&r, &a, 0, p); append(&q, &a, p, a.n);
		q.tot = q.n; r.tot = a.tot - q.n;
	} else {
#if KIND == 2
		for (unsigned i = 0; i < p; ++i) ASSUME(!a.gap[i]);
		if (A.tainted) for (unsigned i = 0; i + 1 < a.n; ++i) ASSUME(!a.gap[i]);
#endif
		LIST_separateUntil(&A, &B, pivot);
		append(&r, &a, p, a.n); append(&q, &a, 0, p);
		q.tot = q.n; r.tot = a.tot - q.n;
	}
	wf(&A, &r); wf(&B, &q);
#if KIND == 2
	CHECK(!A.tainted && !B.tainted, "both lengths are known");
	if (TAINT && r.n == 2 && q.n == 2) REACH("split");
#endif
#elif OP == 3 || OP == 1
	wf(&A, &a);
#elif OP == 4	/* walking: counting, indexing, iteration */
	unsigned i = 0;
	K *l, *n;
	LIST_foreach(&A, l) { CHECK(i < a.n && l == lk(&a, i), "iteration visits the elements in order"); ++i; }
	CHECK(i == a.n, "iteration visits all elements"); i = 0;
	struct elem *e;
	LIST_foreachItem(&A, e, link) { CHECK(i < a.n && e == &node[a.at[i]], "iteration visits the items in order"); ++i; }
	CHECK(i == a.n, "iteration visits all items");
	unsigned p = ND_RANGE(0, AMAX);
	ASSUME(p <= a.n);
	CHECK(LIST_at(&A, p) == (p < a.n ? lk(&a, p) : LIST_end(&A)), "element at an index");
	CHECK(LIST_begin(&A) == (a.n ? lk(&a, 0) : LIST_end(&A)), "first element");
	if (p < a.n) {
		l = LIST_forward(lk(&a, p), a.n - p);
		CHECK(l == LIST_end(&A), "forward");
		e = &node[a.at[p]]; i = p + 1;
		LIST_foreachItem_continue(&A, e, link) { CHECK(i < a.n && e == &node[a.at[i]], "continued iteration"); ++i; }
		CHECK(i == a.n, "continued iteration visits the rest");
	}
#if CNT
	CHECK(LIST_length(&A) == a.n, "length");
	wf(&A, &a);
#endif
#if DBL
	CHECK(LIST_beginRev(&A) == (a.n ? lk(&a, a.n - 1) : LIST_end(&A)), "last element");
	i = a.n;
	LIST_foreachItemRev(&A, e, link) { CHECK(i > 0 && e == &node[a.at[i - 1]], "reverse iteration visits the items in reverse order"); --i; }
	CHECK(i == 0, "reverse iteration visits all items");
	i = a.n;
	K *link;
	LIST_foreachRev(&A, link) { CHECK(i > 0 && link == lk(&a, i - 1), "reverse iteration"); --i; }
	CHECK(i == 0, "reverse iteration visits all elements");
	if (p < a.n) { l = LIST_rewind(lk(&a, p), p + 1); CHECK(l == LIST_end(&A), "rewind"); }
	/* removing while iterating */
	i = 0;
	LIST_foreachSafe(&A, l, n) {
		CHECK(i < a.n && l == lk(&a, i), "safe iteration");
		if (ND_BOOL()) { LIST_unlink(&A, l); l->next = l->prev = NULL; }
		else { append(&r, &a, i, i + 1); ++r.tot; }
		++i;
	}
	CHECK(i == a.n, "safe iteration visits all elements");
	wf(&A, &r);
#endif
	REACH("walked");
#elif OP == 5	/* a list from a vector */
	a.n = a.tot = ND_RANGE(0, AMAX);
	for (unsigned i = 0; i < a.n; ++i) { a.at[i] = i; a.gap[i] = 0; }
	LIST_fromVector(&A, node, link, a.n);
	wf(&A, &a);
	REACH("vector");
#endif
	CHECK(y->link.next == saved[2 * N - 2].next, "an element not involved is untouched");
	unsigned w = ND_RANGE(0, 2 * N - 1);
	CHECK(node[w].before == W0 && node[w].after == W1, "the items themselves are untouched");
#if OP < 2
	if (a.n > 2) REACH("several elements");
#endif
	REACH("end");
	return 0;
}
