/* Native search only: threads as coroutines; every stub call is a scheduling point, the schedule is part of the input. */
#ifndef VF_CORO_H
#define VF_CORO_H
#ifdef VERIF_NATIVE
#include <ucontext.h>
#define CORO_MAX 8
static struct { ucontext_t c; bool done; void (*f)(void); } coro[CORO_MAX];
static ucontext_t coro_main;
static unsigned coro_n, coro_cur, coro_steps, coro_limit;
static void coro_tramp(void) { coro[coro_cur].f(); coro[coro_cur].done = true; while (1) setcontext(&coro_main); }
static void coro_spawn(void (*f)(void))
{
	unsigned i = coro_n++;
	getcontext(&coro[i].c);
	coro[i].c.uc_stack.ss_size = 1 << 17;
	coro[i].c.uc_stack.ss_sp = mmap(NULL, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	coro[i].c.uc_link = &coro_main;
	coro[i].f = f;
	makecontext(&coro[i].c, coro_tramp, 0);
}
static bool coro_on;
static void coro_yield(void) { if (coro_on) { unsigned me = coro_cur; swapcontext(&coro[me].c, &coro_main); } }
/* runs until all are done or the step limit is reached */
static void coro_run(unsigned limit)
{
	coro_on = true;
	for (coro_steps = 0; coro_steps < limit; ++coro_steps) {
		unsigned alive = 0, k;
		for (unsigned i = 0; i < coro_n; ++i) alive += !coro[i].done;
		if (!alive) break;
		k = vf_nd() % alive;
		for (coro_cur = 0; ; ++coro_cur) if (!coro[coro_cur].done && k-- == 0) break;
		swapcontext(&coro_main, &coro[coro_cur].c);
	}
	coro_on = false;
}
/* mutexes and conditions */
#define CORO_OBJ 16
static struct { void *m; int owner; } coro_mtx[CORO_OBJ];
static unsigned coro_gen;
static int *coro_owner(void *m)
{
	for (int i = 0; i < CORO_OBJ; ++i) {
		if (!coro_mtx[i].m) { coro_mtx[i].m = m; coro_mtx[i].owner = -1; }
		if (coro_mtx[i].m == m) return &coro_mtx[i].owner;
	}
	abort();
}
static void coro_lock(void *m)
{
	int *o = coro_owner(m);
	coro_yield();
	if (*o == (int)coro_cur) CHECK(0, "a lock is not taken twice by the same thread");
	while (*o >= 0) coro_yield();
	*o = coro_cur;
}
static void coro_unlock(void *m)
{
	int *o = coro_owner(m);
	CHECK(*o == (int)coro_cur, "only a taken lock is released");
	*o = -1;
	coro_yield();
}
static void *coro_waits[CORO_MAX];
static void coro_wait(void *c, void *m)
{
	int *o = coro_owner(m);
	CHECK(*o == (int)coro_cur, "waits with the lock held");
	*o = -1;
	coro_waits[coro_cur] = c;
	while (coro_waits[coro_cur]) { coro_yield(); if (vf_nd() % 64 == 63) coro_waits[coro_cur] = NULL; /* spurious */ }
	while (*o >= 0) coro_yield();
	*o = coro_cur;
}
static void coro_signal(void *c, bool all) { for (unsigned i = 0; i < coro_n; ++i) if (coro_waits[i] == c) { coro_waits[i] = NULL; if (!all) break; } }
#endif
#endif
