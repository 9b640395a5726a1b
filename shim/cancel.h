/* Thread cancellation: the handlers installed at a cancellation point are run innermost first and the thread ends.
 * As pthread_cleanup_push in C saves the context like setjmp, an automatic pointer which is not volatile may have
 * its value at the push again (C11 7.13.2.1); the frame pointers of the loops are passed to their handlers this way. */
#ifndef VF_CANCEL_H
#define VF_CANCEL_H
struct OPENSKY_RawFrame;
struct vf_handler { void (*f0)(void); void (*f1)(void *); void *arg; bool noarg, clobber; void *saved; };
static struct vf_handler vf_hs[4];
static unsigned vf_nh;
static bool vf_cancelled;
static void vf_push(void (*f0)(void), void (*f1)(void *), void *arg, bool noarg, bool clobber)
{
	CHECK(vf_nh < 4, "model: handlers");
	struct vf_handler *h = &vf_hs[vf_nh++];
	h->f0 = f0; h->f1 = f1; h->arg = arg; h->noarg = noarg; h->clobber = clobber;
	if (clobber) h->saved = *(void **)arg;
}
static void vf_cancel(void)
{
	vf_cancelled = true;
	while (vf_nh) {
		struct vf_handler *h = &vf_hs[--vf_nh];
		if (h->clobber && ND_BOOL()) *(void **)h->arg = h->saved;
		if (h->noarg) h->f0(); else h->f1(h->arg);
	}
}
#undef CLEANUP_PUSH
#undef CLEANUP_POP
#undef CLEANUP_POP0
#define VF_AUTO(arg) (__builtin_types_compatible_p(__typeof__(arg), struct OPENSKY_RawFrame **) || \
	__builtin_types_compatible_p(__typeof__(arg), const struct OPENSKY_RawFrame **))
#define CLEANUP_PUSH(fun, arg) do { __typeof__(arg) vf_clean_arg = (arg); \
	void (*vf_clean_0)(void) = (void (*)(void))(fun); void (*vf_clean_1)(__typeof__(arg)) = (void (*)(__typeof__(arg)))(fun); \
	(void)vf_clean_0; (void)vf_clean_1; (void)vf_clean_arg; \
	vf_push((void (*)(void))(fun), (void (*)(void *))(fun), (void *)(arg), __builtin_types_compatible_p(__typeof__(vf_clean_arg), void *), VF_AUTO(vf_clean_arg));
#define CLEANUP_POP() --vf_nh; __builtin_choose_expr(__builtin_types_compatible_p(__typeof__(vf_clean_arg), void *), \
	vf_clean_0(), vf_clean_1(vf_clean_arg)); } while (0)
#define CLEANUP_POP0() --vf_nh; } while (0)
#endif
