/* System headers first, then the OS entry points the code calls are renamed to
 * the assumed contracts (stubs) of the harness, in CBMC and in native replay. */
#ifndef VF_OS_H
#define VF_OS_H
#include <config.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include <limits.h>
#include <ctype.h>
#include <errno.h>
#include <endian.h>
#include <math.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <termios.h>
#include <poll.h>
#include <pthread.h>
#include <netdb.h>
#include <net/if.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "verif.h"
#include <assert.h>

/* cleanup handlers: run at the pop, as in normal (not cancelled) execution */
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(fn, a) { void (*vf_cl_fn)(void *) = (fn); void *vf_cl_arg = (a);
#define pthread_cleanup_pop(ex) if (ex) vf_cl_fn(vf_cl_arg); }

#define pthread_setcancelstate(a, b) vf_setcancelstate((a), (b))
#define pthread_setcanceltype(a, b) ((void)(a), 0)
#define pthread_testcancel() ((void)0)
#define pthread_setname_np(a, b) (0)
static inline int vf_setcancelstate(int s, int *o) { (void)s; if (o) *o = 0; return 0; }

#define pthread_mutex_lock vf_mutex_lock
#define pthread_mutex_trylock vf_mutex_trylock
#define pthread_mutex_unlock vf_mutex_unlock
#define pthread_mutex_init vf_mutex_init
#define pthread_mutex_destroy vf_mutex_destroy
#define pthread_cond_wait vf_cond_wait
#define pthread_cond_timedwait vf_cond_timedwait
#define pthread_cond_signal vf_cond_signal
#define pthread_cond_broadcast vf_cond_broadcast
#define pthread_cond_init vf_cond_init
#define pthread_create vf_thread_create
#define pthread_cancel vf_thread_cancel
#define pthread_join vf_thread_join
#define pthread_timedjoin_np vf_thread_timedjoin
#define pthread_detach vf_thread_detach
#define pthread_self vf_thread_self
#define pthread_equal vf_thread_equal
#define pthread_exit vf_thread_exit

int vf_mutex_lock(pthread_mutex_t *m);
int vf_mutex_trylock(pthread_mutex_t *m);
int vf_mutex_unlock(pthread_mutex_t *m);
int vf_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int vf_mutex_destroy(pthread_mutex_t *m);
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int vf_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t);
int vf_cond_signal(pthread_cond_t *c);
int vf_cond_broadcast(pthread_cond_t *c);
int vf_cond_init(pthread_cond_t *c, const pthread_condattr_t *a);
int vf_thread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
int vf_thread_cancel(pthread_t t);
int vf_thread_join(pthread_t t, void **r);
int vf_thread_timedjoin(pthread_t t, void **r, const struct timespec *ts);
int vf_thread_detach(pthread_t t);
pthread_t vf_thread_self(void);
int vf_thread_equal(pthread_t a, pthread_t b);
void vf_thread_exit(void *r);
#include "util/threads.h"
/* CLEANUP_PUSH as in the code's own variant without cleanup routines; handlers pushed with a NULL argument
 * take none (CBMC resolves function pointers by type) */
#undef CLEANUP_PUSH
#undef CLEANUP_POP
#undef CLEANUP_POP0
#define CLEANUP_PUSH(fun, arg) do { __typeof__(arg) vf_clean_arg = (arg); \
	void (*vf_clean_0)(void) = (void (*)(void))(fun); void (*vf_clean_1)(__typeof__(arg)) = (void (*)(__typeof__(arg)))(fun); \
	(void)vf_clean_0; (void)vf_clean_1; (void)vf_clean_arg;
#define CLEANUP_POP() __builtin_choose_expr(__builtin_types_compatible_p(__typeof__(vf_clean_arg), void *), \
	vf_clean_0(), vf_clean_1(vf_clean_arg)); } while (0)
#define CLEANUP_POP0() } while (0)
#endif
