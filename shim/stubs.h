/* Assumed contracts shared by the harnesses: logging, process services. */
#ifndef VF_STUBS_H
#define VF_STUBS_H
#include "os.h"
#include "util/log.h"
/* LOG: no effect, except that level EMERG does not return (aborts the process) */
static int vf_emerg;
static int vf_log_calls;
static inline void vf_log(enum LOG_LEVEL l)
{
	if (l == LOG_LEVEL_EMERG) {
#ifdef VF_EMERG_FORBIDDEN
		CHECK(0, "the process must not abort here");
#endif
		vf_emerg = 1;
#ifdef VF_ON_EMERG
		VF_ON_EMERG
#endif
		VF_HALT();
	}
	if (vf_log_calls < 1000) ++vf_log_calls;
}
void LOG_logf(enum LOG_LEVEL level, const char *p, const char *f, ...) { (void)p; (void)f; vf_log(level); }
void LOG_log(enum LOG_LEVEL level, const char *p, const char *s) { (void)p; (void)s; vf_log(level); }
void LOG_flush() {}
void LOG_errno(enum LOG_LEVEL level, const char *p, const char *f, ...) { (void)p; (void)f; vf_log(level); }
void LOG_errno2(enum LOG_LEVEL level, int e, const char *p, const char *f, ...) { (void)e; (void)p; (void)f; vf_log(level); }
void LOG_errnet(enum LOG_LEVEL level, const char *p, const char *f, ...) { (void)p; (void)f; vf_log(level); }
#endif
