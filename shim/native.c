/* Native replay support: feeds the choices of a counterexample to the harness (VF_VALUES), or searches
 * for a failing input by random choices (VF_SEARCH=<seconds>), one child process per attempt. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#define MAXV (1 << 16)
int vf_main(void);
struct shared { uint64_t n; uint64_t vals[MAXV]; };
static struct shared *sh;
static uint64_t cur, total, rng;
static int searching, mode;
/* values worth trying often: framing bytes, type bytes, limits */
static const uint8_t bias[] = { 0x1a, 0x1a, 0x1a, '1', '2', '3', '4', '5', '6', '7', 0x10, 0x10, 0x03, 0x8f, 0xac, 0, 1, 2, 0x7f, 0x80, 0xff,
	'\n', '\r', '=', '[', ']', ';', '#', ' ', 'a', 'b', 'O', 'T' };
/* a harness may name the bytes its input is made of */
extern const uint8_t vf_bias[] __attribute__((weak));
extern const unsigned vf_nbias __attribute__((weak));
static uint8_t alpha[6]; static unsigned nalpha;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
uint64_t vf_nd(void)
{
	if (searching) {
		uint64_t v, r = rnd() >> 8;
		unsigned k = (r & 0xff) % 8;
		r = rnd() >> 8;
		if (mode == 1 && k < 6) k = 8;     /* framed input: a small alphabet */
		if (mode == 3 && k < 3) k = 8;
		if (mode == 2 && k < 4) k = 0;     /* small choices */
		switch (k) {
		case 0: v = r % 4; break;
		case 1: v = r % 16; break;
		case 2: case 3: v = bias[r % sizeof bias]; break;
		case 4: v = r & 0xff; break;
		case 8: v = alpha[r % nalpha]; break;
		case 5: v = rnd(); break;
		case 6: v = r & 1; break;
		default: v = (uint64_t)0 - (r % 4); break;
		}
		if (sh->n < MAXV) sh->vals[sh->n++] = v;
		return v;
	}
	return cur < total ? sh->vals[cur++] : (cur++, 0);
}
void vf_fail(const char *msg, const char *file, int line)
{
	fprintf(stderr, "REPLAY: obligation violated: %s (%s:%d)\n", msg, file, line);
	fflush(NULL);
	_exit(1);
}
int main(void)
{
	const char *f = getenv("VF_VALUES"), *s = getenv("VF_SEARCH"), *sd = getenv("VF_SEED");
	unsigned long long v;
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (!s) {
		FILE *fp = f ? fopen(f, "r") : NULL;
		while (fp && total < MAXV && fscanf(fp, "%llu", &v) == 1)
			sh->vals[total++] = v;
		if (fp) fclose(fp);
		return vf_main();
	}
	uint64_t seed = sd ? strtoull(sd, NULL, 10) : 1, runs = 0;
	time_t end = time(NULL) + atoi(s);
	signal(SIGPIPE, SIG_IGN);
	while (time(NULL) < end) {
		++seed; ++runs;
		sh->n = 0;
		fflush(NULL);
		pid_t c = fork();
		if (c == 0) {
			if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(77);
			searching = 1; mode = seed % 4;
			rng = seed * 0x9E3779B97F4A7C15ULL | 1;
			for (int i = 0; i < 8; ++i) rnd();
			nalpha = 2 + rnd() % 5;
			for (unsigned i = 0; i < nalpha; ++i)
				alpha[i] = &vf_nbias && rnd() % 4 ? vf_bias[rnd() % vf_nbias] : bias[rnd() % sizeof bias];
			alarm(2);
			_exit(vf_main());
		}
		int st = 0;
		waitpid(c, &st, 0);
		int bad = WIFEXITED(st) ? (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 66)
			: (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGFPE || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGILL);
		if (bad) {
			printf("FOUND runs=%llu\n", (unsigned long long)runs);
			for (uint64_t i = 0; i < sh->n; ++i) printf("%llu\n", (unsigned long long)sh->vals[i]);
			return 3;
		}
	}
	printf("NONE runs=%llu\n", (unsigned long long)runs);
	return 0;
}
