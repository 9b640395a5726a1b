/* CBMC-side models (assumed contracts) of libc functions CBMC 6.11 has no
 * body for, or only an expensive one. Never compiled natively. */
#ifndef VERIF_NATIVE
#include <stddef.h>
#ifndef VF_BYTEWISE
void *memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = s;
	for (size_t i = 0; i < n; ++i)
		if (p[i] == (unsigned char)c)
			return (void *)(p + i);
	return (void *)0;
}
#endif
#ifdef VF_BYTEWISE
/* for harnesses that deliver input byte by byte: all block operations span at most one byte */
static void *vf_memchr1(const void *s, int c, size_t n)
{
	UNDECIDED(n <= 1, "memchr over more than one byte");
	return n == 1 && *(const unsigned char *)s == (unsigned char)c ? (void *)s : (void *)0;
}
static void *vf_memcpy1(void *d, const void *s, size_t n)
{
	UNDECIDED(n <= 1, "memcpy of more than one byte");
	if (n == 1) *(unsigned char *)d = *(const unsigned char *)s;
	return d;
}
#define memchr(s, c, n) vf_memchr1(s, c, n)
#define memcpy(d, s, n) vf_memcpy1(d, s, n)
#endif
#ifdef VF_MEMCPY_LOOP
void *memcpy(void *d, const void *s, size_t n)
{
	unsigned char *a = d; const unsigned char *b = s;
	for (size_t i = 0; i < n; ++i)
		a[i] = b[i];
	return d;
}
#endif
#endif
