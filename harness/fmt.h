/* Assumed contracts of snprintf (conversions %s %d %u %c and their length modifiers) and inet_ntop, executable in both modes. */
#ifndef VF_FMT_H
#define VF_FMT_H
#include <stdarg.h>
#include <stddef.h>
static size_t vf_putc(char *d, size_t n, size_t o, char c) { if (o + 1 < n) d[o] = c; return o + 1; }
static size_t vf_putu(char *d, size_t n, size_t o, unsigned long v)
{
	char t[20]; int k = 0;
	do { t[k++] = '0' + v % 10; v /= 10; } while (v);
	while (k) o = vf_putc(d, n, o, t[--k]);
	return o;
}
static int vf_snprintf(char *d, size_t n, const char *f, ...)
{
	va_list ap; size_t o = 0;
	va_start(ap, f);
	for (; *f; ++f) {
		if (*f != '%') { o = vf_putc(d, n, o, *f); continue; }
		++f;
		int l = 0;
		while (*f == 'h' || *f == 'l' || *f == 'z') { l += *f == 'l' || *f == 'z'; ++f; }
		if (*f == 's') { const char *s = va_arg(ap, const char *); for (; *s; ++s) o = vf_putc(d, n, o, *s); }
		else if (*f == 'u') o = vf_putu(d, n, o, l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned));
		else if (*f == 'd' || *f == 'i') {
			long v = l ? va_arg(ap, long) : va_arg(ap, int);
			if (v < 0) o = vf_putc(d, n, o, '-');
			o = vf_putu(d, n, o, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v);
		} else if (*f == 'c') o = vf_putc(d, n, o, (char)va_arg(ap, int));
		else if (*f == '%') o = vf_putc(d, n, o, '%');
		else { UNDECIDED(0, "snprintf conversion"); }
	}
	va_end(ap);
	if (n) d[o < n ? o : n - 1] = '\0';
	return (int)o;
}
/* CBMC does not promote variadic arguments: adding 0 does */
#define VF_A0(...)
#define VF_P1(a) , (a) + 0
#define VF_P2(a, ...) , (a) + 0 VF_P1(__VA_ARGS__)
#define VF_P3(a, ...) , (a) + 0 VF_P2(__VA_ARGS__)
#define VF_P4(a, ...) , (a) + 0 VF_P3(__VA_ARGS__)
#define VF_P5(a, ...) , (a) + 0 VF_P4(__VA_ARGS__)
#define VF_P6(a, ...) , (a) + 0 VF_P5(__VA_ARGS__)
#define VF_PN(_0, _1, _2, _3, _4, _5, _6, N, ...) N
#define VF_PROMOTE(...) VF_PN(0, ##__VA_ARGS__, VF_P6, VF_P5, VF_P4, VF_P3, VF_P2, VF_P1, VF_A0)(__VA_ARGS__)
#define VF_SNPRINTF(d, n, f, ...) vf_snprintf((d), (n), (f) VF_PROMOTE(__VA_ARGS__))
#endif
