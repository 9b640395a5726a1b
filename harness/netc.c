/* C15: connecting to a host: no socket but the returned one stays open. */
#include "stubs.h"
#include "util/net_common.h"
#include "util/port/socket.h"
#define NFD 6
static bool isOpen[NFD], conn[NFD]; static int nfd; static struct addrinfo ai[NHOST]; static union { struct sockaddr_in a; struct sockaddr_in6 b; } sa[NHOST];
static bool failRes; static unsigned nh, freed, gotten, tried[NHOST]; static uint16_t port;
uint32_t UTIL_randInt(uint32_t n) { CHECK(n > 0, "a positive bound"); uint32_t v = ND_U32(); 
#ifdef VERIF_NATIVE
	v %= n;
#endif
	ASSUME(v < n); return v; }
int vf_getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res)
{
	CHECK(hints->ai_socktype == SOCK_STREAM && hints->ai_protocol == IPPROTO_TCP, "a TCP connection");
	for (unsigned i = 0; i < NHOST; ++i) {
		if (i + 1 < NHOST && i + 1 < nh) ai[i].ai_next = &ai[i + 1];
		ai[i].ai_addr = (struct sockaddr *)&sa[i]; ai[i].ai_addrlen = sizeof sa[i];
		uint64_t k = vf_nd() % 3;
		ai[i].ai_family = k == 0 ? AF_INET : k == 1 ? AF_INET6 : AF_UNIX;
		ai[i].ai_socktype = SOCK_STREAM; ai[i].ai_protocol = IPPROTO_TCP;
	}
	*res = ai; ++gotten;     /* set in any case: keeps the length of the list a constant */
	if (ND_BOOL()) { failRes = true; return EAI_FAIL; }
	return 0;
}
void vf_freeaddrinfo(struct addrinfo *a) { CHECK(a == ai && freed == 0, "the address list is freed"); ++freed; }
const char *vf_inet_ntop(int af, const void *s, char *d, socklen_t n) { CHECK(n >= 46, "room for any address"); if (ND_BOOL()) return NULL; d[0] = 0; return d; }
int vf_socket(int f, int t, int p) { if (ND_BOOL() || nfd >= NFD) return -1; isOpen[nfd] = true; return 10 + nfd++; }
int vf_connect(int fd, const struct sockaddr *a, socklen_t n)
{
	unsigned i;
	for (i = 0; i < NHOST; ++i) if (a == (struct sockaddr *)&sa[i]) break;
	CHECK(i < nh && !freed, "connects to an address of the host");
	CHECK(i >= nh || ++tried[i] == 1, "each address is tried once");
	CHECK(ai[i].ai_family == AF_INET ? ((struct sockaddr_in *)a)->sin_port == __builtin_bswap16(port) : ((struct sockaddr_in6 *)a)->sin6_port == __builtin_bswap16(port), "to the given port");
	if (fd == -1) return -1;
	CHECK(fd >= 10 && fd < 10 + nfd && isOpen[fd - 10], "with an open socket");
	conn[fd - 10] = ND_BOOL();
	return conn[fd - 10] ? 0 : -1;
}
int vf_close(int fd) { if (fd != -1) { CHECK(fd >= 10 && fd < 10 + nfd && isOpen[fd - 10], "each socket is closed once"); isOpen[fd - 10] = false; } return 0; }
#define getaddrinfo vf_getaddrinfo
#define freeaddrinfo vf_freeaddrinfo
#define gai_strerror(x) ""
#define inet_ntop vf_inet_ntop
#define socket vf_socket
#define connect vf_connect
#define close vf_close
#ifdef VERIF_NATIVE
#include "util/net_common-posix.c"
#else
#include "gen_net_common.c"
#endif
int main(void)
{
	nh = NHOST; port = ND_U16();
	int fd = NETC_connect("X", "host", port);
	unsigned n = 0;
	for (int i = 0; i < NFD; ++i) { n += isOpen[i]; if (isOpen[i]) CHECK(fd == 10 + i && conn[i], "only the connected socket stays open, and is returned"); }
	CHECK(n == (fd >= 0), "failure is reported without a connection");
	CHECK(freed == gotten || failRes, "the address list is freed");
	if (fd < 0) { for (unsigned i = 0; i < nh; ++i) CHECK(failRes || ai[i].ai_family == AF_UNIX || tried[i], "all addresses are tried before giving up"); REACH("not connected"); }
	else REACH("connected");
	return 0;
}
