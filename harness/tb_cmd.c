/* C12: commands that start programs, for every payload. */
#include "stubs.h"
#include "fmt.h"
#include "util/proc.h"
#ifndef WITH_SYSTEMD
#define WITH_SYSTEMD "/usr/bin"
#endif
#ifndef WITH_PACMAN
#define WITH_PACMAN 1
#endif
char *MAIN_progName;
bool FPGA_bbwhite;
#define GUARD(k, m) GUARD_##k(m)
#if CMDLO == 0
#define GUARD_0(m) REACH(m)
#else
#define GUARD_0(m)
#endif
#if CMDHI == 3
#define GUARD_1(m) REACH(m)
#else
#define GUARD_1(m)
#endif
#define GUARD_2 GUARD_1
#define GUARD_3 GUARD_1
static uint8_t payload[8];
static unsigned cmd, step; static bool child, ended; static bool ok[3];
static bool eq(const char *a, const char *b)
{
	for (int i = 0; i < 32; ++i) { if (a[i] != b[i]) return false; if (!a[i]) return true; }
	return false;
}
static void args(char *const argv[], unsigned n, const char *const *want)
{
	for (unsigned i = 0; i < n; ++i) { CHECK(argv[i] != NULL, "all arguments given"); CHECK(eq(argv[i], want[i]), "exactly the documented program and arguments"); }
	CHECK(argv[n] == NULL, "no further arguments");
}
static void address(char *out)      /* dotted decimal address, colon, port: from the big-endian payload */
{
	unsigned o = 0;
	for (int i = 0; i < 5; ++i) {
		unsigned v = i < 4 ? payload[i] : payload[4] << 8 | payload[5];
		if (i) out[o++] = i == 4 ? ':' : '.';
		for (unsigned d = 10000; d; d /= 10) if (v >= d || d == 1) out[o++] = '0' + v / d % 10;
	}
	out[o] = 0;
}
const char *vf_ntop(int af, const void *src, char *dst, socklen_t size)
{
	const uint8_t *p = src;
	CHECK(af == AF_INET && size >= 16, "room for any address");
	VF_SNPRINTF(dst, size, "%d.%d.%d.%d", p[0], p[1], p[2], p[3]);
	return dst;
}
bool PROC_fork() { CHECK(step == 0 && cmd == 3, "only the upgrade forks by itself"); ++step; return child = ND_BOOL(); }
void PROC_execRaw(char *const argv[])
{
	const char *w[] = { MAIN_progName, "--black" };
	CHECK(cmd == 1 && step == 0, "a restart executes the daemon once");
	args(argv, FPGA_bbwhite ? 1 : 2, w);
	++step; GUARD(1, "restart");
}
void PROC_forkAndExec(char *const argv[])
{
	char a[24]; address(a);
	CHECK((cmd == 0 || cmd == 2) && step == 0, "one program is started");
	const char *rs[] = { "/usr/bin/rcc", "-t", ":22", "-r", a, "-n" }, *rb[] = { WITH_SYSTEMD "/systemctl", "reboot" };
	if (cmd == 0) { args(argv, 6, rs); GUARD(0, "shell"); } else { args(argv, 2, rb); GUARD(2, "reboot"); }
	++step;
}
bool PROC_execAndReturn(char *const argv[])
{
	const char *pm[] = { "/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc" }, *dr[] = { WITH_SYSTEMD "/systemctl", "daemon-reload" };
	CHECK(cmd == 3 && child && !ended, "upgrade runs in the child");
	if (step == 1) args(argv, 6, pm);
	else if (step == 2) { CHECK(ok[1], "continues only after a successful upgrade"); args(argv, 2, dr); }
	else CHECK(0, "no other program");
	return ok[step++] = ND_BOOL();
}
void PROC_execAndFinalize(char *const argv[])
{
	const char *rs[] = { WITH_SYSTEMD "/systemctl", "restart", "openskyd" };
	CHECK(cmd == 3 && child && !ended, "upgrade runs in the child");
	CHECK(step == 3 && ok[1], "restarts only after a successful upgrade");
	args(argv, 3, rs);
	GUARD(3, "upgraded");
	VF_HALT();     /* does not return */
}
void vf_exit(int rc) { CHECK(child, "the daemon itself is not terminated"); VF_HALT(); }
#undef _Exit
#define _Exit vf_exit
#define exit vf_exit
#define inet_ntop vf_ntop
#define snprintf VF_SNPRINTF
#define PFX PFX_misc
#include "radarcape/tb-misc.c"
#undef PFX
#define PFX PFX_rshell
#include "radarcape/tb-rshell.c"
#undef PFX
#undef exit
int main(void)
{
	static char name[4]; name[0] = ND_RANGE('a', 'z');
	MAIN_progName = name;
	FPGA_bbwhite = ND_BOOL();
	unsigned off = ND_RANGE(0, 1);      /* alignment does not matter */
	for (int i = 0; i < 6; ++i) payload[i] = ND_U8();
	uint8_t p[8]; for (int i = 0; i < 6; ++i) p[i + off] = payload[i];
	cmd = ND_RANGE(CMDLO, CMDHI);
	switch (cmd) {
	case 0: TB_reverseShell(p + off); break;
	case 1: TB_restartDaemon(p + off); break;
	case 2: TB_rebootSystem(p + off); break;
	case 3: TB_upgradeDaemon(p + off); break;
	}
	CHECK(step >= 1, "the command has its effect");
	CHECK(!child, "only the daemon itself continues after a command");
	return 0;
}
