// The state of the process that hosts the library: what the host may have set up in its own way, and what calls must leave alone.
#include "sim.h"
#include "host.h"
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fenv.h>
#include <iostream>
#include <locale>
#include <new>
#include <sched.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern char **environ;
static char randbuf[128];
static int outs[2] = {-1, -1};

namespace {
struct Comma : std::numpunct<char> {
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
};
struct Odd : std::numpunct<char> { // no grouping of groups, other names of truth
	char do_decimal_point() const override { return '_'; }
	std::string do_truename() const override { return "wahr"; }
};
void on_signal(int) {}
}

void host_init()
{
	for (int i = 0; i < 2; i++) {
		outs[i] = syscall(SYS_memfd_create, "std", 0);
		dup2(outs[i], i + 1);
	}
	initstate(12345, randbuf, sizeof randbuf);
}
void host_apply(uint64_t h)
{
	if (!h)
		return;
	switch (h % 4) {
	case 0:
	case 1: std::locale::global(std::locale(std::locale::classic(), new Comma)); break;
	case 2: std::locale::global(std::locale(std::locale::classic(), new Odd)); break;
	}
	h >>= 2;
	if (h & 1)
		setlocale(LC_ALL, "C.utf8");
	if (h & 2) {
		std::cout << std::hex << std::showpos << std::showbase << std::uppercase;
		std::cout.precision(2);
		std::cout.fill('*');
		std::cerr << std::fixed;
		std::cerr.precision(1);
		std::clog << std::scientific << std::oct;
	}
	if (h & 4) {
		setenv("LC_ALL", "de_DE.UTF-8", 1);
		setenv("LC_NUMERIC", "fr_FR", 1);
		setenv("OMP_NUM_THREADS", "3", 1);
		setenv("TMPDIR", "/nonexistent", 1);
		setenv("HOME", "/nonexistent", 1);
	}
	if (h & 8)
		clearenv();
	if (h & 16) {
		signal(SIGPIPE, SIG_IGN);
		signal(SIGFPE, on_signal);
		signal(SIGUSR1, on_signal);
		sigset_t s;
		sigemptyset(&s);
		sigaddset(&s, SIGTERM);
		sigaddset(&s, SIGUSR2);
		sigprocmask(SIG_BLOCK, &s, nullptr);
	}
	if (h & 32)
		umask(0777);
	if (h & 64)
		if (chdir("/"))
			umask(0777);
	if (h & 128) {
		srandom(99);
		for (int i = 0; i < 7; i++)
			random();
	}
}
void host_before(uint64_t h, int opid)
{
	if (!h)
		return;
	uint64_t k = mix64(h, opid);
	static const int en[] = {0, EINTR, ERANGE, ENOSPC, EAGAIN, ENOENT};
	feclearexcept(FE_ALL_EXCEPT);
	if (k & 1)
		feraiseexcept(FE_DIVBYZERO | FE_INEXACT | FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW);
	errno = en[(k >> 1) % 6];
}

static void io(HostState &s, const char *n, std::ios &o)
{
	s.v[std::string(n) + ": formatting or state"] = fmt("%d %d %d %d %p %d %d %p %s", (int)o.flags(), (int)o.precision(), (int)o.fill(), (int)o.width(), (void *)o.rdbuf(), (int)o.exceptions(), (int)o.rdstate(),
	                                      (void *)o.tie(), o.getloc() == std::locale::classic() ? "classic" : "other");
}
HostState host_state()
{
	HostState s;
	static const char *nm[] = {"standard output", "standard error"};
	fflush(stdout);
	fflush(stderr);
	std::cout.flush(), std::cerr.flush(), std::clog.flush(), std::wcout.flush(), std::wcerr.flush();
	for (int i = 0; i < 2; i++) {
		struct stat st, sd;
		if (fstat(outs[i], &st))
			st.st_size = -1;
		if (fstat(i + 1, &sd))
			sd.st_ino = 0;
		s.v[nm[i]] = fmt("%ld bytes, %ld", (long)st.st_size, (long)sd.st_ino);
	}
	struct stat s0;
	s.v["standard input"] = fstat(0, &s0) ? "closed" : fmt("%ld", (long)s0.st_ino);
	s.v["buffering of the standard streams"] = fmt("%d %d %d %zu %zu %zu", __flbf(stdin), __flbf(stdout), __flbf(stderr), __fbufsize(stdin), __fbufsize(stdout), __fbufsize(stderr));
	char cwd[4096];
	s.v["working directory"] = getcwd(cwd, sizeof cwd) ? cwd : "?";
	mode_t m = umask(0);
	umask(m);
	s.v["file creation mask"] = fmt("%o", m);
	uint64_t h = 1;
	for (char **e = environ; e && *e; e++)
		for (char *c = *e; *c; c++)
			h = mix64(h, *c);
	s.v["environment"] = fmt("%llx", (unsigned long long)h);
	const char *l = setlocale(LC_ALL, nullptr);
	s.v["C locale"] = l ? l : "?";
	s.loc = std::locale();
	io(s, "cin", std::cin), io(s, "cout", std::cout), io(s, "cerr", std::cerr), io(s, "clog", std::clog);
	std::string sig;
	for (int i = 1; i < 65; i++) {
		struct sigaction a;
		memset(&a, 0, sizeof a);
		if (i == 32 || i == 33 || sigaction(i, nullptr, &a))
			continue;
		sig += fmt("%p %x ", (void *)a.sa_handler, (unsigned)a.sa_flags);
	}
	s.v["signal handling"] = sig;
	sigset_t b;
	sigemptyset(&b);
	pthread_sigmask(SIG_BLOCK, nullptr, &b);
	std::string bl;
	for (int i = 1; i < 65; i++)
		bl += sigismember(&b, i) == 1 ? '1' : '0';
	s.v["signal mask"] = bl;
	unsigned mx;
	unsigned short cw;
	__asm__ volatile("stmxcsr %0" : "=m"(mx));
	__asm__ volatile("fnstcw %0" : "=m"(cw));
	s.v["floating-point control"] = fmt("%x %x", mx & ~0x3fu, cw);
	std::string rl;
	for (int i = 0; i < RLIM_NLIMITS; i++) {
		struct rlimit r;
		if (!getrlimit((__rlimit_resource)i, &r))
			rl += fmt("%llx %llx ", (unsigned long long)r.rlim_cur, (unsigned long long)r.rlim_max);
	}
	s.v["resource limits"] = rl;
	cpu_set_t cs;
	CPU_ZERO(&cs);
	sched_getaffinity(0, sizeof cs, &cs);
	s.v["priority or processor affinity"] = fmt("%d %d", getpriority(PRIO_PROCESS, 0), CPU_COUNT(&cs));
	char name[32] = {0};
	prctl(PR_GET_NAME, name);
	s.v["process name or dumpability"] = fmt("%s %d", name, prctl(PR_GET_DUMPABLE));
	struct stat st;
	s.v["threads"] = stat("/proc/self/task", &st) ? "?" : fmt("%d", (int)st.st_nlink);
	s.v["new handler or terminate handler"] = fmt("%p %p", (void *)std::get_new_handler(), (void *)std::get_terminate());
	uint64_t rh = 1;
	for (char c : randbuf)
		rh = mix64(rh, (unsigned char)c);
	s.v["random sequence"] = fmt("%llx", (unsigned long long)rh);
	struct itimerval it;
	getitimer(ITIMER_VIRTUAL, &it);
	s.v["timers"] = fmt("%ld %ld", (long)it.it_value.tv_sec, (long)it.it_interval.tv_sec);
	return s;
}
std::string host_diff(const HostState &a, const HostState &b)
{
	for (auto &x : a.v) {
		auto y = b.v.find(x.first);
		if (y == b.v.end() || y->second != x.second)
			return x.first + " (" + x.second.substr(0, 80) + ", then " + (y == b.v.end() ? "" : y->second.substr(0, 80)) + ")";
	}
	if (!(a.loc == b.loc))
		return "global C++ locale";
	return "";
}
