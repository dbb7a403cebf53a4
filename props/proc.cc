// C14: execution of programs (src/util/proc.c, src/radarcape/tb-rshell.c, src/radarcape/tb-misc.c)
// execve is a stand-in that records its arguments: nothing is ever executed.
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cerrno>
#include <functional>
#include <poll.h>
#include <fcntl.h>
#include <cstdlib>
extern "C" {
#include "util/proc.h"
#include "radarcape/tb-rshell.h"
#include "radarcape/tb-misc.h"
bool FPGA_bbwhite;
char * MAIN_progName;
}
using namespace pbt;

struct Exec {
	pid_t pid, sid;
	int nargs, nenv;
	size_t total;
	char path[4096];
	char args[1 << 17];        // NUL-separated
	bool stdinNull;
	bool cwdRoot;
	mode_t mask;
};
struct Shared {
	volatile int done;         // number of recorded calls
	Exec e[6];
	int exitMode[6], exitValue[6]; // 0: execve fails; 1: exit status; 2: signal
	volatile int returned;     // a child returned from the function called
	volatile int cgroup;       // times the cgroup was escaped
};
static Shared * sh;
static unsigned forkFails;     // bit n: n-th fork (along the path from the daemon) fails
static int forks;
#ifdef WITH_SYSTEMD
static bool cgroupFails;
#endif
static std::string tasksFile; // the scratch directory depends on the process
static const std::string & tasks() { if (tasksFile.empty()) tasksFile = scratch() + "/tasks"; return tasksFile; }

extern "C" {
int __real_execve(const char *, char * const *, char * const *);
int __wrap_execve(const char * path, char * const argv[], char * const envp[])
{
	int n = sh->done;
	if (n >= 6) _exit(98);
	Exec & e = sh->e[n];
	snprintf(e.path, sizeof e.path, "%s", path);
	e.nargs = 0;
	e.total = 0;
	for (; argv[e.nargs]; ++e.nargs) {
		size_t l = strlen(argv[e.nargs]) + 1;
		if (e.total + l <= sizeof e.args) memcpy(e.args + e.total, argv[e.nargs], l);
		e.total += l;
	}
	e.nenv = 0;
	if (envp) while (envp[e.nenv]) ++e.nenv;
	struct stat st;
	e.stdinNull = fstat(0, &st) == 0 && S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 3);
	char cwd[64];
	e.cwdRoot = getcwd(cwd, sizeof cwd) && !strcmp(cwd, "/");
	e.mask = umask(022);
	e.pid = getpid();
	e.sid = getsid(0);
	++sh->done;
	if (sh->exitMode[n] == 0) { errno = ENOENT; return -1; }
	if (sh->exitMode[n] == 1) _exit(sh->exitValue[n]);
	signal(sh->exitValue[n], SIG_DFL);
	kill(getpid(), sh->exitValue[n]);
	_exit(0);
}
pid_t __real_fork();
pid_t __wrap_fork()
{
	if (forkFails >> forks++ & 1) { errno = EAGAIN; return -1; }
	return __real_fork();
}
#ifdef WITH_SYSTEMD
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * n, const char * mode)
{
	if (strncmp(n, "/sys/", 5)) return __real_fopen(n, mode);
	++sh->cgroup;
	if (cgroupFails) { errno = EACCES; return nullptr; }
	return __real_fopen(tasks().c_str(), mode);
}
FILE * __wrap_fopen64(const char * n, const char * mode) { return __wrap_fopen(n, mode); }
#endif
}

static void checkExec(const char * what, const std::vector<std::string> & argv, bool child, bool detached, int n = 0)
{
	const Exec & e = sh->e[n];
	REQUIRE(sh->done > n, "%s: %s was not executed", what, argv[0].c_str());
	REQUIRE(argv[0] == e.path, "%s: executed %s instead of %s", what, e.path, argv[0].c_str());
	REQUIRE((size_t)e.nargs == argv.size(), "%s: %d arguments, expected %zu", what, e.nargs, argv.size());
	std::string want;
	for (auto & a : argv) { want += a; want.push_back(0); }
	REQUIRE(want.size() == e.total && !memcmp(want.data(), e.args, want.size()), "%s: the arguments were not passed on unmodified: %s ...", what, e.args);
	REQUIRE(e.nenv == 0, "%s: environment is not empty", what);
	REQUIRE(child == (e.pid != getpid()), "%s: executed in the %s process", what, child ? "same" : "another");
	if (child) REQUIRE(e.stdinNull, "%s: the program can read the daemon's stdin", what);
	if (detached) REQUIRE(e.sid != getsid(0), "%s: not detached from the daemon's session", what);
}
// call it; afterwards all processes it started have ended
// other: exit status of another child which has already ended, or -1
static void call(const char * what, bool wait, int other, std::function<void()> fn)
{
	pid_t sibling = -1;
	if (other != -1) { // another child must not be mistaken for the program
		sibling = __real_fork();
		if (!sibling) _exit(other);
		siginfo_t si;
		while (waitid(P_PID, sibling, &si, WEXITED | WNOWAIT) == -1 && errno == EINTR) { }
		label("another child ended");
	}
	int p[2];
	if (pipe(p)) fail("pipe failed");
	pid_t self = getpid();
	fn();
	if (getpid() != self) { ++sh->returned; _exit(77); }
	close(p[1]);
	if (sibling != -1) waitpid(sibling, nullptr, 0);
	// no process is left to be waited for, unless it is still at work
	if (!wait) REQUIRE(waitpid(-1, nullptr, WNOHANG) == -1 && errno == ECHILD, "%s: a process is left behind (zombie)", what);
	struct pollfd f = { p[0], POLLIN, 0 };
	int r;
	while ((r = poll(&f, 1, 25000)) == -1 && errno == EINTR) { }
	REQUIRE(r == 1, "%s: a process started does not end", what);
	close(p[0]);
	while (wait && waitpid(-1, nullptr, 0) > 0) { }
	REQUIRE(!sh->returned, "%s: a second instance of the daemon (the child process) goes on", what);
}

static std::vector<std::string> genArgv(Gen & g)
{
	std::vector<std::string> v;
	v.push_back(g.pick<const char *>({ "/usr/bin/x", "/a", "/usr/bin/pacman" }));
	switch (g.weighted({ 3, 2, 2 })) {
	case 0: while (g.more(3)) { Bytes b = genBytes(g, g.small(0, 60)); std::string s(b.begin(), b.end()); for (auto & c : s) if (!c) c = '%'; v.push_back(s); } break;
	case 1: { // around the size of internal buffers
		size_t n = g.pick<size_t>({ 1000, 1024, 512, 256, 4096 }), used = v[0].size() + 1;
		while (used < n - 40 && g.chance(1, 2)) { size_t l = g.range(1, 200); if (used + l + 1 > n) break; v.push_back(std::string(l, 'a')); used += l + 1; }
		long d = (long)(n - used) + g.range(0, 12) - 6;
		if (d > 0) v.push_back(std::string(d, 'z'));
		if (g.chance(1, 3)) v.push_back(std::string(g.range(0, 5), 'y'));
		break; }
	default: { unsigned k = g.small(0, 200); for (unsigned i = 0; i < k; ++i) v.push_back(std::string(g.small(0, 30), 'q')); }
	}
	return v;
}

static void exec(Gen & g)
{
	if (!sh) sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	unsigned ops = 1 + g.small(0, 2);
	unsigned ok = 0;
	while (waitpid(-1, nullptr, WNOHANG) > 0) { }
	umask(g.pick<mode_t>({ 0, 022, 077 }));
	for (unsigned o = 0; o < ops; ++o) {
		sh->done = 0;
		sh->returned = sh->cgroup = 0;
		forks = 0;
		for (unsigned i = 0; i < 6; ++i) {
			sh->exitMode[i] = g.weighted({ 3, 4, 1 });
			sh->exitValue[i] = sh->exitMode[i] == 2 ? g.pick<int>({ SIGKILL, SIGTERM, SIGSEGV }) : g.chance(1, 2) ? 0 : g.range(0, 255);
		}
		auto outcome = [](int n) { return sh->exitMode[n] == 1 && sh->exitValue[n] == 0; };
#ifdef WITH_SYSTEMD
		size_t op = g.weighted({ 1, 0, 0, 2, 2, 3, 6 });
		cgroupFails = g.chance(1, 4);
		unlink(tasks().c_str());
#else
		size_t op = g.weighted({ 4, 3, 2, 3, 3 });
#endif
		forkFails = op != 1 && op != 2 && g.chance(1, 8) ? 1 : 0;
		if (op == 6 && g.chance(1, 4)) forkFails = 1 << g.range(0, 2);
		auto argv = genArgv(g);
		std::vector<char *> av;
		for (auto & a : argv) av.push_back(strdup(a.c_str()));
		av.push_back(nullptr);
		size_t total = 0;
		for (auto & a : argv) total += a.size() + 1;
		bool detached = false;
		int other = g.chance(1, 4) ? g.chance(1, 2) ? 0 : 3 : -1;
		if (other != -1) note("another child has ended with %d", other);
		switch (op) {
		case 0: { // synchronous execution
			note("execute and wait: %zu arguments, %zu bytes; exit mode %d %d, fork fails %d", argv.size(), total, sh->exitMode[0], sh->exitValue[0], forkFails);
			bool r = false;
			call("execute and wait", false, other, [&] { r = PROC_execAndReturn(av.data()); });
			bool want = !forkFails && outcome(0);
			REQUIRE(r == want, "synchronous execution reported %s", r ? "success" : "failure");
			if (!forkFails) { checkExec("execute and wait", argv, true, false); ++ok; }
			break; }
		case 1: // replace the process; the stand-in fails
			sh->exitMode[0] = 0;
			note("replace process: %zu arguments, %zu bytes", argv.size(), total);
			PROC_execRaw(av.data());
			checkExec("replace process", argv, false, false);
			++ok;
			break;
		case 2: { // restart
			sh->exitMode[0] = 0;
			static char name[64];
			snprintf(name, sizeof name, "/usr/bin/openskyd-%s", g.pick<const char *>({ "rc", "x y", "" }));
			MAIN_progName = name;
			FPGA_bbwhite = g.chance(1, 2);
			note("restart %s, white %d", name, FPGA_bbwhite);
			TB_restartDaemon((const uint8_t *)"");
			std::vector<std::string> want { name };
			if (!FPGA_bbwhite) want.push_back("--black");
			checkExec("restart", want, false, false);
			++ok;
			break; }
		case 3: // detached
			note("execute detached: %zu arguments, %zu bytes; exit mode %d, fork fails %d", argv.size(), total, sh->exitMode[0], forkFails);
			call("execute detached", false, other, [&] { PROC_forkAndExec(av.data()); });
			if (!forkFails) {
				checkExec("execute detached", argv, true, true);
				REQUIRE(sh->e[0].cwdRoot, "execute detached: working directory kept");
				REQUIRE((sh->e[0].mask & 022) == 022, "execute detached: files of the program can be writable for everybody (umask %03o)", sh->e[0].mask);
				detached = true;
				++ok;
			}
			break;
		case 4: { // reverse shell
			Bytes p = genBytes(g, 6);
			uint8_t * h = (uint8_t *)malloc(6); // exact size
			memcpy(h, p.data(), 6);
			note("reverse shell %s, fork fails %d", hex(p).c_str(), forkFails);
			call("reverse shell", false, other, [&] { TB_reverseShell(h); });
			free(h);
			if (!forkFails) {
				char addr[64];
				snprintf(addr, sizeof addr, "%u.%u.%u.%u:%u", p[0], p[1], p[2], p[3], p[4] << 8 | p[5]);
				REQUIRE((sh->e[0].mask & 022) == 022, "reverse shell: files of the program can be writable for everybody (umask %03o)", sh->e[0].mask);
				checkExec("reverse shell", { "/usr/bin/rcc", "-t", ":22", "-r", addr, "-n" }, true, true);
				detached = true;
				++ok;
			}
			break; }
#ifdef WITH_SYSTEMD
		case 5: // reboot
			note("reboot: exit mode %d, fork fails %d", sh->exitMode[0], forkFails);
			call("reboot", false, other, [&] { TB_rebootSystem((const uint8_t *)""); });
			if (!forkFails) {
				checkExec("reboot", { WITH_SYSTEMD "/systemctl", "reboot" }, true, true);
				detached = true;
				++ok;
			}
			break;
		case 6: { // upgrade
			note("upgrade: upgrade program %s, fork fails %d", outcome(0) ? "succeeds" : "fails", forkFails);
			call("upgrade", true, other, [&] { TB_upgradeDaemon((const uint8_t *)""); });
			int n = 0;
			if (!(forkFails & 3)) {
				checkExec("upgrade", { "/usr/bin/pacman", "--noconfirm", "--needed", "-Sy", "openskyd", "rcc" }, true, false, n++);
				if (outcome(0)) {
					// the outcome of reloading doesn't matter
					if (!(forkFails & 4)) checkExec("upgrade", { WITH_SYSTEMD "/systemctl", "daemon-reload" }, true, false, n++);
					checkExec("upgrade", { WITH_SYSTEMD "/systemctl", "restart", "openskyd" }, true, false, n++);
					label("upgraded");
				} else label("upgrade failed");
				++ok;
			}
			REQUIRE(sh->done == n, "upgrade: %d executions, expected %d", sh->done, n);
			break; }
#endif
		}
		if (op < 6) REQUIRE(sh->done == (forkFails ? 0 : 1), "%d executions, fork fails %d", sh->done, forkFails);
#ifdef WITH_SYSTEMD
		if (detached) {
			// leaves the control group of the daemon, not to be killed with it
			REQUIRE(sh->cgroup == 1, "the control group was escaped %d times", sh->cgroup);
			if (!cgroupFails) {
				std::string s;
				if (FILE * f = __real_fopen(tasks().c_str(), "r")) { char b[64]; size_t l = fread(b, 1, sizeof b, f); s.assign(b, l); fclose(f); }
				REQUIRE(s == std::to_string(sh->e[0].pid) + "\n", "process '%s' was moved to another control group instead of %d", s.c_str(), sh->e[0].pid);
			}
		}
#else
		(void)detached;
#endif
		for (auto a : av) free(a);
		forkFails = 0;
	}
	if (ok) nontrivial();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
#ifdef WITH_SYSTEMD
		{ "proc_systemd", exec, 4000, 100000, 1, 60,
			"reboots, upgrades, reverse shells and detached executions of the variant for systemd and pacman, exit statuses, signals, failing fork, exec and escape from the control group; non-trivial: at least one execution" },
#else
		{ "proc_exec", exec, 10000, 300000, 1, 60,
			"reverse shell addresses, restarts, synchronous and detached executions with argument vectors of any length, exit statuses, signals, failing fork and exec (execve is a recording stand-in); non-trivial: at least one execution" },
#endif
	});
}
