// C26: FPGA and watchdog on simulated GPIO controllers (src/radarcape/{fpga,gpio,watchdog}.c)
#include "pbt.hh"
#include "stub_log.hh"
#include "sched.hh"
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <map>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <unistd.h>
#include <getopt.h>
#include <grp.h>
#include <pwd.h>
extern "C" {
#include "util/cfgfile.h"
#include "util/component.h"
#include "radarcape/gpio.h"
#include "radarcape/fpga.h"
#include "radarcape/watchdog.h"
}
using namespace pbt;
typedef std::vector<uint8_t> Bytes;

#include "board.hh"
static unsigned openFds()
{
	DIR * d = opendir("/proc/self/fd");
	unsigned n = 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

extern "C" {
int __real_open(const char *, int, ...);
int __wrap_open(const char * n, int f, ...)
{
	va_list ap;
	va_start(ap, f);
	int m = f & O_CREAT ? va_arg(ap, int) : 0;
	va_end(ap);
	if (strcmp(n, "/dev/mem")) return __real_open(n, f, m);
	REQUIRE((f & O_ACCMODE) == O_RDWR, "/dev/mem opened with flags %o", f);
	if (!memOpens) { errno = EACCES; return -1; }
	return memFd = __real_open("/dev/null", O_RDWR | O_CLOEXEC);
}
int __wrap_open64(const char * n, int f, ...) __attribute__((alias("__wrap_open")));
int __real_close(int);
int __wrap_close(int fd)
{
	if (fd >= 0 && fd == memFd) memFd = -1;
	return __real_close(fd);
}
int __wrap_usleep(useconds_t us) { vtime += us; return 0; }
int __wrap_nanosleep(const struct timespec * t, struct timespec *) { vtime += t->tv_sec * 1000000ll + t->tv_nsec / 1000; return 0; }
}

static void world(Gen & g) { boardReset(g); }
static bool gpioUp(Gen & g)
{
	unsigned fds = openFds();
	bool ok = true;
	if (g.chance(1, 12)) {
		if (g.chance(1, 3)) memOpens = false; else failAt = g.raw(3);
		note("GPIO fails (%s)", memOpens ? "mapping" : "opening");
		ok = false;
	}
	bool r = GPIO_comp.onConstruct();
	REQUIRE(r == ok, "GPIO construction returns %d", r);
	REQUIRE(openFds() == fds, "a file descriptor is left behind");
	for (int i = 0; i < 4; ++i) REQUIRE(mappedPage[i] == ok, "controller %d %s", i, ok ? "is not mapped" : "stays mapped");
	return ok;
}
static void gpioDown()
{
	mayWrite = nullptr;
	GPIO_comp.onDestruct();
	for (int i = 0; i < 4; ++i) REQUIRE(!mappedPage[i], "controller %d stays mapped", i);
}

// ---------------------------------------------------------------- single operations
static unsigned opPin; static int op;
static void gpioProp(Gen & g)
{
	world(g);
	if (!gpioUp(g)) { label("GPIO not available"); return; }
	mayWrite = [] (unsigned c, unsigned r, uint32_t v) {
		uint32_t bit = 1u << (opPin & 31);
		if (c != opPin >> 5) return false;
		if (op == 0) return r == SET && v == bit;
		if (op == 1) return r == CLEAR && v == bit;
		if (op == 2) return r == OE && v == (oe[c] & ~bit);
		if (op == 3) return r == OE && v == (oe[c] | bit);
		return false;
	};
	unsigned n = 0;
	do {
		++n;
		opPin = g.raw(127);
		op = g.raw(4);
		uint32_t bit = 1u << (opPin & 31);
		unsigned c = opPin >> 5;
		uint32_t l[4], o[4];
		memcpy(l, latch, sizeof l);
		memcpy(o, oe, sizeof o);
		switch (op) {
		case 0: GPIO_set(opPin); l[c] |= bit; break;
		case 1: GPIO_clear(opPin); l[c] &= ~bit; break;
		case 2: GPIO_setDirection(opPin, GPIO_DIRECTION_OUT); o[c] &= ~bit; break;
		case 3: GPIO_setDirection(opPin, GPIO_DIRECTION_IN); o[c] |= bit; break;
		case 4: {
			uint32_t v = (noise[c] & oe[c]) | (latch[c] & ~oe[c]);
			unsigned r = GPIO_read(opPin);
			REQUIRE(r == !!(v & bit), "pin %u read as %u, expected %u", opPin, r, !!(v & bit));
			break;
		}
		}
		note("%s %u", (const char *[]) { "set", "clear", "output", "input", "read" }[op], opPin);
		REQUIRE(!memcmp(l, latch, sizeof l) && !memcmp(o, oe, sizeof o), "pin %u: operation %d has not the expected effect", opPin, op);
	} while (g.more(40));
	if (n > 5) nontrivial();
	gpioDown();
}

// ---------------------------------------------------------------- FPGA
static void put(const std::string & path, const Bytes & b)
{
	int fd = __real_open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	REQUIRE(fd >= 0, "harness: %s", path.c_str());
	if (!b.empty()) { ssize_t r = write(fd, b.data(), b.size()); (void)r; }
	__real_close(fd);
}
static std::string longName(size_t n) // n characters, resolving to itself: a/././.../x
{
	std::string s = "long.rbf";
	while (s.size() + 2 <= n) s = "./" + s;
	if (s.size() < n) s = "./" + s.substr(1); // one more slash
	return s;
}
static void fpgaProp(Gen & g)
{
	world(g);
	static std::string home;
	if (home != scratch()) {
		home = scratch();
		mkdir((home + "/fw").c_str(), 0755);
		mkdir((home + "/fw/sub").c_str(), 0755);
		mkdir((home + "/fw/abs").c_str(), 0755);
		mkdir((home + "/abs").c_str(), 0755);
		mkdir((home + "/sub").c_str(), 0755);
		if (chdir(home.c_str())) fail("harness: chdir");
	}
	if (!gpioUp(g)) { label("GPIO not available"); return; }
	CFG_unregisterAll();
	FPGA_bbwhite = g.chance(1, 2);
	dev.b = boards[FPGA_bbwhite];
	mayWrite = fpgaPins;
	REQUIRE(FPGA_comp.onConstruct(), "construction failed");
	CFG_registerSection(FPGA_comp.config);
	CFG_loadDefaults();
	unsigned runs = 1 + g.small(0, 2), retried = 0, ok = 0;
	uint64_t budget = 3000; // bytes
	for (unsigned i = 0; i < runs; ++i) {
		// the file
		size_t len = g.weighted({ 6, 1 }) ? g.pick<size_t>({ 0, 1, 255, 256, 257 }) : g.small(1, 120);
		if (!g.weighted({ 1, 80 }) && g.size() > 50) len = g.range(4094, 4200);
		if (len > budget && i) len = 5;
		budget -= std::min<uint64_t>(budget, len);
		Bytes file(len);
		int style = g.raw(3);
		for (auto & b : file) b = style == 0 ? g.byte() : style == 1 ? 0xff : style == 2 ? 0 : g.pick<uint8_t>({ 1, 0x80, 0x7f, 0xfe });
		Bytes other(g.raw(20), 0x5a);
		std::string name;
		bool exists = true;
		unlink("fw/openskyd.rbf");
		unlink("fw/long.rbf");
		unlink("fw/sub/x.rbf");
		unlink((home + "/abs/a.rbf").c_str());
		switch (g.weighted({ 4, 2, 3, 2, 2, 2, 1, 2 })) {
		case 0: name = "openskyd.rbf"; put("fw/openskyd.rbf", file); break;
		case 1: name = "sub/x.rbf"; put("fw/sub/x.rbf", file); put("fw/openskyd.rbf", other); break;
		case 2: name = home + "/abs/a.rbf"; put(name, file); break;
		case 3: name = "/sub/x.rbf"; put("fw/sub/x.rbf", file); break; // absolute, only below FWDIR
		case 4: name = "none.rbf"; exists = false; break;
		case 5: name = longName(g.pick<size_t>({ 200, 255, 2000, 4000, 4090, 4091, 4092, 4093, 4094, 4095 })); put("fw/long.rbf", file);
			exists = name.size() + 3 < PATH_MAX;
			label("long name"); break;
		case 6: name = g.pick<const char *>({ "sub", "." }); exists = false; break; // a directory
		case 7: name = "/openskyd.rbf/none"; put("fw/openskyd.rbf", file); exists = false; break;
		}
		// files of the same name in the working directory are none of its business
		bool decoy = g.chance(1, 2);
		for (const char * n : { "openskyd.rbf", "sub/x.rbf", "none.rbf", "long.rbf" }) {
			unlink((home + "/" + n).c_str());
			if (decoy) put(home + "/" + n, Bytes(g.raw(20), 0xa5));
		}
		if (decoy) label("other files in the working directory");
		note("file %s, %zu bytes, %s board", name.size() > 100 ? ("(" + std::to_string(name.size()) + " characters)").c_str() : name.c_str(), len, FPGA_bbwhite ? "white" : "black");
		if (name.size() < 1500) {
			FILE * f = fopen("fpga.conf", "w");
			fprintf(f, "[FPGA]\nFile = %s\n", name.c_str());
			fclose(f);
			REQUIRE(CFG_readFile("fpga.conf", true, true, false), "configuration refused");
		} else CFG_setString("FPGA", "File", name.c_str());
		REQUIRE(CFG_check(), "configuration check failed");
		REQUIRE(*FPGA_comp.enabled, "not enabled");
		// the device
		Board b = dev.b;
		dev = Device();
		dev.b = b;
		dev.file = &file;
		dev.poweredUpDone = g.chance(1, 3);
		for (int k = 0; k < 3; ++k) {
			Attempt a {};
			a.kind = g.weighted({ 3, 1, 2, 1 });
			a.errorBit = len ? g.chance(1, 3) ? len * 8 - 1 : g.raw(len * 8 - 1) : 0;
			a.syncDelay = g.pick<int64_t>({ 0, 1, 49, 50, 100, 300 });
			a.doneDelay = g.pick<int64_t>({ 0, 1, 49, 50, 100, 300 });
			dev.plan.push_back(a);
			const char * ks[] = { "ok", "no sync", "error", "not done" };
			note("  attempt %d: %s, bit %llu, delays %lld %lld", k + 1, ks[a.kind], (unsigned long long)a.errorBit, (long long)a.syncDelay, (long long)a.doneDelay);
		}
		dev.present = true;
		dev.dclk = pinLevel(b.dclk);
		dev.nconf = dev.inReset = false;
		uint32_t nl[4];
		memcpy(nl, latch, sizeof nl);
		if (!pinLevel(b.nconf)) { dev.inReset = true; dev.resetAt = vtime; } // held in reset since power up
		bool preReset = dev.inReset;
		if (preReset) { dev.attempt = 1; }
		unsigned fds = openFds();
		bool r = FPGA_comp.onStart();
		dev.present = false;
		note("  -> %d after %zu attempts", r, dev.attempt);
		REQUIRE(openFds() == fds, "a file descriptor is left behind");
		REQUIRE(live.empty(), "the bitstream stays mapped after %s", r ? "success" : "failure");
		int first = -1;
		for (int k = 0; k < 3 && first < 0; ++k) if (dev.plan[k].kind == 0) first = k;
		if (!exists || !len) {
			REQUIRE(!r, "success without a bitstream");
			label("no bitstream");
			continue;
		}
		if (first >= 0) {
			REQUIRE(r, "failure after %zu attempts, though the device would have worked in attempt %d", dev.attempt, first + 1);
			REQUIRE(dev.success && (int)dev.attempt == first + 1, "success after %zu attempts, expected %d", dev.attempt, first + 1);
			REQUIRE(dev.bits.size() == len * 8, "%zu of %zu bits transferred", dev.bits.size(), len * 8);
			++ok;
			if (first) { ++retried; label("retried"); }
			label("success");
		} else {
			REQUIRE(!r, "success, but the device is not configured");
			REQUIRE(dev.attempt == 3, "gave up after %zu attempts", dev.attempt);
			label("failure");
		}
		if (len > 1) nontrivial();
	}
	if (g.chance(1, 10)) { // empty name
		CFG_setString("FPGA", "File", "");
		REQUIRE(!CFG_check(), "an empty file name is accepted");
		CFG_setBoolean("FPGA", "Configure", false);
		REQUIRE(CFG_check(), "an empty file name is refused although the FPGA is not to be configured");
		REQUIRE(!*FPGA_comp.enabled, "enabled although it is not to be configured");
	}
	gpioDown();
}

// ---------------------------------------------------------------- watchdog
static void wdProp(Gen & g)
{
	world(g);
	if (!gpioUp(g)) { label("GPIO not available"); return; }
	mayWrite = [] (unsigned c, unsigned r, uint32_t v) {
		if (c != 1) return false;
		if (r == OE) return v == (oe[1] & ~(1u << 28));
		return v == 1u << 28;
	};
	wdHigh = pinLevel(60);
	wdOn = true;
	wdPulses.clear();
	REQUIRE(!WD_comp.onConstruct || WD_comp.onConstruct(), "construction failed");
	unsigned starts = 1 + g.small(0, 2);
	for (unsigned i = 0; i < starts; ++i) {
		sched::reset(g, g.pick<unsigned>({ 1, 3, 10 }));
		int t = sched::spawn("watchdog", [] { WD_comp.main(); });
		wdPulses.clear();
		int64_t start = sched::now(), until = start + g.range(0, 400) * 1000000000ll;
		int noise = sched::spawn("noise", [&g] { while (true) sched::sleepFor("noise", g.range(0, 7000) * 1000000, true); });
		sched::run([&] {
			if (sched::steps() > 100000) fail("endless loop without time passing");
			return sched::now() > until; });
		int64_t last = start;
		for (int64_t p : wdPulses) {
			REQUIRE(p - last <= 30001000000ll, "no watchdog pulse for %.1f s", (p - last) / 1e9);
			last = p;
		}
		REQUIRE(sched::now() - last <= 38000000000ll, "no watchdog pulse since %.1f s", (sched::now() - last) / 1e9);
		if (wdPulses.size() > 2) nontrivial();
		for (int x : { t, noise }) {
			sched::cancel(x);
			uint64_t max = sched::steps() + 1000;
			sched::run([x, max] { if (sched::steps() > max) fail("a thread cannot be stopped"); return sched::ended(x); });
		}
		REQUIRE(!pinLevel(60), "the watchdog pin stays high");
	}
	note("%zu pulses", wdPulses.size());
	gpioDown();
}

#ifdef WDMAIN
// ---------------------------------------------------------------- stand-alone watchdog program
extern "C" int daemon_main(int, char **);
static long G_sysconf;
namespace {
struct Priv {
	bool root = true;
	bool pwd = false, grp = false; // the data bases know nobody
	int pwdErr = 0, grpErr = 0;
	unsigned uid = 0, gid = 0, pwUid, pwGid, grGid, groups;
	bool fails[3] = {};
	int setgroupsCalls = 0;
} pv;
}
extern "C" {
uid_t __wrap_getuid() { return pv.root ? 0 : 1000; }
uid_t __wrap_geteuid() { return pv.root ? 0 : 1000; }
int __wrap_getpwnam_r(const char * n, struct passwd * p, char * buf, size_t len, struct passwd ** res)
{
	REQUIRE(!strcmp(n, "nobody"), "user '%s' looked up", n);
	*res = nullptr;
	memset(buf, 0x5a, len);
	if (pv.pwdErr) return pv.pwdErr;
	if (!pv.pwd) return 0;
	p->pw_uid = pv.pwUid;
	p->pw_gid = pv.pwGid;
	*res = p;
	return 0;
}
int __wrap_getgrnam_r(const char * n, struct group * p, char * buf, size_t len, struct group ** res)
{
	REQUIRE(!strcmp(n, "nobody"), "group '%s' looked up", n);
	*res = nullptr;
	memset(buf, 0x5a, len);
	if (pv.grpErr) return pv.grpErr;
	if (!pv.grp) return 0;
	p->gr_gid = pv.grGid;
	*res = p;
	return 0;
}
static int priv(int i, const char * what)
{
	REQUIRE(pv.root && !pv.uid, "%s without being root", what);
	note("  %s%s", what, pv.fails[i] ? " fails" : "");
	if (pv.fails[i]) { errno = EPERM; return -1; }
	return 0;
}
int __wrap_setgroups(size_t n, const gid_t *)
{
	++pv.setgroupsCalls;
	if (priv(0, "setgroups")) return -1;
	pv.groups = n;
	return 0;
}
int __wrap_setgid(gid_t g) { if (priv(1, "setgid")) return -1; pv.gid = g; return 0; }
int __wrap_setuid(uid_t u) { if (priv(2, "setuid")) return -1; pv.uid = u; return 0; }
long __real_sysconf(int);
long __wrap_sysconf(int n) { return n == _SC_GETGR_R_SIZE_MAX || n == _SC_GETPW_R_SIZE_MAX ? G_sysconf : __real_sysconf(n); }
int __real_chdir(const char *);
int __wrap_chdir(const char * d) { return strcmp(d, "/tmp") ? __real_chdir(d) : 0; }
}
static void wdMainProp(Gen & g)
{
	world(g);
	pv = Priv();
	pv.root = g.chance(4, 5);
	pv.pwd = g.chance(2, 3); pv.grp = g.chance(1, 2);
	if (g.chance(1, 8)) pv.pwdErr = g.pick<int>({ ERANGE, EIO, ENOENT });
	if (g.chance(1, 8)) pv.grpErr = g.pick<int>({ ERANGE, EIO, ENOENT });
	pv.pwUid = g.range(1, 70000); pv.pwGid = g.range(1, 70000); pv.grGid = g.range(1, 70000);
	pv.groups = 3;
	G_sysconf = g.pick<long>({ -1, 1024, 1, 100000 });
	for (auto & f : pv.fails) f = g.chance(1, 12);
	bool mem = !g.chance(1, 8);
	if (!mem) { if (g.chance(1, 3)) memOpens = false; else failAt = g.raw(3); }
	bool usage = g.chance(1, 10);
	note("root %d, passwd %d (%d), group %d (%d), GPIO %s", pv.root, pv.pwd, pv.pwdErr, pv.grp, pv.grpErr, mem ? "available" : "fails");
	mayWrite = [] (unsigned c, unsigned r, uint32_t v) {
		REQUIRE(!pv.root || pv.fails[0] || !pv.groups, "the watchdog runs with the supplementary groups of root");
		REQUIRE(!pv.root || pv.fails[1] || pv.gid, "the watchdog runs with the group of root");
		REQUIRE(!pv.root || pv.fails[2] || pv.uid, "the watchdog runs as root");
		if (c != 1) return false;
		if (r == OE) return v == (oe[1] & ~(1u << 28));
		return v == 1u << 28;
	};
	wdHigh = pinLevel(60);
	wdOn = true;
	wdPulses.clear();
	sched::reset(g, 4);
	int64_t start = sched::now(), until = start + g.range(1, 400) * 1000000000ll;
	int rc = -1;
	int t = sched::spawn("main", [&] {
		char a0[] = "rc-wd", a1[] = "--help", a2[] = "-h";
		char * av[] = { a0, usage ? g.chance(1, 2) ? a1 : a2 : nullptr, nullptr };
		optind = 0;
		rc = daemon_main(usage ? 2 : 1, av);
	});
	sched::spawn("clock", [&] { sched::sleepFor("clock", until - start + 1000000000ll, false); });
	sched::run([&] {
		if (sched::steps() > 100000) fail("endless loop without time passing");
		return sched::ended(t) || sched::now() > until; });
	if (usage || !mem) {
		REQUIRE(sched::ended(t) && rc > 0, "the program %s although %s", sched::ended(t) ? "succeeds" : "goes on", usage ? "only usage was asked for" : "the pins are not accessible");
		REQUIRE(wdPulses.empty(), "the watchdog is served");
		if (usage) REQUIRE(!accesses && !mappedPage[0] && !pv.setgroupsCalls, "more than the usage");
		label(usage ? "usage" : "no GPIO");
	} else if (pv.root && (pv.fails[0] || pv.fails[1] || pv.fails[2]) && sched::ended(t)) {
		// refusing to run with privileges would be fine, too
		REQUIRE(rc > 0, "success reported");
		mayWrite = nullptr;
		if (mappedPage[0]) GPIO_comp.onDestruct();
	} else {
		REQUIRE(!sched::ended(t), "the watchdog program ended");
		int64_t last = start;
		for (int64_t p : wdPulses) {
			REQUIRE(p - last <= 30001000000ll, "no watchdog pulse for %.1f s", (p - last) / 1e9);
			last = p;
		}
		REQUIRE(sched::now() - last <= 38000000000ll, "no watchdog pulse since %.1f s", (sched::now() - last) / 1e9);
		REQUIRE(!wdPulses.empty(), "no watchdog pulse");
		if (pv.root) {
			unsigned u = pv.pwd && !pv.pwdErr ? pv.pwUid : 65534;
			unsigned gr = pv.grp && !pv.grpErr ? pv.grGid : pv.pwd && !pv.pwdErr ? pv.pwGid : 65534;
			REQUIRE(pv.fails[2] || pv.uid == u, "runs as user %u, nobody is %u", pv.uid, u);
			REQUIRE(pv.fails[1] || pv.gid == gr, "runs with group %u, nobody has %u", pv.gid, gr);
			nontrivial();
		}
		sched::cancel(t);
		sched::run([&] { return sched::ended(t); });
		mayWrite = nullptr;
		GPIO_comp.onDestruct();
	}
	REQUIRE(openFds() <= 64 && memFd < 0, "/dev/mem stays open");
}
#endif

int main(int argc, char ** argv)
{
	return run(argc, argv, {
#ifdef WDMAIN
		{ "c37_watchdog_program", wdMainProp, 20000, 600000, 100, 60, "the watchdog program for up to 400 s of virtual time with any user data bases, failing calls and inaccessible pins; every register access is trapped; nontrivial: started as root and served the watchdog" },
#else
		{ "c26_gpio", gpioProp, 4000, 60000, 200, 60, "random pin operations on all 128 pins with random register contents and failures of /dev/mem; every register access is trapped and compared; nontrivial: more than five operations" },
		{ "c26_fpga", fpgaProp, 700, 12000, 10, 120, "random bitstreams, names, boards and device behaviours (no sync, error at any bit, no completion, delays) in up to three starts, against a simulated device on the trapped registers; nontrivial: a bitstream of at least two bytes" },
		{ "c26_watchdog", wdProp, 1500, 20000, 100, 60, "watchdog thread for up to 400 s of virtual time in random schedules, stopped and started again; nontrivial: at least three pulses" },
#endif
	});
}
