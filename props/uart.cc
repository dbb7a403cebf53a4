// C34: the serial line adaptors of the receiver (src/radarcape/uart.c) and of the GPS
// (src/trimble/trimble_input_uart.c, -DTRIMBLE) on a real pseudo terminal
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <set>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#ifdef TRIMBLE
#include "trimble/trimble_input.h"
#define IN(x) TRIMBLE_INPUT_##x
#define PORT "/dev/ttyS2"
#define SPEED B115200
#else
#include "radarcape/rc-input.h"
#define IN(x) RC_INPUT_##x
#define PORT "/dev/ttyS5"
#define SPEED B3500000
#endif
}
using namespace pbt;

static const tcflag_t CTL = CSIZE | PARENB | PARODD | CSTOPB;

namespace {
struct World {
	Gen * g = nullptr;
	int master = -1, probe = -1; // probe: slave kept open by the harness
	std::string slave;
	bool inConnect = false, attempt = false;
	unsigned failOpen = 0, failGet = 0, failSet = 0, failWrite = 0;
	unsigned attempts = 0, fails = 0;
	int64_t vnow = 1000, lastFail = -1;
	std::set<int> open;
	std::set<int> everOpen;
	int fd = -1;                 // of the last attempt
	unsigned polls = 0; bool hangup = false;
	std::atomic<bool> spinning { false };
	tcflag_t ctl = CS8;
	Bytes preSpeed, postSpeed;   // sent before and after the line was switched
	bool eagain = false; // the line delivers nothing for some reads
	unsigned shortReads = 0;
} w;
}
extern "C" {
int __real_open(const char *, int, ...);
int __real_close(int);
static int doOpen(const char * path, int flags, int mode)
{
	if (strcmp(path, PORT)) {
		REQUIRE(strncmp(path, "/dev/tty", 8), "'%s' opened instead of '%s'", path, PORT);
		return __real_open(path, flags, mode);
	}
	REQUIRE(w.inConnect, "line opened without being asked to");
	REQUIRE((flags & O_ACCMODE) == O_RDWR, "line not opened for reading and writing");
	REQUIRE(w.open.empty(), "line opened again while it is open");
	if (w.lastFail >= 0) {
		REQUIRE(w.vnow - w.lastFail >= 1, "next attempt immediately after a failed one");
		REQUIRE(w.vnow - w.lastFail <= 60, "next attempt only %lld s after a failed one", (long long)(w.vnow - w.lastFail));
	}
	w.lastFail = -1;
	++w.attempts;
	if (w.failOpen) { --w.failOpen; ++w.fails; w.lastFail = w.vnow; errno = w.g->pick<int>({ ENOENT, EACCES, EIO, EBUSY }); return -1; }
	int fd = __real_open(w.slave.c_str(), flags, mode);
	if (fd < 0) fail("harness: cannot open %s: %s", w.slave.c_str(), strerror(errno));
	if (w.g->chance(1, 2)) { // other descriptors have been opened meanwhile
		int other = fcntl(fd, flags & O_CLOEXEC ? F_DUPFD_CLOEXEC : F_DUPFD, (int)w.g->range(30, 90));
		if (other >= 0) { __real_close(fd); fd = other; }
	}
	w.open.insert(fd);
	w.everOpen.insert(fd);
	w.fd = fd;
	return fd;
}
int __wrap_open(const char * path, int flags, int mode) { return doOpen(path, flags, mode); }
int __wrap_open64(const char * path, int flags, int mode) { return doOpen(path, flags, mode); }
int __real_close(int);
int __wrap_close(int fd)
{
	if (w.everOpen.count(fd)) { REQUIRE(w.open.count(fd), "line closed twice"); w.open.erase(fd); w.everOpen.erase(fd); }
	return __real_close(fd);
}
int __real_tcgetattr(int, struct termios *);
int __wrap_tcgetattr(int fd, struct termios * t)
{
	if (w.inConnect && w.open.count(fd) && w.failGet) { --w.failGet; ++w.fails; w.lastFail = w.vnow; errno = EIO; return -1; }
	int rc = __real_tcgetattr(fd, t);
	if (!rc && w.open.count(fd)) t->c_cflag = (t->c_cflag & ~CTL) | w.ctl;
	return rc;
}
int __real_tcsetattr(int, int, const struct termios *);
int __wrap_tcsetattr(int fd, int a, const struct termios * t)
{
	if (w.inConnect && w.open.count(fd)) {
		if (w.failSet && w.g->chance(1, 2)) { --w.failSet; ++w.fails; w.lastFail = w.vnow; errno = EINVAL; return -1; }
		// what has been sent so far was sent with the old settings; note: waiting for the output is
		// pointless on a pseudo terminal
	}
	// pseudo terminals know neither parity nor word lengths
	struct termios r = *t;
	r.c_cflag = (r.c_cflag & ~CTL) | CS8;
	int rc = __real_tcsetattr(fd, a == TCSADRAIN ? TCSANOW : a, &r);
	if (!rc) w.ctl = t->c_cflag & CTL;
	return rc;
}
int __wrap_tcdrain(int fd) { REQUIRE(w.open.count(fd), "tcdrain on a closed line"); return 0; }
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void * b, size_t n)
{
	if (w.everOpen.count(fd) && w.inConnect) {
		if (w.failWrite) { --w.failWrite; ++w.fails; w.lastFail = w.vnow; if (w.g->chance(1, 2) && n > 1) return __real_write(fd, b, n / 2); errno = EIO; return -1; }
		struct termios t;
		__real_tcgetattr(fd, &t);
		auto & to = cfgetospeed(&t) == SPEED ? w.postSpeed : w.preSpeed;
		to.insert(to.end(), (const uint8_t *)b, (const uint8_t *)b + n);
	}
	return __real_write(fd, b, n);
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd * f, nfds_t n, int t)
{
	if (n == 1 && w.everOpen.count(f->fd)) {
		REQUIRE(w.open.count(f->fd), "poll on a closed line");
		REQUIRE(f->events & POLLIN, "not waiting for input");
		if (w.hangup && ++w.polls > 1000) {
			w.spinning = true;
			while (true) { struct timespec ts = { 0, 1000000 }; nanosleep(&ts, nullptr); } // until cancelled
		}
	}
	return __real_poll(f, n, t);
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void * b, size_t n)
{
	if (w.everOpen.count(fd)) {
		REQUIRE(w.open.count(fd), "read on a closed line");
		if (w.shortReads && n > 1) { --w.shortReads; n = std::min<size_t>(n, 1 + n % 7); }
	}
	return __real_read(fd, b, n);
}
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) { w.vnow += s; return 0; }
}
static void waitQueued(size_t n)
{
	// bytes written to the master reach the line asynchronously
	for (int i = 0; i < 5000; ++i) {
		int q = 0;
		ioctl(w.probe, FIONREAD, &q);
		if ((size_t)q >= n) return;
		struct timespec ts = { 0, 20000 };
		nanosleep(&ts, nullptr);
	}
	fail("harness: only some of %zu bytes arrived", n);
}
static void raw(int fd)
{
	struct termios t;
	__real_tcgetattr(fd, &t);
	cfmakeraw(&t);
	t.c_cc[VMIN] = 1;
	t.c_cc[VTIME] = 0;
	__real_tcsetattr(fd, TCSANOW, &t);
}
static void openPty()
{
	w.master = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (w.master < 0) discard("no pseudo terminal available");
	REQUIRE(!grantpt(w.master) && !unlockpt(w.master), "harness: no pseudo terminal");
	char name[128];
	REQUIRE(!ptsname_r(w.master, name, sizeof name), "harness: ptsname");
	w.slave = name;
	w.probe = __real_open(name, O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK);
	REQUIRE(w.probe >= 0, "harness: cannot open %s", name);
	fcntl(w.master, F_SETFL, O_NONBLOCK);
}
static void closePty()
{
	if (w.probe >= 0) __real_close(w.probe);
	if (w.master >= 0) __real_close(w.master);
	w.probe = w.master = -1;
}
static Bytes drain()
{
	Bytes r;
	uint8_t b[4096];
	ssize_t n;
	while ((n = __real_read(w.master, b, sizeof b)) > 0) r.insert(r.end(), b, b + n);
	return r;
}
// what another program has left behind
static void scramble(Gen & g)
{
	struct termios t;
	__real_tcgetattr(w.probe, &t);
	t.c_iflag = g.raw(0x3fff);
	t.c_oflag = g.chance(1, 2) ? OPOST | ONLCR : g.raw(0xff);
	t.c_lflag = g.raw(0xffff) & ~(EXTPROC | TOSTOP);
	t.c_cflag = (t.c_cflag & CBAUD) | CS8 | CREAD | (g.chance(1, 2) ? CRTSCTS : 0);
	w.ctl = (g.chance(1, 2) ? CS8 : CS7) | (g.chance(1, 2) ? PARENB : 0) | (g.chance(1, 2) ? PARODD : 0) | (g.chance(1, 2) ? CSTOPB : 0);
	cfsetispeed(&t, g.pick<speed_t>({ B9600, B115200, B38400 }));
	cfsetospeed(&t, cfgetispeed(&t));
	t.c_cc[VMIN] = g.pick<int>({ 1, 0 });
	t.c_cc[VTIME] = 0;
	__real_tcsetattr(w.probe, TCSANOW, &t);
}
static void checkLine()
{
	REQUIRE(w.open.size() == 1, "%zu lines open after connecting", w.open.size());
	int fd = *w.open.begin();
	struct termios t;
	REQUIRE(!__wrap_tcgetattr(fd, &t), "harness: tcgetattr");
	REQUIRE(cfgetispeed(&t) == SPEED && cfgetospeed(&t) == SPEED, "speed of the line is wrong");
	REQUIRE((t.c_cflag & CSIZE) == CS8, "line is not set to eight bits");
	REQUIRE(t.c_cflag & CREAD, "reading is disabled");
	REQUIRE(t.c_cflag & CLOCAL, "line depends on modem control lines");
#ifdef TRIMBLE
	REQUIRE((t.c_cflag & PARENB) && (t.c_cflag & PARODD) && !(t.c_cflag & CSTOPB), "line is not set to odd parity and one stop bit");
#else
	REQUIRE(!(t.c_cflag & PARENB) && !(t.c_cflag & CSTOPB), "line is not set to no parity and one stop bit");
	REQUIRE(t.c_cflag & CRTSCTS, "no flow control");
#endif
	REQUIRE(!(t.c_lflag & (ICANON | ECHO | ISIG | IEXTEN)), "line is not raw (lflag %x)", t.c_lflag);
	REQUIRE(!(t.c_iflag & (ICRNL | INLCR | IGNCR | ISTRIP | IXON | IXOFF | IXANY | PARMRK | IUCLC | BRKINT)), "line is not raw (iflag %x)", t.c_iflag);
	REQUIRE(!(t.c_oflag & OPOST), "output is processed (oflag %x)", t.c_oflag);
	REQUIRE(fcntl(fd, F_GETFD) & FD_CLOEXEC, "the line is inherited by child processes");
	REQUIRE(fcntl(fd, F_GETFL) & O_NONBLOCK, "the line was opened in blocking mode, opening waits for the carrier");
	pid_t sid;
	REQUIRE(ioctl(fd, TIOCGSID, &sid) == -1, "the line has become the controlling terminal");
}
struct Reader { uint8_t buf[512]; size_t len; size_t got = 0; std::atomic<bool> done { false }; };
static void * reader(void * a)
{
	Reader & r = *(Reader *)a;
	r.got = IN(read)(r.buf, r.len);
	r.done = true;
	return nullptr;
}
static bool waitFor(const std::atomic<bool> & f, unsigned ms)
{
	for (unsigned i = 0; i < ms * 20 && !f; ++i) { struct timespec ts = { 0, 50000 }; nanosleep(&ts, nullptr); }
	return f;
}
static bool first = true;
static void prop(Gen & g)
{
	if (first) { setsid(); signal(SIGHUP, SIG_IGN); first = false; } // a session leader would get a controlling terminal
	w.~World();
	new (&w) World;
	w.g = &g;
	logstub::record = false;
	IN(register)();
	IN(init)();
	openPty();
	bool connected = false, hung = false;
	unsigned read = 0, reconnects = 0, faults = 0;
	unsigned ops = 1 + g.small(0, 25);
	auto sendAll = [&] (const Bytes & b) {
		REQUIRE(__real_write(w.master, b.data(), b.size()) == (ssize_t)b.size(), "harness: short write to the pseudo terminal");
	};
	auto random = [&] (size_t max) {
		Bytes b(1 + g.small(0, max - 1));
		bool special = g.chance(1, 2);
		for (auto & c : b) c = special ? g.pick<uint8_t>({ 3, 4, 0x0a, 0x0d, 0x11, 0x13, 0x1a, 0x1c, 0x7f, 0x15, 0xff, 0, 0x10, 0x16, 0x12, 0x80 }) : g.byte();
		return b;
	};
	for (unsigned i = 0; i < ops; ++i) switch (connected ? g.weighted({ 8, 3, 1, 1, 1, 1 }) : 0) {
	case 0: {
		if (!connected) {
			if (w.master < 0) { openPty(); hung = false; }
			// stale input
			raw(w.probe);
			int q;
			size_t before = ioctl(w.probe, FIONREAD, &q) ? 0 : q;
			if (g.chance(1, 2)) { Bytes b = random(50); sendAll(b); waitQueued(before + b.size()); note("%zu stale bytes", b.size()); }
			scramble(g);
			drain();
			w.preSpeed.clear();
			w.postSpeed.clear();
			if (g.chance(1, 4)) w.failOpen = g.small(0, 4);
			if (g.chance(1, 6)) w.failGet = 1;
			if (g.chance(1, 6)) w.failSet = 1;
#ifdef TRIMBLE
			if (g.chance(1, 6)) w.failWrite = 1;
#endif
			unsigned f = w.fails, a = w.attempts;
			w.inConnect = true;
			IN(connect)();
			w.inConnect = false;
			faults += w.fails - f;
			REQUIRE(w.attempts - a == w.fails - f + 1, "%u attempts with %u failures", w.attempts - a, w.fails - f);
			w.failOpen = w.failGet = w.failSet = w.failWrite = 0;
			note("connected after %u failures", w.fails - f);
			checkLine();
#ifdef TRIMBLE
			// the receiver is told to use 115200 baud, eight bits, odd parity, one stop bit for its port, and once more with these settings
			static const Bytes cmd { 0x10, 0xbc, 0x00, 0x0b, 0x0b, 0x03, 0x01, 0x00, 0x00, 0x02, 0x02, 0x00, 0x10, 0x03 };
			auto endsWith = [&] (const Bytes & b) { return b.size() >= cmd.size() && std::equal(cmd.begin(), cmd.end(), b.end() - cmd.size()); };
			REQUIRE(endsWith(w.preSpeed), "before switching the line %s was sent", hex(w.preSpeed).c_str());
			REQUIRE(endsWith(w.postSpeed), "after switching the line %s was sent", hex(w.postSpeed).c_str());
			Bytes out = drain();
			REQUIRE(endsWith(out), "the device got %s", hex(out).c_str());
#else
			REQUIRE(drain().empty(), "something is sent while connecting");
#endif
			connected = true;
			++reconnects;
			break;
		}
		// bytes arrive
		Bytes b = random(400);
		unsigned cuts = g.small(0, 3);
		w.shortReads = g.chance(1, 4) ? g.raw(20) : 0;
		bool late = g.chance(1, 2);
		Bytes got;
		size_t sent = 0;
		while (sent < b.size()) {
			size_t n = cuts ? 1 + g.raw(b.size() - sent - 1) : b.size() - sent;
			if (cuts) --cuts;
			Bytes part(b.begin() + sent, b.begin() + sent + n);
			sent += n;
			if (late) { // the reader waits already
				Reader r;
				r.len = g.chance(1, 3) ? g.range(1, 20) : g.range(1, sizeof r.buf);
				pthread_t th;
				pthread_create(&th, nullptr, reader, &r);
				struct timespec ts = { 0, (long)g.raw(300000) };
				nanosleep(&ts, nullptr);
				sendAll(part);
				REQUIRE(waitFor(r.done, 5000), "read does not return although input is available");
				pthread_join(th, nullptr);
				REQUIRE(r.got >= 1 && r.got <= r.len, "read returned %zu for a buffer of %zu", r.got, r.len);
				got.insert(got.end(), r.buf, r.buf + r.got);
			} else sendAll(part);
			while (got.size() < sent) {
				uint8_t buf[600];
				memset(buf, 0xa5, sizeof buf);
				size_t len = g.chance(1, 3) ? g.range(1, 20) : g.range(1, 512);
				size_t n2 = IN(read)(buf, len);
				REQUIRE(n2 >= 1 && n2 <= len, "read returned %zu for a buffer of %zu", n2, len);
				REQUIRE(buf[len] == 0xa5, "buffer of %zu bytes overflown", len);
				got.insert(got.end(), buf, buf + n2);
			}
		}
		REQUIRE(got == b, "received %s, sent were %s", hex(got).c_str(), hex(b).c_str());
		REQUIRE(drain().empty(), "input is echoed");
		read += b.size();
		note("%zu bytes", b.size());
		break;
	}
	case 1: { // write
		Bytes b = random(60);
		size_t n = IN(write)(b.data(), b.size());
		REQUIRE(n == b.size(), "write of %zu bytes returned %zu", b.size(), n);
		Bytes out;
		for (int k = 0; k < 1000 && out.size() < n; ++k) { Bytes o = drain(); out.insert(out.end(), o.begin(), o.end()); if (out.size() < n) usleep(50); }
		REQUIRE(out == b, "the device got %s, sent was %s", hex(out).c_str(), hex(b).c_str());
		break;
	}
	case 2: // regular end
		IN(disconnect)();
		REQUIRE(w.open.empty(), "line left open after disconnecting");
		if (g.chance(1, 3)) IN(disconnect)();
		connected = false;
		note("disconnected");
		break;
	case 3: { // connect again without disconnecting
		note("connecting again");
		connected = false;
		break;
	}
	case 4: { // cancelled while waiting
		Reader r;
		r.len = 100;
		pthread_t th;
		pthread_create(&th, nullptr, reader, &r);
		struct timespec ts = { 0, (long)g.raw(200000) };
		nanosleep(&ts, nullptr);
		pthread_cancel(th);
		struct timespec until;
		clock_gettime(CLOCK_REALTIME, &until);
		until.tv_sec += 10;
		REQUIRE(!pthread_timedjoin_np(th, nullptr, &until), "a waiting reader cannot be cancelled");
		REQUIRE(!r.done, "read returned %zu without input", r.got);
		note("cancelled");
		label("cancelled");
		break;
	}
	case 5: { // the device goes away
		bool late = g.chance(1, 2);
		Reader r;
		r.len = 100;
		pthread_t th;
		w.hangup = true;
		w.polls = 0;
		auto hang = [&] { __real_close(w.probe); __real_close(w.master); w.probe = w.master = -1; };
		if (!late) hang();
		pthread_create(&th, nullptr, reader, &r);
		if (late) { struct timespec ts = { 0, (long)g.raw(200000) }; nanosleep(&ts, nullptr); hang(); }
		for (int k = 0; k < 100000 && !r.done && !w.spinning; ++k) { struct timespec ts = { 0, 50000 }; nanosleep(&ts, nullptr); }
		REQUIRE(!w.spinning, "the reader polls forever after the device has gone");
		REQUIRE(r.done, "the reader waits forever after the device has gone");
		pthread_join(th, nullptr);
		REQUIRE(r.got == 0, "read returned %zu after the device has gone", r.got);
		w.hangup = false;
		hung = true;
		connected = false;
		note("device gone");
		label("device gone");
		if (g.chance(1, 2)) IN(disconnect)();
		break;
	}
	}
	(void)hung;
	IN(disconnect)();
	REQUIRE(w.open.empty(), "line left open after disconnecting");
	closePty();
	if (read && reconnects > 1) nontrivial();
	if (faults) label("failing attempts");
	done();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "uart_sessions", prop, 25000, 600000, 20, 60, "random sequences of connecting (with failing system calls, stale input and settings left behind by others), reading, writing, cancellation and removal of the device on a pseudo terminal; nontrivial: bytes read and connected more than once" },
	});
}
