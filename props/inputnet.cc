// C31: the network adaptors of the receiver (src/radarcape/network.c) and of the GPS
// (src/trimble/trimble_input_network.c, -DTRIMBLE) against simulated sockets
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include "sched.hh"
#include <cerrno>
#include <deque>
#include <set>
#include <sys/socket.h>
#include <unistd.h>
extern "C" {
#include "util/cfgfile.h"
#ifdef TRIMBLE
#include "trimble/trimble_input.h"
#define IN(x) TRIMBLE_INPUT_##x
static const char * SECT = "GPS", * HOST = "Host", * PORT = "Port";
static const unsigned DEFPORT = 10685;
#else
#include "radarcape/rc-input.h"
#define IN(x) RC_INPUT_##x
static const char * SECT = "INPUT", * HOST = "host", * PORT = "port";
static const unsigned DEFPORT = 10003;
#endif
}
using namespace pbt;
#ifdef NO_CANCELLATION_POINTS
// the build for systems where system calls are no cancellation points: waits with select()
static const int FDBASE = 200;
static const bool CP = false;
#else
static const int FDBASE = 3000;
static const bool CP = true;
#endif
static void enter(const char * what) { if (CP) sched::point(what); else sched::yield(); }
static const int64_t S = 1000000000ll;

namespace {
struct Sock {
	int fd;
	bool open = true, shut = false, eof = false, rst = false;
	Bytes in; size_t pos = 0; // to be read
	Bytes out;
	size_t room = SIZE_MAX;
};
struct World {
	Gen * g;
	std::deque<Sock> socks;
	std::string host; unsigned port;
	unsigned attempts = 0, fails = 0, failNext = 0;
	bool healthy = false;
	int64_t lastAttempt = -1, firstAfter = -1;
	bool inConnect = false;
	int64_t slow = 0;
	bool interrupt = false;
} w;
}
static Sock * byFd(int fd) { for (auto & s : w.socks) if (s.fd == fd) return &s; return nullptr; }
static Sock * open_() { Sock * r = nullptr; for (auto & s : w.socks) if (s.open) { REQUIRE(!r, "two sockets are open at the same time"); r = &s; } return r; }
static Sock * use(int fd, const char * what)
{
	if (fd == -1) { errno = EBADF; return nullptr; }
	Sock * s = byFd(fd);
	REQUIRE(s, "%s on descriptor %d, which does not belong to the input", what, fd);
	REQUIRE(s->open, "%s on descriptor %d after it was closed", what, fd);
	return s;
}
extern "C" {
int NETC_connect(const char *, const char * host, uint16_t port)
{
	Gen & g = *w.g;
	REQUIRE(w.inConnect, "connecting without being asked to");
	REQUIRE(w.host == host && port == w.port, "connecting to %s:%u instead of %s:%u", host, port, w.host.c_str(), w.port);
	REQUIRE(!open_(), "a new connection while the old one is open");
	int64_t now = sched::now();
	if (w.lastAttempt >= 0) {
		REQUIRE(now - w.lastAttempt >= 1 * S, "next attempt %lld ms after a failed one", (long long)(now - w.lastAttempt) / 1000000);
		REQUIRE(now - w.lastAttempt <= 60 * S, "next attempt only %lld s after a failed one", (long long)((now - w.lastAttempt) / S));
	}
	++w.attempts;
	if (g.chance(1, 3)) sched::sleepFor("connecting", g.small(0, 30) * S, true);
	else sched::point("connecting");
	if (w.failNext) {
		--w.failNext;
		++w.fails;
		w.lastAttempt = sched::now();
		note("  [attempt fails]");
		return -1;
	}
	w.lastAttempt = -1;
	Sock s;
	s.fd = FDBASE + w.socks.size();
	w.socks.push_back(s);
	note("  [connected: %d]", s.fd);
	return s.fd;
}
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void * buf, size_t len, int flags)
{
	if (!sched::active()) return __real_recv(fd, buf, len, flags);
	Gen & g = *w.g;
	enter("receiving");
	if (!use(fd, "recv")) return -1;
	sched::block("receiving", [fd] { Sock * s = byFd(fd); return !s->open || s->shut || s->eof || s->rst || s->pos < s->in.size() ; }, CP);
	Sock * s = byFd(fd);
	REQUIRE(s->open, "descriptor %d closed while receiving", fd);
	if (s->rst) { errno = ECONNRESET; return -1; }
	if (s->pos == s->in.size()) return 0;
	size_t n = std::min(len, s->in.size() - s->pos);
	if (g.chance(1, 2)) n = g.range(1, n);
	memcpy(buf, &s->in[s->pos], n);
	s->pos += n;
	return n;
}
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void * buf, size_t len, int flags)
{
	if (!sched::active()) return __real_send(fd, buf, len, flags);
	REQUIRE(flags & MSG_NOSIGNAL, "sending without MSG_NOSIGNAL: a broken connection would kill the daemon");
	Gen & g = *w.g;
	enter("sending");
	Sock * s = use(fd, "send");
	if (!s) return -1;
	if (s->rst || s->shut || (s->eof && g.chance(1, 2))) { errno = EPIPE; return -1; }
	size_t n = len > 1 && g.chance(1, 6) ? g.range(1, len) : len;
	const uint8_t * b = (const uint8_t *)buf;
	s->out.insert(s->out.end(), b, b + n);
	return n;
}
#ifdef NO_CANCELLATION_POINTS
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set * r, fd_set * wr, fd_set * e, struct timeval * tv)
{
	if (!sched::active()) return __real_select(n, r, wr, e, tv);
	Gen & g = *w.g;
	REQUIRE(tv, "waiting without an end: the input could not be stopped");
	// the time which is left is returned in tv
	static int64_t last;
	static unsigned polls;
	bool poll = !tv->tv_sec && !tv->tv_usec;
	if (!poll || sched::now() != last) polls = 0;
	last = sched::now();
	if (poll && ++polls > 20) fail("busy waiting");
	struct Left {
		struct timeval * tv; int64_t until;
		~Left() { int64_t us = std::max<int64_t>(0, (until - sched::now()) / 1000); tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000; }
	};
	int64_t until = sched::now() + tv->tv_sec * S + tv->tv_usec * 1000ll;
	Left left { tv, until };
	int fd = -1;
	for (int i = 0; i < n; ++i) {
		if ((r && FD_ISSET(i, r)) || (wr && FD_ISSET(i, wr))) {
			REQUIRE(fd == -1, "waiting for several descriptors");
			fd = i;
		}
	}
	sched::yield();
	if (fd == -1) {
		sched::sleepFor("waiting for nothing", until - sched::now(), false);
		if (r) FD_ZERO(r);
		if (wr) FD_ZERO(wr);
		return 0;
	}
	if (!use(fd, "select")) return -1;
	bool ready;
	if (r && FD_ISSET(fd, r)) ready = sched::blockUntil("waiting for data", [fd] { Sock * s = byFd(fd); return !s->open || s->shut || s->eof || s->rst || s->pos < s->in.size(); }, until, false);
	else {
		int64_t wait = g.chance(1, 8) ? g.small(0, 20) * S : 0;
		ready = sched::now() + wait <= until;
		if (wait) sched::sleepFor("waiting for room", ready ? wait : until - sched::now(), false);
	}
	if (!ready) { if (r) FD_ZERO(r); if (wr) FD_ZERO(wr); }
	return ready;
}
#endif
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int how)
{
	if (fd < FDBASE && fd >= 0) return __real_shutdown(fd, how);
	if (Sock * s = use(fd, "shutdown")) { s->shut = true; return 0; }
	return -1;
}
int __real_close(int);
int __wrap_close(int fd)
{
	if (fd < FDBASE && fd >= 0) return __real_close(fd);
	if (Sock * s = use(fd, "close")) { s->open = false; note("  [%d: closed]", fd); return 0; }
	return -1;
}
}
static void history(Gen & g)
{
	w = World();
	w.g = &g;
	sched::reset(g, 4);
	CFG_unregisterAll();
	IN(register)();
	CFG_loadDefaults();
	w.host = "localhost";
	w.port = DEFPORT;
	if (g.chance(1, 2)) { w.host = g.pick<const char *>({ "receiver", "10.1.2.3", "::1" }); CFG_setString(SECT, HOST, w.host.c_str()); }
	if (g.chance(1, 2)) { w.port = g.range(0, 65535); CFG_setPort(SECT, PORT, w.port); }
	if (g.chance(1, 10)) { w.host = ""; CFG_setString(SECT, HOST, ""); }
	logstub::record = true;
	bool ok = CFG_check();
	REQUIRE(ok == (!w.host.empty() && w.port), "configuration %s:%u is %s", w.host.c_str(), w.port, ok ? "accepted" : "refused");
	if (!ok) { label("configuration refused"); done(); }
	note("%s:%u", w.host.c_str(), w.port);
	IN(init)();
	unsigned lives = 1 + g.small(0, 2), connects = 0, reads = 0, errors = 0, cancels = 0;
	size_t bytes = 0;
	for (unsigned life = 0; life < lives; ++life) {
		unsigned ops = 1 + g.small(0, 30);
		size_t expect = 0; // position in the current connection
		bool cur = false;  // connected (as far as the caller knows)
		int tid = sched::spawn("input", [&] {
			for (unsigned i = 0; i < ops; ++i) {
				size_t k = g.weighted({ cur ? 2u : 8u, cur ? 12u : 1u, 3, 1 });
				if (k == 0) {
					w.failNext = g.chance(1, 3) ? 1 + g.small(0, 3) : 0;
					w.lastAttempt = -1;
					size_t before = w.socks.size();
					note("connect (%u failures)", w.failNext);
					w.inConnect = true;
					IN(connect)();
					w.inConnect = false;
					REQUIRE(w.socks.size() == before + 1 && w.socks.back().open && open_() == &w.socks.back(), "connect returned without a new connection");
					cur = true;
					expect = 0;
					++connects;
				} else if (k == 1) {
					size_t len = g.pick<size_t>({ 1, 7, 128, 1024 });
					uint8_t * b = (uint8_t *)malloc(len);
					struct Free { uint8_t * b; ~Free() { free(b); } } fr { b };
					Sock * s = open_();
					size_t n = IN(read)(b, len);
					++reads;
					if (!s) { REQUIRE(n == 0, "%zu bytes read without a connection", n); continue; }
					REQUIRE(n <= len, "read returned %zd", (ssize_t)n);
					note("read %zu of %zu", n, len);
					if (n) {
						REQUIRE(s->pos == expect + n, "bytes were skipped");
						REQUIRE(!memcmp(b, &s->in[expect], n), "other bytes were read than sent");
						expect += n;
						bytes += n;
					} else {
						REQUIRE(s->rst || (s->eof && s->pos == s->in.size()), "read failed on an intact connection");
						++errors;
						cur = false;
					}
				} else if (k == 2) {
					Bytes m = genBytes(g, 1 + g.small(0, 5));
					Sock * s = open_();
					size_t before = s ? s->out.size() : 0;
					size_t n = IN(write)(m.data(), m.size());
					REQUIRE(n <= m.size(), "write returned %zd", (ssize_t)n);
#ifdef TRIMBLE
					// nothing is sent
					REQUIRE(n == m.size(), "write of %zu bytes returned %zu", m.size(), n);
					if (s) REQUIRE(s->out.size() == before, "bytes were sent to the GPS");
#else
					if (!s) REQUIRE(n == 0, "written without a connection");
					else REQUIRE(s->out.size() == before + n && !memcmp(&s->out[before], m.data(), n), "write returned %zu, %zu bytes were sent", n, s->out.size() - before);
#endif
				} else {
					note("disconnect");
					IN(disconnect)();
					REQUIRE(!open_(), "a socket is open after disconnecting");
					cur = false;
				}
			}
		});
		// the peer
		sched::onStep = [&g] {
			Sock * s = nullptr;
			for (auto & x : w.socks) if (x.open) s = &x;
			if (!s || s->eof || s->rst) return;
			if (g.chance(1, 12)) { Bytes b = genBytes(g, 1 + g.small(0, 60)); append(s->in, b); }
			else if (g.chance(1, 40)) { s->rst = true; note("  [connection reset]"); }
			else if (g.chance(1, 40)) { s->eof = true; note("  [end of stream]"); }
		};
		sched::onIdle = [&g]() -> bool {
			Sock * s = nullptr;
			for (auto & x : w.socks) if (x.open) s = &x;
			if (!s || s->eof || s->rst) return false;
			if (!CP && g.chance(1, 3)) return false; // nothing for a while
			if (g.chance(2, 3)) append(s->in, genBytes(g, 1 + g.small(0, 60)));
			else if (g.chance(1, 2)) s->eof = true;
			else s->rst = true;
			return true;
		};
		bool stop = g.chance(1, 3);
		uint64_t limit = sched::steps() + (stop ? g.small(1, 120) : 100000);
		sched::run([&] { if (!stop && sched::steps() > limit) fail("does not end:%s", sched::where().c_str()); return sched::ended(tid) || sched::steps() > limit; });
		if (!sched::ended(tid)) {
			// the component is stopped: its cleanup disconnects
			note("stopped");
			++cancels;
			sched::cancel(tid);
			uint64_t max = sched::steps() + 1000;
			sched::run([&] { if (sched::steps() > max) fail("cannot be stopped:%s", sched::where().c_str()); return sched::ended(tid); });
		}
		w.inConnect = false;
		sched::onStep = nullptr;
		sched::onIdle = nullptr;
		int t2 = sched::spawn("cleanup", [] { IN(disconnect)(); });
		sched::run([t2] { return sched::ended(t2); });
		REQUIRE(!open_(), "a socket is left open after the stop");
	}
	if (w.fails) label("failed attempts");
	if (errors) label("connection lost");
	if (cancels) label("stopped in between");
	if (lives > 1) label("restarted");
	if (connects > 1 && bytes) nontrivial();
}
int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "input_history", history, 15000, 400000, 50, 60, "configurations and histories of connect, read, write, disconnect and stop with failing attempts, resets, ends of stream, partial transfers; nontrivial: several connections and data read" },
	});
}
