// C09: the network layer (src/core/network.c) under a deterministic scheduler, with simulated sockets
#include "pbt.hh"
#include "sched.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <deque>
#include <map>
#include <cerrno>
#include <sys/socket.h>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "core/network.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
struct Conn {
	int fd;
	bool open = true, localShut = false, peerFin = false, reset = false;
	Bytes up;            // received by the server
	Bytes down;          // sent by the server
	size_t downPos = 0;  // read by the client
	ssize_t stopLen = -1; // sent when the stop began
};
struct Rx { Bytes data; };
struct World {
	Gen * g;
	std::deque<Conn> conns;
	bool healthy = false;
	unsigned connectCalls = 0, connectFails = 0, outage = 0;
	int64_t lastFail = -1;
	uint64_t bytesSent = 0, bytesRecv = 0;
	unsigned events = 0, recvFirst = 0, sendFirst = 0, partial = 0, forced = 0;
	std::map<uint32_t, bool> msgOk; // id -> reported as sent
	std::map<uint32_t, Bytes> msg;
	std::map<uint32_t, int> msgThread;
	std::map<uint32_t, unsigned> msgRun; // how often the sender had waited for a connection
	unsigned senderRuns = 0;
	std::map<uint32_t, bool> msgDone;  // NET_send returned
	bool cutBySecond = false;          // a sender was stopped within a message, the other went on
	std::map<uint32_t, bool> stopped;  // messages sent or being sent while stopping
	uint32_t nextMsg = 1;
	uint32_t nextDown = 1;
	// receiver
	Bytes run;           // bytes received without an interruption
	std::vector<Bytes> runs;
	unsigned failBudget = 0;
	int healthySent = 0;
	unsigned reconnects = 0;
	unsigned waited[2] = { 0, 0 }, connsBefore = 0; // returns of NET_waitConnected in this run
};
World w;
#ifdef NO_CANCELLATION_POINTS
// the build for systems where system calls are no cancellation points: waits with select()
const int FDBASE = 200;
const bool CP = false;
#else
const int FDBASE = 5000;
const bool CP = true;
#endif
}
// transfers of the sub check net_volume: only counted
namespace {
struct Huge {
	bool on = false;
	uint64_t sent = 0, received = 0;
};
Huge huge;
}
static Conn * byFd(int fd)
{
	for (auto & c : w.conns) if (c.fd == fd) return &c;
	return nullptr;
}
static Conn * use(int fd, const char * what)
{
	if (fd == -1) { errno = EBADF; return nullptr; }
	Conn * c = byFd(fd);
	REQUIRE(c, "%s on descriptor %d, which does not belong to the network", what, fd);
	if (!c->open && sched::cancelled(sched::self())) sched::point("call entered by a cancelled thread");
	c = byFd(fd);
	if (!CP && !c->open && sched::cancelled(sched::self())) { errno = EBADF; return nullptr; } // told with a delay
	REQUIRE(c->open, "%s on descriptor %d after it was closed", what, fd);
	return c;
}
// other threads can run before the call
static void enter(const char * what)
{
	if (CP) sched::point(what);
	else sched::yield();
}
static size_t openSockets()
{
	size_t n = 0;
	for (auto & c : w.conns) n += c.open;
	return n;
}

// something happens in the network
static bool failureEvent(Conn & c)
{
	if (w.healthy || !w.failBudget || c.peerFin || c.reset) return false;
	--w.failBudget;
	++w.events;
	if (w.g->chance(1, 2)) { c.peerFin = true; note("  [%d: closed by the server]", c.fd); }
	else { c.reset = true; note("  [%d: connection reset]", c.fd); }
	return true;
}

extern "C" {
int NETC_connect(const char *, const char * host, uint16_t port)
{
	REQUIRE(!strcmp(host, "server.example") && port == 4711, "connecting to %s:%u", host, port);
	Gen & g = *w.g;
	++w.connectCalls;
	// however long it lasts
	if (w.lastFail >= 0) REQUIRE(sched::now() - w.lastFail <= 60 * 1000000000ll, "no connection attempt for %lld s", (long long)((sched::now() - w.lastFail) / 1000000000));
	w.lastFail = -1;
	if (g.chance(1, 2)) sched::sleepFor("connecting", g.small(0, 5) * 1000000000ll, true);
	else sched::point("connecting");
	if (!w.healthy && !w.outage && g.chance(1, 20)) { w.outage = g.range(2, 40); label("outage"); }
	if (!w.healthy && (w.outage || g.chance(1, 4))) {
		if (w.outage) --w.outage;
		w.lastFail = sched::now();
		++w.connectFails;
		note("  [connect fails]");
		return -1;
	}
	Conn c;
	c.fd = FDBASE + w.conns.size();
	w.conns.push_back(c);
	if (w.conns.size() > 1) ++w.reconnects;
	note("  [connected: %d]", c.fd);
	return c.fd;
}
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void * buf, size_t len, int flags)
{
	if (!sched::active()) return __real_send(fd, buf, len, flags);
	Gen & g = *w.g;
	REQUIRE(flags & MSG_NOSIGNAL, "sending without MSG_NOSIGNAL: a broken connection would kill the daemon");
	enter("sending");
	Conn * c = use(fd, "send");
	if (!c) return -1;
	if (g.chance(1, 12)) failureEvent(*c);
	if (c->localShut || c->reset || (c->peerFin && g.chance(1, 2))) { errno = c->reset ? ECONNRESET : EPIPE; return -1; }
	if (c->peerFin) c->reset = true; // next one fails
	size_t n = len;
	if (g.chance(1, 3) && len > 1) { n = g.range(1, len); if (n < len) ++w.partial; }
	// blocked for a while; the data is taken at the end
	if (huge.on) { huge.sent += n; return n; }
	if (!w.healthy && g.chance(1, 8)) sched::sleepFor("sending", g.small(0, 2) * 1000000000ll, CP);
	c = byFd(fd);
	if (c->localShut) { errno = EPIPE; return -1; }
	const uint8_t * b = (const uint8_t *)buf;
	c->up.insert(c->up.end(), b, b + n);
	return n;
}
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_recv(int fd, void * buf, size_t len, int flags)
{
	if (!sched::active()) return __real_recv(fd, buf, len, flags);
	Gen & g = *w.g;
	enter("receiving");
	Conn * c0 = use(fd, "recv");
	if (!c0) return -1;
	if (huge.on) {
		size_t n = g.chance(1, 2) ? len : g.range(1, len);
		huge.received += n;
		return n;
	}
	sched::block("receiving", [fd] { Conn * c = byFd(fd); return !c->open || c->localShut || c->peerFin || c->reset || c->downPos < c->down.size(); }, CP);
	Conn * c = byFd(fd);
	REQUIRE(c->open, "descriptor %d was closed while receiving from it", fd);
	if (c->reset) { errno = ECONNRESET; return -1; }
	if (c->downPos < c->down.size()) {
		size_t n = c->down.size() - c->downPos;
		if (n > len) n = len;
		n = g.range(1, n);
		memcpy(buf, &c->down[c->downPos], n);
		c->downPos += n;
		return n;
	}
	return 0;
}
#ifdef NO_CANCELLATION_POINTS
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set * r, fd_set * wr, fd_set * e, struct timeval * tv)
{
	if (!sched::active()) return __real_select(n, r, wr, e, tv);
	Gen & g = *w.g;
	REQUIRE(tv, "waiting without an end: the thread could not be stopped");
	// the time which is left is returned in tv
	static int64_t last;
	static unsigned polls;
	bool poll = !tv->tv_sec && !tv->tv_usec;
	if (!poll || sched::now() != last) polls = 0;
	last = sched::now();
	if (poll && ++polls > 20) fail("busy waiting");
	struct Left {
		struct timeval * tv; int64_t until;
		~Left() { int64_t us = std::max<int64_t>(0, (until - sched::now()) / 1000); tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000; }
	};
	int64_t until = sched::now() + tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll;
	Left left { tv, until };
	int fd = -1;
	for (int i = 0; i < n; ++i) {
		if ((r && FD_ISSET(i, r)) || (wr && FD_ISSET(i, wr))) {
			REQUIRE(fd == -1, "waiting for several descriptors");
			fd = i;
		}
	}
	sched::yield();
	if (fd == -1) {
		sched::sleepFor("waiting for nothing", until - sched::now(), false);
		if (r) FD_ZERO(r);
		if (wr) FD_ZERO(wr);
		return 0;
	}
	Conn * c = use(fd, "select");
	if (!c) return -1;
	bool ready;
	if (r && FD_ISSET(fd, r)) ready = huge.on || sched::blockUntil("waiting for data", [fd] { Conn * c = byFd(fd); return !c->open || c->localShut || c->peerFin || c->reset || c->downPos < c->down.size(); }, until, false);
	else {
		// the server does not keep up
		int64_t wait = !w.healthy && g.chance(1, 8) ? g.small(0, 20) * 1000000000ll : 0;
		ready = sched::now() + wait <= until;
		if (wait) sched::sleepFor("waiting for room", ready ? wait : until - sched::now(), false);
	}
	if (!ready) { if (r) FD_ZERO(r); if (wr) FD_ZERO(wr); }
	return ready;
}
#endif
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int how)
{
	if (!sched::active()) return __real_shutdown(fd, how);
	Conn * c = use(fd, "shutdown");
	if (!c) return -1;
	c->localShut = true;
	return 0;
}
int __real_close(int);
int __wrap_close(int fd)
{
	if (!sched::active() || (fd >= 0 && fd < FDBASE && fd > 2)) return __real_close(fd);
	Conn * c = use(fd, "close");
	if (!c) return -1;
	c->open = false;
	c->localShut = true;
	note("  [%d: closed]", fd);
	return 0;
}
}

/* message: marker, id, length, filler */
static Bytes newMsg(Gen & g, int thread)
{
	uint32_t id = w.nextMsg++;
	Bytes m { 0xa5, (uint8_t)(id >> 8), (uint8_t)id, 0 };
	size_t n = g.small(0, 60);
	for (size_t i = 0; i < n; ++i) m.push_back(id * 31 + i);
	m[3] = m.size();
	w.msg[id] = m;
	w.msgOk[id] = false;
	w.msgThread[id] = thread;
	w.msgRun[id] = w.senderRuns;
	return m;
}
static bool sendMsg(Gen & g, int thread)
{
	Bytes m = newMsg(g, thread);
	uint32_t id = w.nextMsg - 1;
	// exactly sized: reading beyond the message is detected
	uint8_t * h = (uint8_t *)malloc(m.size());
	memcpy(h, m.data(), m.size());
	bool ok = NET_send(h, m.size());
	free(h);
	note("  %s: send message %u of %zu -> %d", thread ? "second sender" : "sender", id, m.size(), ok);
	w.msgOk[id] = ok;
	w.msgDone[id] = true;
	if (ok) w.bytesSent += m.size();
	return ok;
}

// a thread has waited for a connection: each time there must be another one
static void connected(int who)
{
	++w.waited[who];
	REQUIRE(w.waited[who] <= w.conns.size() - w.connsBefore, "%s was told %u times of a connection, there were %zu", who ? "receiver" : "sender", w.waited[who], w.conns.size() - w.connsBefore);
}
static void sender(bool * quit)
{
	Gen & g = *w.g;
	while (true) {
		NET_waitConnected();
		connected(0);
		++w.senderRuns;
		note("  sender: connected");
		while (true) {
			sched::yield();
			if (*quit) sched::block("finished sending", [] { return false; }, true);
			if (w.healthy) {
				if (!sendMsg(g, 0)) break;
				++w.healthySent;
				sched::sleepFor("sender idle", 1000000000ll, true);
				continue;
			}
			size_t k = g.weighted({ 10, 2, 1, 3 });
			if (k == 0) { if (!sendMsg(g, 0)) break; }
			else if (k == 1) { bool c = NET_checkConnected(); note("  sender: check -> %d", c); if (!c) break; }
			else if (k == 2) { note("  sender: force disconnect"); ++w.forced; NET_forceDisconnect(); break; }
			else sched::sleepFor("sender idle", g.small(0, 20) * 1000000000ll, true);
		}
		note("  sender: connection lost");
		w.healthySent = 0;
	}
}
static void second(bool * quit)
{
	Gen & g = *w.g;
	// sends (as the position does) without waiting for a connection
	while (true) {
		sched::sleepFor("second sender idle", g.small(0, 20) * 1000000000ll, true);
		if (*quit || w.healthy) sched::block("finished sending", [] { return false; }, true);
		// on a connection which works, and on which the sender has begun, it can send
		auto usable = [] {
			if (w.conns.empty()) return false;
			const Conn & c = w.conns.back();
			return c.open && !c.localShut && !c.peerFin && !c.reset && c.stopLen < 0 && !c.up.empty();
		};
		size_t n = w.conns.size();
		bool before = usable();
		bool ok = sendMsg(g, 1);
		if (before && n == w.conns.size() && usable()) {
			REQUIRE(ok, "the second sender was refused on the working connection %d", w.conns.back().fd);
			if (n > 1) label("second sender on a later connection");
		}
	}
}
static void endRun()
{
	if (!w.run.empty()) w.runs.push_back(w.run);
	w.run.clear();
}
static void receiver()
{
	Gen & g = *w.g;
	while (true) {
		NET_waitConnected();
		connected(1);
		while (true) {
			uint8_t buf[128];
			size_t l = g.pick<size_t>({ 128, 1, 60 });
			ssize_t n = NET_receive(buf, l);
			if (n <= 0) { note("  receiver: connection lost"); endRun(); break; }
			REQUIRE((size_t)n <= l, "received %zd bytes into a buffer of %zu", n, l);
			w.run.insert(w.run.end(), buf, buf + n);
			w.bytesRecv += n;
		}
	}
}

// data from the server
static bool serverSends()
{
	if (w.conns.empty()) return false;
	Conn & c = w.conns.back();
	if (!c.open || c.localShut || c.peerFin || c.reset || c.down.size() > 400) return false;
	unsigned n = 1 + w.g->small(0, 5);
	for (unsigned i = 0; i < n; ++i) { // numbered over all connections
		uint32_t v = w.nextDown++;
		for (int k = 3; k >= 0; --k) c.down.push_back(v >> (8 * k));
	}
	note("  [%d: server sends %u words]", c.fd, n);
	return true;
}

static void checkStreams()
{
	// sent messages
	std::map<uint32_t, int> seen;
	std::map<unsigned, int> runConn;
	for (auto & c : w.conns) {
		bool first = true;
		size_t i = 0;
		bool tolerated = false;
		while (i < c.up.size()) {
			const Bytes & s = c.up;
			size_t left = s.size() - i;
			uint32_t id = left >= 3 ? s[i + 1] << 8 | s[i + 2] : 0;
			if (c.stopLen >= 0 && (ssize_t)i + 64 > c.stopLen && (left < 4 || !w.msg.count(id) || left < s[i + 3]
				|| Bytes(s.begin() + i, s.begin() + i + s[i + 3]) != w.msg[id]) && w.cutBySecond) { tolerated = true; break; }
			REQUIRE(s[i] == 0xa5, "server received garbage on %d at %zu: %s", c.fd, i, hex(s).c_str());
			if (left < 4 || left < s[i + 3]) break; // cut by the end of the connection
			REQUIRE(w.msg.count(id), "server received an unknown message on %d: %s", c.fd, hex(s).c_str());
			Bytes m(s.begin() + i, s.begin() + i + s[i + 3]);
			REQUIRE(m == w.msg[id], "server received message %u on %d as %s, sent was %s", id, c.fd, hex(m).c_str(), hex(w.msg[id]).c_str());
			++seen[id];
			if (!w.msgThread[id]) {
				// the sender has to know of each new connection (it must log in)
				auto rc = runConn.insert({ w.msgRun[id], c.fd });
				REQUIRE(rc.first->second == c.fd, "sender continued on connection %d with message %u after sending on %d without being told", c.fd, id, rc.first->second);
			}
			REQUIRE(!first || !w.msgThread[id], "connection %d starts with message %u of the second sender", c.fd, id);
			first = false;
			i += m.size();
		}
		if (!tolerated && i < c.up.size()) REQUIRE(c.localShut || c.reset || c.peerFin, "the message at %zu on connection %d is incomplete, and the connection goes on: %s", i, c.fd, hex(c.up).c_str());
	}
	for (auto & m : w.msgOk) {
		REQUIRE(seen[m.first] <= 1, "message %u was sent %d times", m.first, seen[m.first]);
		if (w.cutBySecond && w.stopped.count(m.first)) continue;
		if (m.second) REQUIRE(seen[m.first] == 1, "message %u was reported as sent, but not handed over completely", m.first);
	}
	// received data: every run is a prefix of what a connection delivered, runs of a connection follow each other
	std::map<int, size_t> pos;
	size_t ci = 0;
	for (auto & r : w.runs) {
		bool found = false;
		for (; ci < w.conns.size() && !found; ) {
			Conn & c = w.conns[ci];
			size_t p = pos[ci];
			if (p + r.size() <= c.down.size() && !r.empty() && !memcmp(&c.down[p], r.data(), r.size())) { pos[ci] = p + r.size(); found = true; break; }
			++ci;
		}
		REQUIRE(found, "the received bytes %s are not what one connection delivered", hex(r).c_str());
	}
}

static void session(Gen & g)
{
	w = World();
	w.g = &g;
	sched::reset(g, g.pick<unsigned>({ 8, 2, 3, 20 }));
	sched::spurious = g.chance(1, 3);
	CFG_unregisterAll();
	CFG_registerSection(NET_comp.config);
	CFG_loadDefaults();
	CFG_setString("NETWORK", "Host", "server.example");
	CFG_setPort("NETWORK", "Port", 4711);
	if (NET_comp.onConstruct) REQUIRE(NET_comp.onConstruct(), "construct");
	if (NET_comp.onReset) NET_comp.onReset();

	unsigned runs = 1 + g.chance(1, 3);
	bool two = g.chance(1, 3);
	unsigned attempts = 0;
	for (unsigned r = 0; r < runs; ++r) {
		bool quit = false;
		w.healthy = false;
		w.outage = 0;
		w.lastFail = -1;
		w.healthySent = 0;
		w.waited[0] = w.waited[1] = 0;
		w.connsBefore = w.conns.size();
		w.failBudget = 1 + g.small(0, 8);
		uint64_t limit = sched::steps() + 50 + g.small(0, 500);
		bool calm = g.chance(1, 8); // stop without waiting for a stable connection
		note("start%s", two ? " with a second sender" : "");
		int tn = sched::spawn("network", [] { NET_comp.main(); });
		int ts = sched::spawn("sender", [&quit] { sender(&quit); });
		int tr = sched::spawn("receiver", [] { receiver(); });
		int t2 = two ? sched::spawn("second sender", [&quit] { second(&quit); }) : -1;
		auto env = [&g] {
			if (w.conns.empty()) return false;
			if (g.chance(1, 10) && serverSends()) return true;
			if (g.chance(1, 30)) return failureEvent(w.conns.back());
			return false;
		};
		sched::onStep = [env] { env(); };
		sched::onIdle = [&g]() -> bool {
			if (g.chance(1, 3)) return serverSends();
			return false;
		};
		sched::run([limit] { return sched::steps() > limit; });
		if (!calm) {
			// from now on the network works: both directions have to get onto one connection
			note("the network is stable");
			w.healthy = true;
			w.healthySent = 0;
			uint64_t max = sched::steps() + 4000;
			sched::run([max] {
				if (sched::steps() > max) fail("no stable connection is established in a stable network:%s", sched::where().c_str());
				return w.healthySent >= 5;
			});
			// and the receiver gets everything
			sched::onStep = nullptr;
			size_t last = w.conns.size() - 1;
			serverSends();
			max = sched::steps() + 2000;
			sched::run([max, last] {
				if (sched::steps() > max) fail("data of the server is not received on the current connection:%s", sched::where().c_str());
				return w.conns.size() - 1 != last || w.conns[last].downPos == w.conns[last].down.size();
			});
			// let the receiver report what it has
			max = sched::steps() + 60;
			sched::run([max] { return sched::steps() > max; });
			REQUIRE(w.conns.size() - 1 == last, "a stable connection was given up");
			REQUIRE(openSockets() == 1, "%zu sockets are open with a stable connection", openSockets());
			size_t m = w.nextMsg;
			(void)m;
			struct NET_Statistics st;
			NET_getStatistics(&st);
			REQUIRE(st.isOnline, "not online according to the statistics");
			REQUIRE(st.connectionAttempts == w.connectCalls, "statistics: %llu connection attempts, expected %u", (unsigned long long)st.connectionAttempts, w.connectCalls);
			if (r == 0)
				REQUIRE(st.disconnects == st.connectionAttempts - 1, "statistics: %llu disconnects with %llu attempts", (unsigned long long)st.disconnects, (unsigned long long)st.connectionAttempts);
			REQUIRE(st.bytesReceived == w.bytesRecv, "statistics: %llu bytes received, expected %llu", (unsigned long long)st.bytesReceived, (unsigned long long)w.bytesRecv);
			if (!w.healthy || st.bytesSent != w.bytesSent) {
				// the sender may be between sending and accounting here
				REQUIRE(st.bytesSent >= w.bytesSent && st.bytesSent <= w.bytesSent + 64, "statistics: %llu bytes sent, expected %llu", (unsigned long long)st.bytesSent, (unsigned long long)w.bytesSent);
			}
		}
		// stop as the components do: one after the other, a second for each, then again
		note("stop");
		for (auto & c : w.conns) if (c.open) c.stopLen = c.up.size();
		size_t firstStop = w.nextMsg;
		std::vector<uint32_t> inflight;
		for (auto & m : w.msg) if (!w.msgDone[m.first]) inflight.push_back(m.first);
		sched::onStep = nullptr;
		uint64_t max = sched::steps() + 3000;
		std::vector<int> left;
		if (t2 >= 0) left.push_back(t2);
		if (g.chance(1, 2)) { left.push_back(ts); left.push_back(tr); } else { left.push_back(tr); left.push_back(ts); }
		left.push_back(tn);
		bool deferred = false;
		while (!left.empty()) {
			std::vector<int> again;
			for (int t : left) {
				sched::cancel(t);
				int64_t until = sched::now() + 1000000000ll;
				sched::run([max, t, until] {
					if (sched::steps() > max) fail("a thread cannot be stopped:%s", sched::where().c_str());
					return sched::ended(t) || sched::now() > until; });
				if (!sched::ended(t)) { again.push_back(t); deferred = true; }
			}
			left = again;
		}
		if (deferred) label("deferred stop");
		for (uint32_t i = firstStop; i < w.nextMsg; ++i) w.stopped[i] = true;
		for (uint32_t i : inflight) w.stopped[i] = true;
		if (two) for (auto & m : w.msg) if (!w.msgDone[m.first]) w.cutBySecond = true;
		endRun();
		REQUIRE(openSockets() == 0, "%zu sockets are left open after the stop", openSockets());
		attempts = w.connectCalls;
	}
	(void)attempts;
	checkStreams();
	if (w.reconnects && w.bytesSent) nontrivial();
	if (w.reconnects) label("reconnects");
	if (w.partial) label("partial sends");
	if (w.connectFails) label("failed connects");
	if (w.forced) label("forced disconnects");
	if (two) label("second sender");
	if (runs > 1) label("restarted");
	if (w.bytesRecv) label("data received");
}

// a long life: gigabytes go through the connection
static void volume(Gen & g)
{
	w = World();
	w.g = &g;
	w.healthy = true;
	huge = Huge();
	huge.on = true;
	static uint8_t * area = (uint8_t *)mmap(nullptr, 1ull << 31, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	REQUIRE(area != MAP_FAILED, "no address space");
	sched::reset(g, g.pick<unsigned>({ 8, 2, 3, 20 }));
	CFG_unregisterAll();
	CFG_registerSection(NET_comp.config);
	CFG_loadDefaults();
	CFG_setString("NETWORK", "Host", "server.example");
	CFG_setPort("NETWORK", "Port", 4711);
	if (NET_comp.onConstruct) REQUIRE(NET_comp.onConstruct(), "construct");
	if (NET_comp.onReset) NET_comp.onReset();
	unsigned n = 6 + g.small(0, 16);
	std::vector<std::pair<bool, size_t>> ops; // sending, length
	for (unsigned i = 0; i < n; ++i) ops.push_back({ g.chance(1, 2), g.chance(1, 4) ? g.range(1, 2000) : g.range(1, 0x7ffff000) });
	unsigned resetAt = g.chance(1, 4) ? g.range(0, n) : n + 1;
	bool doneSend = false, doneRecv = false;
	uint64_t sent = 0, received = 0, sent0 = 0, received0 = 0;
	auto check = [&] {
		struct NET_Statistics s;
		NET_getStatistics(&s);
		REQUIRE(s.bytesSent == sent - sent0, "statistics: %llu bytes sent, expected %llu", (unsigned long long)s.bytesSent, (unsigned long long)(sent - sent0));
		REQUIRE(s.bytesReceived == received - received0, "statistics: %llu bytes received, expected %llu", (unsigned long long)s.bytesReceived, (unsigned long long)(received - received0));
	};
	int tn = sched::spawn("network", [] { NET_comp.main(); });
	int tx = sched::spawn("user", [&] {
		NET_waitConnected();
		for (unsigned i = 0; i < ops.size(); ++i) {
			size_t len = ops[i].second;
			if (i == resetAt && NET_comp.onReset) { NET_comp.onReset(); sent0 = sent; received0 = received; }
			if (ops[i].first) {
				uint64_t before = huge.sent;
				bool ok = NET_send(area, len);
				note("  send %zu bytes -> %d", len, ok);
				REQUIRE(ok, "sending %zu bytes on a working connection is reported as failed", len);
				REQUIRE(huge.sent - before == len, "sending %zu bytes handed over %llu bytes", len, (unsigned long long)(huge.sent - before));
				sent += len;
			} else {
				uint64_t before = huge.received;
				ssize_t rc = NET_receive(area, len);
				note("  receive up to %zu bytes -> %zd", len, rc);
				REQUIRE(rc > 0 && (uint64_t)rc == huge.received - before, "receiving %llu bytes on a working connection is reported as %zd", (unsigned long long)(huge.received - before), rc);
				received += rc;
			}
			check();
		}
		doneSend = doneRecv = true;
	});
	uint64_t max = sched::steps() + 20000;
	sched::run([&] {
		if (sched::steps() > max) fail("the transfer does not end:%s", sched::where().c_str());
		return doneSend && doneRecv && sched::ended(tx);
	});
	sched::cancel(tn);
	max = sched::steps() + 1000;
	sched::run([&] {
		if (sched::steps() > max) fail("the network cannot be stopped:%s", sched::where().c_str());
		return sched::ended(tn);
	});
	REQUIRE(openSockets() == 0, "%zu sockets are left open after the stop", openSockets());
	if (sent >> 32) label("more than 4 GiB sent");
	if (received >> 32) label("more than 4 GiB received");
	if ((sent | received) >> 32) nontrivial();
	huge.on = false;
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "net_sessions", session, 40000, 800000, 10, 60,
			"histories of connects, partial sends, peer closes, resets, forced disconnects and stops, with network, sender, receiver and optional second sender thread in every generated interleaving; "
			"then a stable network; non-trivial: a reconnect happened and messages were sent" },
		{ "net_volume", volume, 3000, 60000, 10, 10,
			"transfers of up to 2 GiB each on one connection, in pieces, with resets of the statistics, against exact totals; non-trivial: more than 4 GiB went in one direction" },
	});
}
