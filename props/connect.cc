// C27: connecting to a host (src/util/net_common-posix.c, src/util/util.c)
#include "pbt.hh"
#include "stub_log.hh"
#include "sched.hh"
#include "memtrack.hh"
#include <cerrno>
#include <cstring>
#include <map>
#include <set>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
extern "C" {
int NETC_connect(const char *, const char *, uint16_t);
#include "util/util.h"
}
using namespace pbt;

namespace {
struct Addr { int family; uint8_t ip[16]; uint32_t scope; int sockErr, connErr; int64_t takes; };
struct World {
	Gen * g;
	std::vector<Addr> addrs;
	int gaiErr = 0;
	std::string host; uint16_t port;
	std::map<int, int> socks;     // live sockets -> family
	std::set<int> usedSocks;      // a connection was tried
	std::vector<int> tried;       // addresses in the order tried
	int connectedFd = -1;
	unsigned lists = 0, resolves = 0;
	bool cancels = false;
	bool single = false;          // not scheduled
} w;
struct List { addrinfo ai; sockaddr_storage ss; };
}
static std::string show(const Addr & a)
{
	char b[INET6_ADDRSTRLEN] = "?";
	if (a.family == AF_INET || a.family == AF_INET6) inet_ntop(a.family, a.ip, b, sizeof b);
	return b;
}
static void pt(const char * s) { if (!w.single) sched::point(s); }

extern "C" {
int __wrap_getaddrinfo(const char * node, const char * service, const struct addrinfo * hints, struct addrinfo ** res)
{
	REQUIRE(node && node == w.host, "host '%s' resolved instead of '%s'", node ? node : "(null)", w.host.c_str());
	// what is not set is up to the resolver, what is set must be valid
	if (hints) {
		const int known = AI_PASSIVE | AI_CANONNAME | AI_NUMERICHOST | AI_V4MAPPED | AI_ALL | AI_ADDRCONFIG | AI_NUMERICSERV | AI_IDN | AI_CANONIDN;
		REQUIRE(!(hints->ai_flags & ~known), "the host is resolved with unknown flags 0x%x", hints->ai_flags);
		REQUIRE(hints->ai_family == AF_UNSPEC || hints->ai_family == AF_INET || hints->ai_family == AF_INET6, "the host is resolved for family %d", hints->ai_family);
		REQUIRE(hints->ai_protocol == 0 || hints->ai_protocol == IPPROTO_TCP, "the host is resolved for protocol %d", hints->ai_protocol);
	}
	++w.resolves;
	pt("resolving");
	if (w.gaiErr) return w.gaiErr;
	addrinfo * first = nullptr, ** tail = &first;
	for (const Addr & a : w.addrs) {
		if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != a.family) continue;
		REQUIRE(hints && hints->ai_socktype == SOCK_STREAM, "the host is not resolved for stream sockets");
		List * l = new List();
		l->ai.ai_family = a.family;
		l->ai.ai_socktype = SOCK_STREAM;
		l->ai.ai_protocol = IPPROTO_TCP;
		l->ai.ai_addr = (sockaddr *)&l->ss;
		in_port_t p = service ? htons(atoi(service)) : 0;
		if (a.family == AF_INET) {
			sockaddr_in * s = (sockaddr_in *)&l->ss;
			s->sin_family = AF_INET;
			s->sin_port = p;
			memcpy(&s->sin_addr, a.ip, 4);
			l->ai.ai_addrlen = sizeof *s;
		} else if (a.family == AF_INET6) {
			sockaddr_in6 * s = (sockaddr_in6 *)&l->ss;
			s->sin6_family = AF_INET6;
			s->sin6_port = p;
			s->sin6_scope_id = a.scope;
			memcpy(&s->sin6_addr, a.ip, 16);
			l->ai.ai_addrlen = sizeof *s;
		} else {
			l->ss.ss_family = a.family;
			l->ai.ai_addrlen = 16;
		}
		*tail = &l->ai;
		tail = &l->ai.ai_next;
		++w.lists;
	}
	if (!first) return EAI_NONAME;
	*res = first;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo * ai)
{
	REQUIRE(ai, "freeaddrinfo of nothing");
	while (ai) {
		addrinfo * n = ai->ai_next;
		delete (List *)ai;
		--w.lists;
		ai = n;
	}
}
int __wrap_socket(int family, int type, int proto)
{
	REQUIRE((type & ~(SOCK_CLOEXEC | SOCK_NONBLOCK)) == SOCK_STREAM, "socket of type %d", type);
	REQUIRE(proto == 0 || proto == IPPROTO_TCP, "socket with protocol %d", proto);
	REQUIRE(family == AF_INET || family == AF_INET6, "socket of family %d", family);
	for (const Addr & a : w.addrs) if (a.family == family && a.sockErr) { errno = a.sockErr; return -1; }
	int fd = open("/dev/null", O_RDWR | (type & SOCK_CLOEXEC ? O_CLOEXEC : 0));
	w.socks[fd] = family;
	return fd;
}
int __wrap_connect(int fd, const struct sockaddr * sa, socklen_t len)
{
	int idx = -1;
	in_port_t port = 0;
	for (size_t i = 0; i < w.addrs.size(); ++i) {
		const Addr & a = w.addrs[i];
		if (sa->sa_family != a.family) continue;
		if (a.family == AF_INET) {
			const sockaddr_in * s = (const sockaddr_in *)sa;
			if (len == sizeof *s && !memcmp(&s->sin_addr, a.ip, 4)) idx = i;
			port = s->sin_port;
		} else if (a.family == AF_INET6) {
			const sockaddr_in6 * s = (const sockaddr_in6 *)sa;
			if (len == sizeof *s && !memcmp(&s->sin6_addr, a.ip, 16) && s->sin6_scope_id == a.scope) idx = i;
			port = s->sin6_port;
		}
	}
	if (fd == -1) { errno = EBADF; return -1; } // there was no socket
	auto it = w.socks.find(fd);
	REQUIRE(it != w.socks.end(), "connecting fd %d, which is no open socket", fd);
	REQUIRE(idx >= 0, "connecting to something which is no address of the host: %s", hex(sa, len).c_str());
	const Addr & a = w.addrs[idx];
	REQUIRE(it->second == a.family, "connecting to %s with a socket of another family", show(a).c_str());
	REQUIRE(ntohs(port) == w.port, "connecting to port %u, expected %u", ntohs(port), w.port);
	REQUIRE(w.connectedFd < 0, "trying %s though a connection was accepted before", show(a).c_str());
	for (int t : w.tried) REQUIRE(t != idx, "%s tried twice", show(a).c_str());
	w.tried.push_back(idx);
	w.usedSocks.insert(fd);
	if (!w.single) {
		pt("connecting");
		if (a.takes) sched::sleepFor("connecting", a.takes, true);
	}
	if (a.connErr) { errno = a.connErr; return -1; }
	w.connectedFd = fd;
	return 0;
}
int __real_close(int);
int __wrap_close(int fd)
{
	auto it = w.socks.find(fd);
	if (it != w.socks.end()) {
		pt("closing"); // a cancellation point, too
		w.socks.erase(it);
		if (fd == w.connectedFd) w.connectedFd = -1;
		return __real_close(fd);
	}
	REQUIRE(fd >= -1 && fd < 100000, "close of descriptor %d, which never was a socket", fd);
	REQUIRE(fd < 0 || !w.usedSocks.count(fd), "fd %d closed twice", fd);
	return __real_close(fd);
}
}

static void fill(Gen & g, size_t max, bool errors)
{
	w.addrs.clear();
	size_t n = 1 + g.small(0, max - 1);
	std::set<std::string> seen;
	int sockErr4 = errors && g.chance(1, 12) ? EAFNOSUPPORT : 0, sockErr6 = errors && g.chance(1, 8) ? g.pick<int>({ EAFNOSUPPORT, EMFILE }) : 0;
	bool allFail = errors && g.chance(1, 4);
	for (size_t i = 0; i < n; ++i) {
		Addr a {};
		size_t f = g.weighted({ 5, 5, 1 });
		a.family = f == 0 ? AF_INET : f == 1 ? AF_INET6 : g.pick<int>({ AF_UNIX, AF_PACKET, 77 });
		if (!errors && f == 2) a.family = AF_INET;
		for (auto & b : a.ip) b = g.chance(1, 3) ? g.byte() : 0;
		a.ip[3] ^= i; a.ip[15] ^= i;
		if (a.family == AF_INET) memset(a.ip + 4, 0, 12);
		if (a.family == AF_INET6) a.scope = g.chance(1, 5) ? 2 : 0;
		a.sockErr = a.family == AF_INET ? sockErr4 : a.family == AF_INET6 ? sockErr6 : 0;
		a.connErr = !errors ? ECONNREFUSED : allFail || g.chance(1, 2) ? g.pick<int>({ ECONNREFUSED, ETIMEDOUT, ENETUNREACH, EHOSTUNREACH, EADDRNOTAVAIL, EACCES }) : 0;
		a.takes = g.chance(1, 4) ? g.range(0, 130000) * 1000000 : 0;
		std::string key = std::to_string(a.family) + show(a);
		if (a.family == AF_INET || a.family == AF_INET6) { if (!seen.insert(key).second) continue; }
		w.addrs.push_back(a);
	}
}
static bool usable(const Addr & a) { return (a.family == AF_INET || a.family == AF_INET6) && !a.sockErr; }

static void prop(Gen & g)
{
	unsigned calls = 1 + g.small(0, 4);
	unsigned multi = 0, cancelled = 0;
	for (unsigned c = 0; c < calls; ++c) {
		w = World();
		w.g = &g;
		w.host = g.pick<const char *>({ "server", "localhost", "10.1.2.3", "::1", "a.very.long.name.example.com", "" });
		w.port = g.chance(1, 2) ? g.raw(65535) : g.pick<int>({ 0, 1, 80, 10004, 0x1a1a, 256, 65535 });
		if (g.chance(1, 10)) w.gaiErr = g.pick<int>({ EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_SYSTEM, EAI_MEMORY });
		fill(g, 8, true);
		w.cancels = g.chance(1, 3);
		note("connect to '%s' port %u%s", w.host.c_str(), w.port, w.gaiErr ? ": not resolvable" : "");
		for (const Addr & a : w.addrs) note("  family %d %s: %s %s", a.family, show(a).c_str(), a.sockErr ? "no socket" : "", a.connErr ? strerror(a.connErr) : "accepts");
		sched::reset(g, g.pick<unsigned>({ 1, 3 }));
		int result = -2;
		memtrack::start();
		int t = sched::spawn("connector", [&] { result = NETC_connect("T", w.host.c_str(), w.port); });
		uint64_t limit = 2000, at = w.cancels ? g.raw(2 + 3 * w.addrs.size()) : limit;
		sched::run([&] {
			if (sched::steps() > limit) fail("no end: %s", sched::where().c_str());
			return sched::ended(t) || sched::steps() >= at; });
		if (!sched::ended(t)) {
			note("  cancelled: %s", sched::where().c_str());
			sched::cancel(t);
			sched::run([&] { return sched::ended(t); });
		}
		memtrack::stop();
		note("  -> %s", result == -2 ? "cancelled" : result < 0 ? "failed" : "connected");
		REQUIRE(!w.lists, "%u resolver results are left behind", w.lists);
		REQUIRE(w.resolves <= 1, "resolved %u times", w.resolves);
		if (result == -2) {
			++cancelled;
			REQUIRE(w.socks.empty(), "a socket is left behind after cancellation");
			REQUIRE(!memtrack::live(), "%zu memory blocks are left behind after cancellation", memtrack::live());
			continue;
		}
		REQUIRE(!memtrack::live(), "%zu memory blocks are left behind", memtrack::live());
		size_t nUsable = 0; bool accepts = false;
		for (const Addr & a : w.addrs) if (usable(a)) { ++nUsable; accepts |= !a.connErr; }
		if (w.gaiErr) { nUsable = 0; accepts = false; }
		if (accepts) {
			REQUIRE(result >= 0, "connecting failed after %zu of %zu addresses though one would have accepted", w.tried.size(), nUsable);
			REQUIRE(result == w.connectedFd, "fd %d returned, but %d is connected", result, w.connectedFd);
			REQUIRE(w.socks.size() == 1, "%zu sockets are left behind", w.socks.size() - 1);
			REQUIRE(fcntl(result, F_GETFD) & FD_CLOEXEC, "the socket is inherited by other programs");
			w.single = true;
			__wrap_close(result);
		} else {
			REQUIRE(result == -1, "%d returned though no address accepts", result);
			REQUIRE(w.tried.size() == nUsable, "%zu of %zu addresses tried", w.tried.size(), nUsable);
			REQUIRE(w.socks.empty(), "a socket is left behind");
			label("no address accepts");
		}
		if (w.tried.size() > 1) ++multi;
	}
	if (multi) label("several addresses tried");
	if (cancelled) label("cancelled");
	if (multi || cancelled) nontrivial();
}

static void order(Gen & g)
{
	w = World();
	w.g = &g;
	w.single = true;
	w.host = "host";
	w.port = 10004;
	fill(g, 5, false);
	size_t n = w.addrs.size();
	std::set<int> first, last;
	unsigned calls = 60 * n;
	for (unsigned i = 0; i < calls; ++i) {
		w.tried.clear();
		w.usedSocks.clear();
		REQUIRE(NETC_connect("T", "host", 10004) == -1, "connected");
		REQUIRE(w.tried.size() == n, "%zu of %zu addresses tried", w.tried.size(), n);
		first.insert(w.tried.front());
		last.insert(w.tried.back());
	}
	note("%zu addresses, %u calls", n, calls);
	REQUIRE(first.size() == n, "in %u attempts only %zu of %zu addresses were tried first", calls, first.size(), n);
	REQUIRE(last.size() == n, "in %u attempts only %zu of %zu addresses were tried last", calls, last.size(), n);
	if (n > 1) nontrivial();
}

static void random(Gen & g)
{
	uint32_t n = 1 + (g.chance(1, 2) ? g.raw(40) : g.chance(1, 2) ? g.raw(0x7ffffffe) : g.pick<uint32_t>({ 1000, 1u << 30, (1u << 30) + 1, 0x7ffffffe, 0x7ffffffe - 1 }));
	unsigned calls = n <= 41 ? 60 * n : 100;
	std::set<uint32_t> seen;
	for (unsigned i = 0; i < calls; ++i) {
		uint32_t r = UTIL_randInt(n);
		REQUIRE(r < n, "random number %u, limit is %u", r, n);
		seen.insert(r);
	}
	note("%u numbers below %u: %zu different", calls, n, seen.size());
	if (n <= 41) REQUIRE(seen.size() == n, "%zu of %u possible numbers in %u drawings", seen.size(), n, calls);
	nontrivial();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c27_connect", prop, 60000, 1000000, 500, 60, "resolver results of up to eight addresses of all families, failing sockets and connections, cancellation at any point (resolving, connecting, closing); nontrivial: several addresses tried or cancelled" },
		{ "c27_order", order, 2000, 20000, 50, 60, "repeated attempts on hosts with up to five addresses, none accepting: each one is first and last at some time; nontrivial: more than one address" },
		{ "c27_random", random, 4000, 60000, 50, 60, "random numbers below random limits; every value of small ranges is drawn; always nontrivial" },
	});
}
