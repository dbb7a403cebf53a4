// C28, C30, C32: the complete feeder daemon (src/dump1090/dump1090.c and all components) against simulated
// sockets, with all threads on the deterministic scheduler; C35: the same for the Radarcape daemon
// (src/radarcape/main.c), compiled with RADARCAPE; C39: the stand-alone Radarcape daemon, compiled with
// RADARCAPE and STANDALONE, which has the receiver and the GPS on serial lines, programs the FPGA, serves the
// watchdog and executes remote commands
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include "sched.hh"
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <arpa/inet.h>
#include <dirent.h>
#include <getopt.h>
#include <net/if.h>
#include <net/if_arp.h>
#include <sys/ioctl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
int daemon_main(int, char **);
#include "util/cfgfile.h"
#include "util/component.h"
#include "core/network.h"
#include "core/filter.h"
#include "core/buffer.h"
#include "util/statistics.h"
}
#undef main
#include <poll.h>
#include <sys/mman.h>
#if defined(STANDALONE) || !defined(RADARCAPE)
#define COMMANDS // remote commands
#endif
#ifdef STANDALONE
#include <fcntl.h>
#include <termios.h>
#include <sys/wait.h>
#define BOARD_NOW (sched::now() / 1000)
#include "board.hh"
#endif
using namespace pbt;

static const int64_t S = 1000000000ll, MS = 1000000ll;

namespace {
enum Peer { SERVER, RECEIVER, GPSRX, OTHER };
const char * const PEER[] = { "server", "receiver", "GPS", "?" };
struct Fix { Bytes pos; size_t end; };
struct Msg { uint8_t type; Bytes content; size_t end; uint64_t step; int64_t time; };
struct Chunk { size_t upTo; uint64_t from, to; };   // delivered and processed in [from, to]
struct Sock {
	int fd; Peer peer = OTHER; unsigned conn = 0;
	bool connected = false, shut = false, closed = false, eof = false, rst = false, halfDead = false;
	Bytes in; size_t inPos = 0;   // to the daemon
	Bytes out;                    // accepted from the daemon
	std::vector<uint64_t> outStep; // step each byte was accepted at
	size_t room = SIZE_MAX;
	std::vector<Chunk> chunks;
	unsigned readers = 0, writers = 0;
	std::vector<Fix> fixes;       // GPS: valid positions sent
	uint64_t firstRecv = UINT64_MAX;
	// receiver: frames sent
	struct F { BFrame f; size_t end; };
	std::vector<F> frames;
	uint64_t openedAt = 0, dupSent = 0;
	// server: filter packets
	struct P { size_t end; uint8_t mask, cfg; };
	std::vector<P> packets;
	size_t parsed = 0;           // server: messages handled
	int64_t onlineFrom = 0, onlineTo = 0;
	bool dead() const { return rst || shut || closed; }
	bool cloexec = false;
#ifdef STANDALONE
	bool line = false;           // a serial line
	Bytes cmd;                   // incomplete command
	std::map<char, char> opt;    // options of the receiver, by lower case letter
#endif
#ifdef COMMANDS
	struct Cmd { size_t end; uint8_t type; Bytes payload; };
	std::vector<Cmd> cmds;       // server: commands
#endif
};
struct Cfg {
	std::map<std::string, std::string> vals; // section.key -> text
	// what the daemon is expected to use
	std::string serverHost = "collector.opensky-network.org", inputHost = "localhost", user;
	std::string gpsHost = "localhost";
#ifdef STANDALONE
	bool black = false, crc = true, fec = true, program = true;
	int broken = 0; // hardware: 1, 2: GPIOs not accessible, 3: FPGA
	std::string rbf = "fw/openskyd.rbf";
	Bytes bitstream;
	unsigned serverPort = 10004, inputPort = 0, gpsPort = 0;
#elif defined(RADARCAPE)
	unsigned serverPort = 10004, inputPort = 10003, gpsPort = 10685;
#else
	unsigned serverPort = 10004, inputPort = 30005, gpsPort = 0;
#endif
	double lat, lon, alt; bool position = true;
	int devType = 5;
	bool serial = false; uint32_t serialNo = 0;
	bool history = false; unsigned statBacklog = 0;
#ifdef RADARCAPE
	bool sync = true, ext = true;
#else
	bool sync = false, ext = true;
#endif
	uint8_t mac[6]; bool hasMac = true;
	bool refuse = false; std::string why;
	int timeoutMs = 1500;
};
struct World {
	Gen * g = nullptr;
	Cfg c;
	std::vector<std::unique_ptr<Sock>> socks;
	bool up[3] = { true, true, true };
	bool &serverUp = up[0], &receiverUp = up[1], &gpsUp = up[2];
	int connFail[3] = {};
	int &serverFail = connFail[0], &receiverFail = connFail[1], &gpsFail = connFail[2]; // how connecting fails: 0 refused, 1 time out
	bool sigint = false, emerg = false, ended = false, faults = true, stuck = false, slow = false;
	std::string emergMsg;
	int result = -1;
	unsigned lists = 0;
	uint64_t frameNo = 0;
	int64_t sigintAt = 0;
	bool knowsSerial = false; uint32_t serialNo = 0; bool wantResponse = false;
	unsigned responsesSent = 0;
	uint64_t attempts = 0, failed = 0;
	bool macSocket = false;
	std::string save, saveErr;
#ifdef COMMANDS
	bool replaced = false, execFails = false, upgradeWorks = true;
	std::vector<std::string> newProgram;
	pid_t pid = 0;
	int64_t startedAt = 0;
#endif
	Sock * conn(Peer p) { for (auto it = socks.rbegin(); it != socks.rend(); ++it) if ((*it)->peer == p && (*it)->connected && !(*it)->dead()) return it->get(); return nullptr; }
	Sock * server() { return conn(SERVER); }
	Sock * receiver() { return conn(RECEIVER); }
	Sock * gps() { return conn(GPSRX); }
};
std::unique_ptr<World> theWorld(new World);
#define w (*theWorld)
struct List { addrinfo ai; sockaddr_in in; };
}
static Sock * sk(int fd)
{
	return fd > 1000 && fd <= 1000 + (int)w.socks.size() ? w.socks[fd - 1001].get() : nullptr;
}
static Sock & use(int fd, const char * what)
{
	Sock * s = sk(fd);
	REQUIRE(s, "%s on fd %d, which is no socket", what, fd);
	REQUIRE(!s->closed, "%s on socket %d, which is closed", what, fd);
	return *s;
}

static uint32_t ipOf(const std::string & host)
{
	if (w.c.serverHost == host) return 0x0a000001;
	if (w.c.inputHost == host) return 0x0a000002;
	if (w.c.gpsHost == host && w.c.gpsPort) return 0x0a000003;
	return 0;
}
static const int MACFD = 999999;

extern "C" {
int __real_getaddrinfo(const char *, const char *, const addrinfo *, addrinfo **);
int __wrap_getaddrinfo(const char * node, const char *, const struct addrinfo *, struct addrinfo ** res)
{
	sched::point("resolving");
	uint32_t ip = node ? ipOf(node) : 0;
	if (!ip) fail("host '%s' resolved, which is not configured", node ? node : "(null)");
	List * l = new List();
	l->ai.ai_family = AF_INET;
	l->ai.ai_socktype = SOCK_STREAM;
	l->ai.ai_protocol = IPPROTO_TCP;
	l->ai.ai_addr = (sockaddr *)&l->in;
	l->ai.ai_addrlen = sizeof l->in;
	l->in.sin_family = AF_INET;
	l->in.sin_addr.s_addr = htonl(ip);
	*res = &l->ai;
	++w.lists;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo * ai) { --w.lists; delete (List *)ai; }
int __wrap_socket(int, int type, int)
{
	if ((type & 0xf) == SOCK_DGRAM) {
		REQUIRE(!w.macSocket, "socket for the MAC address opened twice");
		w.macSocket = true;
		return MACFD;
	}
	w.socks.emplace_back(new Sock);
	w.socks.back()->fd = 1000 + w.socks.size();
	w.socks.back()->cloexec = type & SOCK_CLOEXEC;
	return w.socks.back()->fd;
}
int __wrap_connect(int fd, const struct sockaddr * sa, socklen_t)
{
	Sock & s = use(fd, "connect");
	const sockaddr_in * a = (const sockaddr_in *)sa;
	unsigned port = ntohs(a->sin_port);
	uint32_t ip = ntohl(a->sin_addr.s_addr);
#ifdef STANDALONE
	w.c.inputHost = w.c.gpsHost = "-"; // on serial lines
#endif
	bool srv = port == w.c.serverPort && ip == ipOf(w.c.serverHost), rcv = port == w.c.inputPort && ip == ipOf(w.c.inputHost);
	bool gps = w.c.gpsPort && port == w.c.gpsPort && ip == ipOf(w.c.gpsHost);
	REQUIRE(srv || rcv || gps, "connection to %s, port %u, which is not configured", ip == 0x0a000001 ? "the server" : ip == 0x0a000002 ? "the receiver" : ip == 0x0a000003 ? "the GPS" : "?", port);
	if (srv + rcv + gps > 1) discard("same address"); // not distinguishable
	s.peer = srv ? SERVER : rcv ? RECEIVER : GPSRX;
	if (srv) ++w.attempts;
	sched::point("connecting");
	if (w.faults && w.g->chance(1, 4)) sched::sleepFor("connecting", w.g->range(0, 3000) * MS, true);
	if (!w.up[s.peer]) {
		if (w.connFail[s.peer]) { sched::sleepFor("connecting", 20 * S, true); errno = ETIMEDOUT; }
		else errno = ECONNREFUSED;
		if (srv) ++w.failed;
		return -1;
	}
	for (auto & o : w.socks) if (o->peer == s.peer && o->connected) ++s.conn;
	s.connected = true;
	s.openedAt = sched::steps();
	s.onlineFrom = sched::now();
	if (srv && w.slow) s.room = w.g->range(1, 200);
	note("  %s connection %u", PEER[s.peer], s.conn);
	return 0;
}
ssize_t __wrap_send(int fd, const void * buf, size_t len, int flags)
{
	if (fd == -1) { sched::point("sending"); errno = EBADF; return -1; } // the other sender has seen the loss
	if (w.sigint && sk(fd) && sk(fd)->closed) { errno = EBADF; return -1; }
	Sock & s = use(fd, "send");
	REQUIRE(flags & MSG_NOSIGNAL, "send without MSG_NOSIGNAL: the daemon would be killed");
	REQUIRE(s.peer == SERVER, "%zu bytes sent to the %s", len, PEER[s.peer]);
	REQUIRE(len, "nothing sent");
	++s.writers;
	REQUIRE(s.writers == 1, "two threads send at the same time");
	struct Out { Sock & s; ~Out() { --s.writers; } } out { s };
	sched::block("sending", [&s] { return s.dead() || s.room; }, true);
	if (s.dead()) { errno = EPIPE; return -1; }
	size_t n = std::min(len, s.room);
	if (n > 1 && w.faults && w.g->chance(1, 20)) n = w.g->range(1, n - 1);
	if (s.room != SIZE_MAX) s.room -= n;
	const uint8_t * p = (const uint8_t *)buf;
	s.out.insert(s.out.end(), p, p + n);
	s.outStep.resize(s.out.size(), sched::steps());
	return n;
}
ssize_t __wrap_recv(int fd, void * buf, size_t len, int)
{
	if (fd == -1) { sched::point("receiving"); errno = EBADF; return -1; }
	Sock & s = use(fd, "recv");
	++s.readers;
	REQUIRE(s.readers == 1, "two threads receive at the same time");
	struct Out { Sock & s; ~Out() { --s.readers; } } out { s };
	if (!s.chunks.empty() && !s.chunks.back().to) s.chunks.back().to = sched::steps();
	if (s.firstRecv == UINT64_MAX) s.firstRecv = sched::steps();
	sched::block("receiving", [&s] { return s.dead() || s.eof || s.inPos < s.in.size(); }, true);
	if (s.shut) return 0;
	if (s.rst) { errno = ECONNRESET; return -1; }
	if (s.inPos >= s.in.size()) return 0;
	size_t n = std::min(len, s.in.size() - s.inPos);
	if (n > 1 && w.g->chance(1, 4)) n = w.g->range(1, n);
	memcpy(buf, &s.in[s.inPos], n);
	s.inPos += n;
	s.chunks.push_back({ s.inPos, sched::steps(), 0 });
	return n;
}
int __wrap_shutdown(int fd, int)
{
	Sock & s = use(fd, "shutdown");
	if (!s.shut) s.onlineTo = sched::now();
	s.shut = true;
	return 0;
}
int __real_close(int);
int __wrap_close(int fd)
{
#ifdef STANDALONE
	if (fd >= 0 && fd == memFd) memFd = -1;
#endif
	if (fd < 1000) return __real_close(fd);
	if (fd == MACFD) {
		REQUIRE(w.macSocket, "socket for the MAC address closed twice");
		w.macSocket = false;
		return 0;
	}
	Sock & s = use(fd, "close");
	// while stopping, the position could still be sent: it sees the shutdown
	REQUIRE((!s.writers && !s.readers) || (w.sigint && s.shut), "a socket is closed while another thread uses it:%s", sched::where().c_str());
	s.closed = true;
	if (!s.chunks.empty() && !s.chunks.back().to) s.chunks.back().to = sched::steps();
	return 0;
}
int __wrap_ioctl(int fd, unsigned long req, struct ifreq * r)
{
	REQUIRE(fd == MACFD && w.macSocket && req == SIOCGIFHWADDR, "unexpected ioctl %lx on fd %d", req, fd);
	if (!w.c.hasMac) { errno = ENODEV; return -1; }
	r->ifr_hwaddr.sa_family = ARPHRD_ETHER;
	memcpy(r->ifr_hwaddr.sa_data, w.c.mac, 6);
	return 0;
}
FILE * __real_fopen64(const char *, const char *);
FILE * __wrap_fopen64(const char * n, const char * m)
{
	if (!strncmp(n, "/sys/", 5)) { errno = ENOENT; return nullptr; }
	return __real_fopen64(n, m);
}
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * n, const char * m)
{
	if (!strncmp(n, "/sys/", 5)) { errno = ENOENT; return nullptr; }
	return __real_fopen(n, m);
}
int __wrap_sigwait(const sigset_t * set, int * sig)
{
	REQUIRE(sigismember(set, SIGINT), "not waiting for SIGINT");
	sched::block("waiting for SIGINT", [] { return w.sigint; }, false);
	*sig = SIGINT;
	return 0;
}
}
#ifdef STANDALONE
#include "hardware.hh"
#endif
#ifdef COMMANDS
#include "commands.hh"
#endif

// ---------------------------------------------------------------- messages of a server connection
static size_t parseMsg(const Bytes & b, size_t pos, Msg & m)
{
	// returns the position after the message or 0 if it is incomplete
	if (pos + 2 > b.size()) return 0;
	REQUIRE(b[pos] == 0x1a, "byte %zu of the connection is %02x, expected the start of a message", pos, b[pos]);
	m.type = b[pos + 1];
	static const std::map<uint8_t, size_t> lens = { { 0x41, 16 }, { '5', 4 }, { '7', 24 }, { 0x43, 40 }, { 0x42, 0 }, { '6', 0 }, { '2', 14 }, { '3', 21 }, { '1', 9 }, { '4', 21 } };
	auto it = lens.find(m.type);
	REQUIRE(it != lens.end(), "message of unknown type %02x sent", m.type);
	m.content.clear();
	size_t p = pos + 2;
	while (m.content.size() < it->second) {
		if (p >= b.size()) return 0;
		if (b[p] == 0x1a) {
			if (p + 1 >= b.size()) return 0;
			REQUIRE(b[p + 1] == 0x1a, "message of type %02x cut off by another one", m.type);
			++p;
		}
		m.content.push_back(b[p++]);
	}
	m.end = p;
	return p;
}
static uint32_t u32(const uint8_t * p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static std::vector<Msg> messages(const Sock & s)
{
	std::vector<Msg> r;
	size_t pos = 0;
	Msg m;
	while (size_t e = parseMsg(s.out, pos, m)) {
		m.step = s.outStep[e - 1];
		r.push_back(m);
		pos = e;
	}
	return r;
}
// the server answers requests for serial numbers
static void serverReads(Sock & s)
{
	Msg m;
	while (size_t e = parseMsg(s.out, s.parsed, m)) {
		s.parsed = e;
		if (m.type == 0x42) {
			REQUIRE(!w.c.serial, "serial number requested although it is configured");
			w.wantResponse = true;
		}
	}
}
static void respond(Sock & s)
{
	uint32_t n = w.serialNo;
	uint8_t p[8] = { 0, 5, 0, 8, (uint8_t)(n >> 24), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n };
	s.in.insert(s.in.end(), p, p + 8);
	w.wantResponse = false;
	++w.responsesSent;
	note("  server: serial number");
}

// ---------------------------------------------------------------- configuration
static std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string be(double d)
{
	uint64_t v; memcpy(&v, &d, 8);
	std::string r;
	for (int i = 7; i >= 0; --i) r.push_back((char)(v >> (8 * i)));
	return r;
}
static void rmConf(const std::string & d)
{
	DIR * dir = opendir(d.c_str());
	if (!dir) return;
	while (struct dirent * e = readdir(dir)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
	closedir(dir);
}
static std::string recase(Gen & g, std::string s)
{
	if (g.chance(1, 3)) for (auto & c : s) c = g.chance(1, 2) ? toupper(c) : tolower(c);
	return s;
}
static void writeConf(Gen & g)
{
	std::string home = scratch();
	if (chdir(home.c_str())) fail("harness: chdir");
	for (const char * d : { "var/conf.d", "var" }) unlink(d); // left as files
	for (const char * d : { "var", "var/conf.d", "etc", "etc/conf.d" }) mkdir(d, 0755);
	rmConf("var/conf.d");
	rmConf("etc/conf.d");
	// distribute over up to three files
#ifdef RADARCAPE
	const char * files[] = { "etc/openskyd.conf", "etc/openskyd.conf", "etc/openskyd.conf" };
	unlink("etc/openskyd.conf");
	if (w.c.vals.empty() && g.chance(1, 2)) { note("no configuration file"); return; }
#else
	const char * files[] = { "etc/conf.d/10-a.conf", "etc/conf.d/20-b.conf", "var/conf.d/10-c.conf" };
#endif
	std::map<std::string, std::map<std::string, std::string>> out; // file -> section -> text
	for (auto & v : w.c.vals) {
		size_t dot = v.first.find('.');
		std::string sect = v.first.substr(0, dot), key = v.first.substr(dot + 1);
		std::string f = files[g.weighted({ 6, 1, 2 })];
#ifndef RADARCAPE
		// a value set by an earlier file does not matter; the directory below var comes first, then files are ordered by their numbers
		std::vector<std::string> earlier;
		if (f != files[2]) earlier.push_back(files[2]);
		if (f == files[1]) earlier.push_back(files[0]);
		for (auto & e : earlier) if (g.chance(1, 4)) {
			bool num = v.second.size() && v.second.find_first_not_of("0123456789") == std::string::npos;
			std::string other = v.second == "true" ? "false" : v.second == "false" ? "true" : num ? std::to_string(1 + g.raw(60000)) : g.pick<const char *>({ "shadow", "1.5", "" });
			out[e][sect] += recase(g, key) + " = " + other + "\n";
			note("(%s: %s = %s)", e.c_str(), v.first.c_str(), other.c_str());
		}
#endif
		out[f][sect] += recase(g, key) + (g.chance(1, 3) ? "=" : " = ") + v.second + "\n";
	}
#ifndef RADARCAPE
	// neither does a file which cannot be read
	if (g.chance(1, 4)) {
		std::string f = g.pick<const char *>({ "etc/conf.d/15-x.conf", "etc/conf.d/0.conf", "var/conf.d/5-y.conf", "var/conf.d/99.conf" });
		if (g.chance(1, 3)) symlink("missing", f.c_str());
		else { FILE * o = fopen(f.c_str(), "w"); fputs(g.pick<const char *>({ "[NETWORK\n", "[BROKEN", "garbage\n[\n" }), o); fclose(o); }
		note("(%s is broken)", f.c_str());
	}
#endif
	for (auto & f : out) {
		FILE * o = fopen(f.first.c_str(), "w");
		for (auto & s : f.second) fprintf(o, "[%s]\n%s%s", recase(g, s.first).c_str(), s.second.c_str(), g.chance(1, 3) ? "\n" : "");
		fclose(o);
	}
	for (auto & v : w.c.vals) note("%s = %s", v.first.c_str(), v.second.c_str());
}
#ifdef RADARCAPE
static void identity(Gen & g)
{
	Cfg & c = w.c;
#ifdef STANDALONE
	c.devType = 2;
	c.black = g.chance(1, 2);
	c.bitstream = genBytes(g, g.range(1, 40));
	w.upgradeWorks = g.chance(2, 3);
	w.execFails = g.chance(1, 3);
	note("%s board", c.black ? "black" : "white");
#else
	c.devType = 3;
#endif
	c.serial = true; // never requested from the server
	for (auto & b : c.mac) b = g.chance(1, 3) ? g.pick<uint8_t>({ 0, 0xff, 0x80, 0x7f, 0x1a }) : g.byte();
	if (g.chance(1, 4)) {
		c.serialNo = g.chance(1, 3) ? g.pick<uint32_t>({ 0, 1, 0x1a1a1a1a, 0x7fffffff }) : g.raw(0x7fffffff);
		c.vals["Device.serial"] = std::to_string(c.serialNo);
		c.hasMac = g.chance(1, 2);
	} else c.serialNo = ((uint32_t)c.mac[2] << 24 | c.mac[3] << 16 | c.mac[4] << 8 | c.mac[5]) & 0x7fffffff;
	w.serialNo = c.serialNo;
	note("MAC address %s", c.hasMac ? hex(c.mac, 6).c_str() : "unknown");
}
#else
static void identity(Gen & g)
{
	Cfg & c = w.c;
	c.lat = g.chance(1, 3) ? g.pick<double>({ 0, 90, -90, 26, 1e-300 }) : g.range(-90000000, 90000000) / 1e6;
	c.lon = g.chance(1, 3) ? g.pick<double>({ 0, 180, -180, 26, -0.0 }) : g.range(-180000000, 180000000) / 1e6;
	c.alt = g.chance(1, 3) ? g.pick<double>({ 0, -430, 8848.86, 26, 1e9 }) : g.range(-1000, 20000) / 7.0;
	c.vals["GPS.Latitude"] = dbl(c.lat);
	c.vals["GPS.Longitude"] = dbl(c.lon);
	c.vals["GPS.Altitude"] = dbl(c.alt);
	if (g.chance(2, 3)) {
		size_t n = g.chance(1, 3) ? g.pick<size_t>({ 40, 39, 38, 1 }) : g.range(1, 40);
		for (size_t i = 0; i < n; ++i) c.user += g.pick<char>({ 'a', 'Z', '0', '_', '-', '.', '@', 'x' });
		c.vals["IDENT.Username"] = c.user;
	}
	if (g.chance(2, 3)) {
		c.serial = true;
		c.serialNo = g.chance(1, 3) ? g.pick<uint32_t>({ 0, 1, 0x1a1a1a1a, 0x7fffffff }) : g.raw(0x7fffffff);
		c.vals["Device.serial"] = std::to_string(c.serialNo);
	}
	w.serialNo = c.serial ? c.serialNo : g.u32();
#if defined(DUMP1090_DONATED)
	c.devType = 6;
#elif defined(DUMP1090_KIT)
	c.devType = 7;
#endif
}
#endif
static Bytes userMsg(const std::string & u)
{
	Bytes b(40, 0);
	for (size_t i = 0; i < u.size(); ++i) b[i] = u[i];
	return b;
}

#ifdef RADARCAPE
static void checkPosition(const Sock & s, const Msg & m, const std::vector<Msg> & ms, size_t i)
{
	uint64_t at = s.outStep[i ? ms[i - 1].end : 0];
	bool known = false;
	std::vector<const Sock *> gs;
	for (auto & o : w.socks) if (o->peer == GPSRX && o->connected) gs.push_back(o.get());
	for (size_t k = 0; k < gs.size(); ++k) {
		const Sock & q = *gs[k];
		for (size_t f = 0; f < q.fixes.size(); ++f) {
			if (q.fixes[f].pos != m.content) continue;
			known = true;
			const Chunk * c = nullptr, * n = nullptr;
			for (auto & x : q.chunks) if (x.upTo >= q.fixes[f].end) { c = &x; break; }
			if (!c || c->from > at) continue; // not yet received
			uint64_t until = k + 1 < gs.size() ? gs[k + 1]->firstRecv : UINT64_MAX;
			if (f + 1 < q.fixes.size()) for (auto & x : q.chunks) if (x.upTo >= q.fixes[f + 1].end) { n = &x; break; }
			if (n && n->to) until = std::min(until, n->to);
			if (until >= s.openedAt) return;
		}
	}
	if (known) fail("position %s sent on connection %u is outdated", hex(m.content).c_str(), s.conn);
	fail("position %s sent on connection %u was never reported by the GPS", hex(m.content).c_str(), s.conn);
}
#endif
// checks one connection; returns the index of the first message after the login (npos: none)
struct ConnInfo { bool login = false; size_t first = 0; uint64_t loginStep = 0; unsigned positions = 0; };
static ConnInfo checkConn(const Sock & s, const std::vector<Msg> & ms)
{
	ConnInfo r;
	size_t stage = 0; // 0 device id, 1 serial, 2 user, 3 done
	unsigned requests = 0;
	for (size_t i = 0; i < ms.size(); ++i) {
		const Msg & m = ms[i];
		if (m.type == '7') {
			REQUIRE(stage >= 1, "position sent on connection %u before the login", s.conn);
#ifdef RADARCAPE
			checkPosition(s, m, ms, i);
#else
			Bytes want;
			for (double d : { w.c.lat, w.c.lon, w.c.alt }) for (char ch : be(d)) want.push_back(ch);
			REQUIRE(m.content == want, "position %s sent, expected %s", hex(m.content).c_str(), hex(want).c_str());
#endif
			++r.positions;
			REQUIRE(r.positions <= 2, "position sent %u times on one connection", r.positions);
			continue;
		}
		switch (stage) {
		case 0:
			REQUIRE(m.type == 0x41, "connection %u starts with a message of type %02x", s.conn, m.type);
			REQUIRE(u32(&m.content[0]) == (uint32_t)w.c.devType, "device type %u announced, expected %d", u32(&m.content[0]), w.c.devType);
			REQUIRE(u32(&m.content[4]) == 2 && u32(&m.content[8]) == 1 && u32(&m.content[12]) == 7, "version %u.%u.%u announced", u32(&m.content[4]), u32(&m.content[8]), u32(&m.content[12]));
			stage = 1;
			break;
		case 1:
			if (m.type == 0x42) {
				++requests;
				REQUIRE(!w.c.serial, "serial number requested although it is configured");
				REQUIRE(requests == 1, "serial number requested twice on one connection");
				break;
			}
			REQUIRE(m.type == '5', "message of type %02x on connection %u, expected the serial number", m.type, s.conn);
			REQUIRE(u32(&m.content[0]) == w.serialNo, "serial number %u sent, expected %u", u32(&m.content[0]), w.serialNo);
			stage = w.c.user.empty() ? 3 : 2;
			r.loginStep = m.step;
			break;
		case 2:
			REQUIRE(m.type == 0x43, "message of type %02x on connection %u, expected the user name", m.type, s.conn);
			REQUIRE(m.content == userMsg(w.c.user), "user name %s sent, expected '%s'", hex(m.content).c_str(), w.c.user.c_str());
			stage = 3;
			r.loginStep = m.step;
			break;
		case 3:
			REQUIRE(m.type == '6' || m.type == '2' || m.type == '3', "message of type %02x after the login on connection %u", m.type, s.conn);
			break;
		}
		if (stage == 3 && !r.login) { r.login = true; r.first = i + 1; }
	}
	return r;
}

// ---------------------------------------------------------------- common
static void startWorld(Gen & g)
{
	theWorld.reset(new World);
	w.g = &g;
	logstub::onEmerg = [] (const LogLine & l) {
		note("  EMERGENCY %s", l.msg.c_str());
		w.emerg = true;
		w.emergMsg = l.msg;
		if (sched::active()) sched::block("ended by an emergency", [] { return false; }, false);
	};
}
static void startDaemon()
{
#ifdef COMMANDS
	setupCommands();
#endif
#ifdef STANDALONE
	setupHardware(*w.g);
#endif
	sched::spawn("main", [] {
		char name[] = "openskyd", save[] = "--save", black[] = "--black";
		std::string file = w.save;
		char * argv[] = { name, nullptr, nullptr, nullptr, nullptr };
		int n = 1;
#ifdef STANDALONE
		if (w.c.black) argv[n++] = black;
#endif
		if (!w.save.empty()) { argv[n++] = save; argv[n++] = &file[0]; }
		optind = 0;
		w.result = daemon_main(n, argv);
		w.ended = true;
	});
}
static void stopDaemon()
{
	w.sigint = true;
	w.sigintAt = sched::now();
	int64_t limit = sched::now() + 60 * S;
	note("  SIGINT");
	sched::run([limit] {
		if (sched::now() > limit) fail("still running a minute after SIGINT:%s", sched::where().c_str());
		return w.ended || w.emerg; });
	REQUIRE(!w.emerg, "emergency while stopping: %s", w.emergMsg.c_str());
	REQUIRE(w.result == 0, "exit status %d", w.result);
#ifdef STANDALONE
	checkWatchdog();
	for (int i = 0; i < 4; ++i) REQUIRE(!mappedPage[i], "GPIO controller %d stays mapped", i);
	for (auto & s : w.socks) if (s->line && s->peer == GPSRX) s->closed = true; // left to the end of the process
#endif
	for (auto & s : w.socks) REQUIRE(s->closed || !s->connected, "a socket to the %s is left open", PEER[s->peer]);
	REQUIRE(!w.macSocket, "the socket for the MAC address is left open");
	REQUIRE(!w.lists, "resolver results are left behind");
	for (auto & l : logstub::take()) REQUIRE(l.msg.find("could not be stopped") == std::string::npos, "%s", l.msg.c_str());
}
static void stepLimit(uint64_t n)
{
	if (sched::steps() > n) fail("too many steps without end:%s", sched::where().c_str());
}

static std::map<std::string, std::string> parseConf(const std::string & file)
{
	std::map<std::string, std::string> r;
	FILE * f = fopen(file.c_str(), "r");
	REQUIRE(f, "file '%s' was not written", file.c_str());
	char l[4096];
	std::string sect;
	auto low = [] (std::string s) { for (auto & c : s) c = tolower(c); return s; };
	auto trim = [] (std::string s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? std::string() : s.substr(a, b - a + 1); };
	while (fgets(l, sizeof l, f)) {
		std::string t = trim(l);
		if (t.empty() || t[0] == '#' || t[0] == ';') continue;
		if (t[0] == '[') { sect = low(t.substr(1, t.find(']') - 1)); continue; }
		size_t e = t.find('=');
		REQUIRE(e != std::string::npos, "line '%s' in the file written", t.c_str());
		std::string k = sect + "." + low(trim(t.substr(0, e)));
		REQUIRE(!r.count(k), "%s twice in the file written", k.c_str());
		r[k] = trim(t.substr(e + 1));
	}
	fclose(f);
	return r;
}
// ---------------------------------------------------------------- C28
#ifndef RADARCAPE
static void configProp(Gen & g)
{
	startWorld(g);
	Cfg & c = w.c;
	identity(g);
	auto refuse = [&] (const char * why) { c.refuse = true; c.why = why; };
	// deviations
	unsigned dev = g.chance(1, 5) ? 0 : 1 + g.small(0, 2);
	bool maybe = false;
	for (unsigned i = 0; i < dev; ++i) switch (g.weighted({ 3, 4, 2, 2, 2, 3, 2, 2 })) {
	case 0: { // incomplete position
		const char * k = g.pick<const char *>({ "GPS.Latitude", "GPS.Longitude", "GPS.Altitude" });
		c.vals.erase(k);
		refuse("incomplete position");
		break;
	}
	case 1: { // out of range
		if (g.chance(1, 2)) { c.lat = g.pick<double>({ 90.000001, -90.000001, 91, 180, -1e9, INFINITY, -INFINITY, NAN, nextafter(90, 91), 1e308 }); if (c.vals.count("GPS.Latitude")) c.vals["GPS.Latitude"] = dbl(c.lat); }
		else { c.lon = g.pick<double>({ 180.000001, -180.000001, 181, 360, 1e9, INFINITY, -INFINITY, NAN, nextafter(-180, -181) }); if (c.vals.count("GPS.Longitude")) c.vals["GPS.Longitude"] = dbl(c.lon); }
		refuse("position out of range");
		break;
	}
	case 2: { // no number
		const char * k = g.pick<const char *>({ "GPS.Latitude", "GPS.Longitude", "GPS.Altitude" });
		if (!c.vals.count(k)) break;
		c.vals[k] = g.pick<const char *>({ "abc", "N48", "--5", "," , "" });
		refuse("position is no number");
		break;
	}
	case 3: // hosts
		if (g.chance(1, 2)) {
			c.serverHost = g.pick<const char *>({ "server.example", "10.0.0.1", "x", "" });
			c.vals["NETWORK.Host"] = c.serverHost;
			if (c.serverHost.empty()) c.serverHost = Cfg().serverHost; // default
		} else {
			c.inputHost = g.pick<const char *>({ "receiver", "::1", "192.168.1.77", "" });
			c.vals["INPUT.host"] = c.inputHost;
			if (c.inputHost.empty()) c.inputHost = Cfg().inputHost;
		}
		break;
	case 4: { // ports
		bool srv = g.chance(1, 2);
		unsigned p = g.chance(1, 3) ? g.raw(65535) : g.pick<unsigned>({ 0, 1, 80, 65534, 65535 });
		(srv ? c.serverPort : c.inputPort) = p;
		c.vals[srv ? "NETWORK.Port" : "INPUT.port"] = std::to_string(p);
		break;
	}
	case 5: { // device type
		std::string t = g.pick<const char *>({ "hptoa", "opensky", "dump1090", "hpto", "hptoax", "open", "openskyx", "", "mutability", "hp toa" });
		if (g.chance(1, 5)) t = std::string(g.range(16, 26), 'x');
		if (g.chance(1, 2)) for (auto & ch : t) if (g.chance(1, 2)) ch = toupper(ch);
		c.vals["Device.Type"] = t;
#if !defined(DUMP1090_DONATED) && !defined(DUMP1090_KIT)
		std::string l = t;
		for (auto & ch : l) ch = tolower(ch);
		c.devType = l == "hptoa" || l == "opensky" ? 8 : 5;
#endif
		break;
	}
	case 6: { // user name
		size_t n = g.pick<size_t>({ 40, 41, 39, 60, 200, 0 });
		c.user = std::string(n, 'u');
		c.vals["IDENT.Username"] = c.user;
		if (n > 40) { c.user.clear(); maybe = true; }
		break;
	}
	case 7: // limits
		c.lat = g.pick<double>({ 90, -90, nextafter(90, 0), nextafter(-90, 0) });
		c.lon = g.pick<double>({ 180, -180, nextafter(180, 0), nextafter(-180, 0) });
		if (c.vals.count("GPS.Latitude") && !c.refuse) c.vals["GPS.Latitude"] = dbl(c.lat);
		if (c.vals.count("GPS.Longitude") && !c.refuse) c.vals["GPS.Longitude"] = dbl(c.lon);
		break;
	}
	if (!c.serverPort) refuse("server port 0");
	if (!c.inputPort) refuse("receiver port 0");
	if (c.serverHost == c.inputHost && c.serverPort == c.inputPort) discard("same address");
	writeConf(g);
	// directories: the one below /var is created if it is missing
	if (g.chance(1, 3) && !rmdir("var/conf.d")) {
		switch (g.weighted({ 3, 3, 1, 1 })) {
		case 0: note("var/conf.d is missing"); break;
		case 1: note("var is missing"); REQUIRE(!rmdir("var"), "harness: rmdir"); break;
		case 2: note("var/conf.d is a file"); fclose(fopen("var/conf.d", "w")); refuse("no directory"); break;
		default: note("var is a file"); REQUIRE(!rmdir("var"), "harness: rmdir"); fclose(fopen("var", "w")); refuse("no directory"); break;
		}
		label("without directory");
	}
	if (g.chance(1, 3) && !rmdir("etc/conf.d")) { note("etc/conf.d is missing"); label("without directory"); }
	note(c.refuse ? "to be refused: %s" : "acceptable%s", c.refuse ? c.why.c_str() : "");
	sched::reset(g, 4);
	logstub::record = true;
	logstub::take();
	startDaemon();
	int64_t until = sched::now() + 8 * S;
	int env = sched::spawn("server", [] {
		while (true) {
			if (Sock * s = w.server()) { serverReads(*s); if (w.wantResponse) respond(*s); }
			sched::sleepFor("server", 100 * MS, true);
		}
	});
	(void)env;
	sched::run([until] { stepLimit(400000); return w.emerg || w.ended || sched::now() > until; });
	if (c.refuse) {
		REQUIRE(w.emerg || (w.ended && w.result), "the daemon runs with a configuration it has to refuse (%s)", c.why.c_str());
		REQUIRE(w.socks.empty(), "a connection was made in spite of a configuration to be refused");
		label("refused");
		nontrivial();
		done();
	}
	REQUIRE(!w.emerg, "acceptable configuration refused: %s", w.emergMsg.c_str());
	REQUIRE(!w.ended, "the daemon ended with status %d", w.result);
	Sock * s = w.server(), * r = w.receiver();
	REQUIRE(s, "no connection to the server");
	REQUIRE(r, "no connection to the receiver");
	struct stat st;
	REQUIRE(!stat("var/conf.d", &st) && S_ISDIR(st.st_mode), "there is no directory for what the daemon has to store");
	auto ms = messages(*s);
	ConnInfo ci = checkConn(*s, ms);
	REQUIRE(ci.login, "no complete login after eight seconds (%zu messages)", ms.size());
	REQUIRE(ci.positions >= 1, "position not reported");
	if (maybe) label("user name too long");
	else if (!c.user.empty()) label("user name");
	label("running");
	nontrivial();
	stopDaemon();
	done();
}

#include "debconf.hh"

#else
// ---------------------------------------------------------------- GPS receiver of the Radarcape
static uint64_t posNo;
static void sendGps(Gen & g, Sock & s, bool force = false, bool cut = false)
{
	Bytes p { 0x8f, 0xac };
	p.resize(69, 0);
	bool fix = force || g.chance(2, 3);
	p[2] = 7; p[13] = 0;
	for (size_t i : { 4, 5, 6, 7, 8, 14, 15, 60, 68 }) p[i] = g.byte();
	if (g.chance(1, 3)) p[12] = g.pick<uint8_t>({ 1, 2, 4, 8, 0x10 }); // harmless minor alarms
	if (!fix) switch (g.raw(6)) {
		case 0: p[2] = g.pick<uint8_t>({ 0, 1, 3, 4 }); break;
		case 1: p[3] = g.range(1, 6); break;
		case 2: p[9 + g.raw(1)] = 1 << g.raw(7); break;
		case 3: p[12] |= 0x20; break;
		case 4: p[11] |= 1; break;
		case 5: p[13] = g.pick<uint8_t>({ 1, 3, 8, 9, 10, 11, 12, 16 }); break;
		default: p[1] = g.pick<uint8_t>({ 0xab, 0xa2, 0xad }); break;
	}
	Fix f;
	double v[3] = { g.range(-1570796, 1570796) / 1e6, g.range(-3141592, 3141592) / 1e6, ++posNo + g.raw(999) / 1e3 };
	for (int i = 0; i < 3; ++i) {
		std::string b = be(v[i]), d = be(i < 2 ? v[i] * 57.2957795130823208767981548141051703 : v[i]);
		for (int k = 0; k < 8; ++k) { p[37 + 8 * i + k] = b[k]; f.pos.push_back(d[k]); }
	}
	if (!fix && g.chance(1, 6)) p.resize(g.range(3, 68)); // too short
	s.in.push_back(0x10);
	for (size_t i = 0; i < p.size(); ++i) { s.in.push_back(p[i]); if (p[i] == 0x10 && i) s.in.push_back(0x10); }
	s.in.push_back(0x10);
	s.in.push_back(0x03);
	f.end = s.in.size();
	// note: taking notes is a scheduling point
	if (cut) { s.in.pop_back(); s.eof = true; }
	else if (fix) s.fixes.push_back(f);
	note("  GPS: %s", cut ? "connection lost in a packet" : fix ? "position" : "no position");
}
// ---------------------------------------------------------------- C35: configuration
static std::string slurp(const std::string & n)
{
	std::string r;
	FILE * f = fopen(n.c_str(), "r");
	if (!f) return r;
	int c;
	while ((c = fgetc(f)) != EOF) r.push_back(c);
	fclose(f);
	return r;
}
static void configProp(Gen & g)
{
	startWorld(g);
	Cfg & c = w.c;
	identity(g);
	auto refuse = [&] (const char * why) { c.refuse = true; c.why = why; };
#ifdef STANDALONE
	std::map<std::string, std::string> want { { "network.timeout", "1500" }, { "filter.modesextsquitteronly", "true" }, { "filter.syncfilter", "true" }, { "filter.crc", "true" },
		{ "buffer.history", "false" }, { "statistics.enabled", "true" }, { "statistics.interval", "600" }, { "buffer.staticbacklog", "200" }, { "input.fec", "true" },
		{ "fpga.configure", "true" }, { "fpga.file", "openskyd.rbf" } };
	unsigned devs = g.chance(1, 5) ? 0 : 1 + g.small(0, 3);
	bool noFile = false, noName = false;
	for (unsigned i = 0; i < devs; ++i) switch (g.weighted({ 2, 2, 2, 3, 3, 2 })) {
	case 0: {
		std::string h = g.pick<const char *>({ "server.example", "10.0.0.1", "x", "", "::1" });
		c.vals["NETWORK.Host"] = h;
		c.serverHost = h.empty() ? Cfg().serverHost : h;
		break;
	}
	case 1:
		c.serverPort = g.chance(1, 3) ? g.raw(65535) : g.pick<unsigned>({ 0, 1, 80, 65534, 65535 });
		c.vals["NETWORK.Port"] = std::to_string(c.serverPort);
		break;
	case 2: // no serial number
		if (c.vals.count("Device.serial")) break;
		c.hasMac = false;
		break;
	case 3: {
		bool b = g.chance(1, 2);
		const char * t = b ? "true" : "false";
		switch (g.raw(6)) {
		case 0: c.vals["FILTER.SyncFilter"] = want["filter.syncfilter"] = t; break;
		case 1: c.vals["FILTER.ModeSExtSquitterOnly"] = want["filter.modesextsquitteronly"] = t; c.ext = b; break;
		case 2: c.vals["BUFFER.History"] = want["buffer.history"] = t; break;
		case 3: c.vals["NETWORK.Timeout"] = want["network.timeout"] = std::to_string(g.range(100, 100000)); break;
		case 4: c.vals["STATISTICS.Interval"] = want["statistics.interval"] = std::to_string(g.range(60, 100000)); break;
		case 5: c.vals["FILTER.CRC"] = want["filter.crc"] = t; c.crc = b; break;
		case 6: c.vals["INPUT.fec"] = want["input.fec"] = t; c.fec = b; break;
		}
		break;
	}
	case 4: // FPGA
		switch (g.raw(4)) {
		case 0: c.program = g.chance(1, 3); c.vals["FPGA.Configure"] = want["fpga.configure"] = c.program ? "true" : "false"; break;
		case 1: c.vals["FPGA.File"] = want["fpga.file"] = "other.rbf"; c.rbf = "fw/other.rbf"; noName = noFile = false; break;
		case 2: c.rbf = scratch() + "/abs.rbf"; c.vals["FPGA.File"] = want["fpga.file"] = c.rbf; noName = noFile = false; break;
		case 3: c.vals["FPGA.File"] = want["fpga.file"] = "none.rbf"; noFile = true; noName = false; break;
		case 4: c.vals["FPGA.File"] = want["fpga.file"] = ""; noName = noFile = true; break;
		}
		break;
	case 5: c.broken = g.range(1, 3); break;
	}
	if (noName) { c.vals.erase("FPGA.File"); want["fpga.file"] = "openskyd.rbf"; noFile = noName = false; c.rbf = "fw/openskyd.rbf"; } // as if it was not there
	if (!c.serverPort) refuse("server port 0");
	bool badConf = c.refuse;
#else
	std::map<std::string, std::string> want { { "network.timeout", "1500" }, { "filter.modesextsquitteronly", "true" }, { "filter.syncfilter", "true" },
		{ "buffer.history", "false" }, { "statistics.enabled", "true" }, { "statistics.interval", "600" }, { "buffer.staticbacklog", "200" } };
	unsigned dev = g.chance(1, 5) ? 0 : 1 + g.small(0, 3);
	for (unsigned i = 0; i < dev; ++i) switch (g.weighted({ 3, 3, 2, 3 })) {
	case 0: { // hosts
		std::string h = g.pick<const char *>({ "server.example", "10.0.0.1", "x", "", "::1" });
		switch (g.raw(2)) {
		case 0: c.vals["NETWORK.Host"] = h; c.serverHost = h.empty() ? Cfg().serverHost : h; break;
		case 1: c.vals["INPUT.host"] = h; c.inputHost = h.empty() ? Cfg().inputHost : h; break;
		default: c.vals["GPS.Host"] = h; c.gpsHost = h.empty() ? Cfg().gpsHost : h; break;
		}
		break;
	}
	case 1: {
		unsigned p = g.chance(1, 3) ? g.raw(65535) : g.pick<unsigned>({ 0, 1, 80, 65534, 65535 });
		const char * k[] = { "NETWORK.Port", "INPUT.port", "GPS.Port" };
		unsigned n = g.raw(2);
		*(n == 0 ? &c.serverPort : n == 1 ? &c.inputPort : &c.gpsPort) = p;
		c.vals[k[n]] = std::to_string(p);
		break;
	}
	case 2: // no serial number
		if (c.vals.count("Device.serial")) break;
		c.hasMac = false;
		break;
	case 3: {
		bool b = g.chance(1, 2);
		switch (g.raw(4)) {
		case 0: c.vals["FILTER.SyncFilter"] = want["filter.syncfilter"] = b ? "true" : "false"; break;
		case 1: c.vals["FILTER.ModeSExtSquitterOnly"] = want["filter.modesextsquitteronly"] = b ? "true" : "false"; break;
		case 2: c.vals["BUFFER.History"] = want["buffer.history"] = b ? "true" : "false"; break;
		case 3: c.vals["NETWORK.Timeout"] = want["network.timeout"] = std::to_string(g.range(100, 100000)); break;
		case 4: c.vals["STATISTICS.Interval"] = want["statistics.interval"] = std::to_string(g.range(60, 100000)); break;
		}
		break;
	}
	}
	if (!c.serverPort) refuse("server port 0");
	if (!c.inputPort) refuse("receiver port 0");
	if (!c.gpsPort) refuse("GPS port 0");
	std::set<std::pair<std::string, unsigned>> addrs { { c.serverHost, c.serverPort }, { c.inputHost, c.inputPort }, { c.gpsHost, c.gpsPort } };
	if (addrs.size() < 3) discard("same address");
#endif
	bool save = g.chance(1, 3), saveFails = save && g.chance(1, 4);
	if (!c.hasMac && !c.vals.count("Device.serial") && !save) refuse("no serial number");
	want["network.host"] = c.serverHost;
	want["network.port"] = std::to_string(c.serverPort);
#ifdef STANDALONE
	if (!save && c.broken && (c.broken < 3 || c.program)) refuse(c.broken < 3 ? "GPIOs are not accessible" : "FPGA cannot be programmed");
	if (!save && noFile && c.program) refuse("no bitstream");
#else
	want["input.host"] = c.inputHost; want["gps.host"] = c.gpsHost;
	want["input.port"] = std::to_string(c.inputPort); want["gps.port"] = std::to_string(c.gpsPort);
#endif
	writeConf(g);
	std::string conf = slurp("etc/openskyd.conf");
	note(c.refuse ? "to be refused: %s" : "acceptable%s", c.refuse ? c.why.c_str() : "");
	sched::reset(g, 4);
	logstub::record = true;
	logstub::take();
	if (save) {
		unlink("saved.conf");
		w.save = saveFails ? g.pick<const char *>({ "nodir/saved.conf", "/dev/full" }) : "saved.conf";
		note("--save %s", w.save.c_str());
	}
	startDaemon();
	int64_t until = sched::now() + 8 * S;
	bool sent = false;
	sched::spawn("GPS", [&] {
		while (true) {
			if (Sock * s = w.gps()) if (!sent) { sendGps(g, *s, true); sent = true; }
			sched::sleepFor("GPS", 500 * MS, true);
		}
	});
	sched::run([until] { stepLimit(400000); return w.emerg || w.ended || sched::now() > until; });
	REQUIRE(slurp("etc/openskyd.conf") == conf, "the configuration file was changed");
	if (c.refuse) {
		REQUIRE(w.emerg || (w.ended && w.result), "the daemon runs with a configuration it has to refuse (%s)", c.why.c_str());
#ifdef STANDALONE
		if (badConf) REQUIRE(!dev.attempt || dev.bits.empty(), "the FPGA is programmed with a configuration to be refused");
#endif
		REQUIRE(w.socks.empty(), "a connection was made in spite of a configuration to be refused");
		label("refused");
		nontrivial();
		done();
	}
	REQUIRE(!w.emerg, "acceptable configuration refused: %s", w.emergMsg.c_str());
	if (save) {
#ifdef STANDALONE
		REQUIRE(!accesses && !mappedPage[0], "the hardware is accessed though only the configuration was to be saved");
#endif
		REQUIRE(w.ended, "the daemon keeps running after saving its configuration");
		REQUIRE(w.socks.empty(), "a connection was made though only the configuration was to be saved");
		if (saveFails) REQUIRE(w.result, "saving the configuration failed, but the exit status is 0");
		else {
			REQUIRE(!w.result, "exit status %d after saving the configuration", w.result);
			auto got = parseConf("saved.conf");
			if (c.vals.count("Device.serial")) REQUIRE(got["device.serial"] == c.vals["Device.serial"], "serial = %s saved, expected %s", got["device.serial"].c_str(), c.vals["Device.serial"].c_str());
			else REQUIRE(got["device.serial"].empty(), "serial = %s saved, none is configured", got["device.serial"].c_str());
			for (auto & x : want) REQUIRE(got.count(x.first) && got[x.first] == x.second, "%s = '%s' saved, expected '%s'", x.first.c_str(), got[x.first].c_str(), x.second.c_str());
			// loading and saving it again changes nothing
			std::string text = slurp("saved.conf");
			unlink("etc/openskyd.conf");
			rename("saved.conf", "etc/openskyd.conf");
			w.ended = false;
			sched::run([] { return true; });
			startDaemon();
			sched::run([] { stepLimit(400000); return w.emerg || w.ended; });
			REQUIRE(!w.emerg && !w.result, "the saved configuration is not accepted: %s", w.emergMsg.c_str());
			REQUIRE(slurp("saved.conf") == text, "loading and saving the saved configuration changes it");
		}
		label(saveFails ? "saving fails" : "saved");
		nontrivial();
		done();
	}
	REQUIRE(!w.ended, "the daemon ended with status %d", w.result);
	Sock * s = w.server();
	REQUIRE(s, "no connection to the server");
	REQUIRE(w.receiver(), "no connection to the receiver");
	REQUIRE(w.gps(), "no connection to the GPS");
	ConnInfo ci = checkConn(*s, messages(*s));
	REQUIRE(ci.login, "no complete login after eight seconds");
	REQUIRE(ci.positions >= 1, "position not reported");
#ifdef STANDALONE
	checkFpga();
	for (char o : { 'C', c.ext ? 'D' : 'd', 'E', c.crc ? 'f' : 'F', 'G', 'H', c.fec ? 'i' : 'I', 'j', 'Y', 'R' }) REQUIRE(w.receiver()->opt[tolower(o)] == o, "option %c of the receiver is not set", o);
#endif
	label("running");
	nontrivial();
	stopDaemon();
	done();
}
#endif

// ---------------------------------------------------------------- C30
static BFrame newFrame(Gen & g)
{
	BFrame f = genFrame(g);
	if (f.type == '4' && g.chance(1, 2)) f.type = '3';
	if (f.payload.size() != payloadLenOf(f.type)) f.payload.resize(payloadLenOf(f.type));
	if (f.type == '3' && g.chance(3, 4)) f.payload[0] = g.pick<uint8_t>({ 17, 18 }) << 3;
	f.mlat = (f.mlat & 0xffffffff) | (++w.frameNo & 0xffff) << 32; // unique
	if (f.type == '4' && g.chance(1, 3)) f.mlat = 0;
	return f;
}
static void sendFrames(Gen & g, Sock & r, unsigned n)
{
	while (n--) {
		if (g.chance(1, 15)) { // something to be ignored
			Bytes junk { 0x1a, '5', 1, 2, 3, 4 };
			append(r.in, junk);
		}
		BFrame f = newFrame(g);
		append(r.in, f.raw());
		r.frames.push_back({ f, r.in.size() });
	}
}
static uint64_t lost, delivered;
static void check()
{
	struct W { bool conf; int what; bool val; uint64_t from, to; }; // what: 0 sync filter, 1 ext filter, 2 synchronized := false
	std::vector<W> writes;
	std::vector<const Sock *> servers, receivers;
	for (auto & s : w.socks) if (s->connected) (s->peer == SERVER ? servers : receivers).push_back(s.get());
	for (auto * s : servers) for (auto & p : s->packets) for (auto & c : s->chunks) if (c.upTo >= p.end) {
		uint64_t to = c.to ? c.to : UINT64_MAX;
		if (p.mask & 1) writes.push_back({ true, 0, !!(p.cfg & 1), c.from, to });
		if (p.mask & 2) writes.push_back({ true, 1, !!(p.cfg & 2), c.from, to });
		if (p.mask & 0x80) writes.push_back({ true, 2, false, c.from, to });
		break;
	}
	auto values = [&] (int what, bool init, uint64_t from, uint64_t to) {
		std::set<bool> v { init };
		for (auto & x : writes) if (x.what == what) {
			if (x.to < from) v = { x.val };          // before
			else if (x.from <= to) v.insert(x.val);  // at the same time
		}
		return v;
	};
	// frames in order with what may have happened to them
	struct Fr { BFrame f; bool must, may; uint64_t from, to; bool got = false; };
	std::vector<Fr> frames;
	for (auto * r : receivers) {
		std::set<bool> synced { false };
		uint64_t last = r->openedAt;
		for (auto & f : r->frames) {
			const Chunk * ch = nullptr;
			for (auto & c : r->chunks) if (c.upTo >= f.end) { ch = &c; break; }
			if (!ch) break; // not read
			uint64_t to = ch->to ? ch->to : UINT64_MAX;
			// resets of the synchronization since the last frame
			for (auto & x : writes) if (x.what == 2 && x.to >= last && x.from <= to) synced.insert(false);
			if (f.f.type == '4' && f.f.mlat) {
				bool conc = false;
				for (auto & x : writes) if (x.what == 2 && x.to >= ch->from && x.from <= to) conc = true;
				if (conc) synced.insert(true); else synced = { true };
			}
			last = ch->from;
			auto sy = values(0, w.c.sync, ch->from, to), ex = values(1, w.c.ext, ch->from, to);
			unsigned ft = f.f.payload[0] >> 3;
			bool must = true, may = false;
			for (bool a : sy) for (bool b : ex) for (bool c : synced) {
				bool ok = (!a || c) && (f.f.type == '3' || f.f.type == '2') && (!b || ft == 17 || ft == 18);
				must &= ok;
				may |= ok;
			}
			if (may) frames.push_back({ f.f, must, may, ch->from, to });
		}
	}
	size_t pos = 0;
	uint64_t flushEnd = 0;
	std::string seq;
	for (auto * s : servers) {
		auto ms = messages(*s);
		ConnInfo ci = checkConn(*s, ms);
		if (!ci.login) continue;
		// the queue is flushed between the login and the first message after it
		uint64_t fe = UINT64_MAX;
		for (size_t i = ci.first; i < ms.size(); ++i) if (ms[i].type != '7') { fe = ms[i].step; break; }
		if (!w.c.history) flushEnd = fe;
		for (size_t i = ci.first; i < ms.size(); ++i) {
			const Msg & m = ms[i];
			if (m.type != '2' && m.type != '3') continue;
			size_t k = pos;
			while (k < frames.size() && !(frames[k].f.type == m.type && frames[k].f.content() == m.content)) ++k;
			if (k == frames.size()) {
				for (size_t j = 0; j < frames.size(); ++j) if (frames[j].f.type == m.type && frames[j].f.content() == m.content)
					fail("frame %c %s on connection %u %s", m.type, hex(m.content).c_str(), s->conn, frames[j].got ? "was sent twice" : "is out of order");
				fail("frame %c %s on connection %u is none of the receiver's admitted frames", m.type, hex(m.content).c_str(), s->conn);
			}
			frames[k].got = true;
			++delivered;
			for (size_t j = pos; j < k; ++j) if (frames[j].must && !frames[j].got) {
				REQUIRE(!w.c.history, "frame %s is lost, though history is enabled", frames[j].f.str().c_str());
				REQUIRE(frames[j].from <= flushEnd, "frame %s is lost, though it was received after the last login", frames[j].f.str().c_str());
				++lost;
			}
			pos = k + 1;
		}
	}
	for (size_t j = pos; j < frames.size(); ++j) if (frames[j].must) {
		REQUIRE(!w.c.history, "frame %s was not relayed, though history is enabled and the connection was intact for long", frames[j].f.str().c_str());
		REQUIRE(frames[j].from <= flushEnd, "frame %s was not relayed, though the connection is intact for long", frames[j].f.str().c_str());
		++lost;
	}
}
#ifdef STANDALONE
// what the filter for extended squitter can be set to now
static std::set<bool> extFilter()
{
	std::set<bool> v { w.c.ext };
	for (auto & s : w.socks) if (s->peer == SERVER) for (auto & p : s->packets) if (p.mask & 2) for (auto & c : s->chunks) if (c.upTo >= p.end) {
		bool val = p.cfg & 2;
		if (c.to) v = { val }; else v.insert(val);
		break;
	}
	return v;
}
#endif
static void relayProp(Gen & g)
{
	startWorld(g);
	identity(g);
	Cfg & c = w.c;
	lost = delivered = 0;
	c.history = g.chance(1, 2);
	if (g.chance(2, 3) || c.history) c.vals["BUFFER.History"] = c.history ? "true" : "false";
	if (g.chance(1, 2)) c.vals["BUFFER.StaticBacklog"] = std::to_string(g.range(300, 1000));
	if (g.chance(1, 4)) { c.sync = g.chance(1, 2); c.vals["FILTER.SyncFilter"] = c.sync ? "1" : "0"; }
	if (g.chance(1, 3)) { c.ext = g.chance(1, 3); c.vals["FILTER.ModeSExtSquitterOnly"] = c.ext ? "true" : "False"; }
	if (g.chance(1, 4)) { c.timeoutMs = g.pick<int>({ 100, 300, 1500, 5000 }); c.vals["NETWORK.Timeout"] = std::to_string(c.timeoutMs); }
	if (g.chance(1, 4)) c.vals["STATISTICS.Interval"] = std::to_string(g.range(1, 60));
	if (g.chance(1, 3)) {
		c.vals["BUFFER.GC"] = "true";
		if (g.chance(1, 2)) c.vals["BUFFER.GCInterval"] = std::to_string(g.range(1, 30));
		if (g.chance(1, 2)) c.vals["BUFFER.GCLevel"] = std::to_string(g.range(1, 3));
	}
#ifdef STANDALONE
	if (g.chance(1, 3)) { c.crc = g.chance(1, 2); c.vals["FILTER.CRC"] = c.crc ? "true" : "false"; }
	if (g.chance(1, 3)) { c.fec = g.chance(1, 2); c.vals["INPUT.fec"] = c.fec ? "true" : "false"; }
	if (g.chance(1, 4)) { c.program = g.chance(1, 2); c.vals["FPGA.Configure"] = c.program ? "true" : "false"; }
#endif
	writeConf(g);
	sched::reset(g, g.pick<unsigned>({ 1, 2, 4, 16 }));
	sched::spurious = g.chance(1, 4);
	logstub::record = true;
	logstub::take();
	w.serverUp = g.chance(4, 5);
	w.receiverUp = g.chance(4, 5);
	w.gpsUp = g.chance(4, 5);
	w.slow = g.chance(1, 5);
	startDaemon();
	unsigned total = 0, cuts = 0, packets = 0;
	const unsigned MAXF = 140;
	unsigned rounds = 1 + g.small(0, 60);
	int env = sched::spawn("world", [&] {
		for (unsigned i = 0; i < rounds; ++i) {
			sched::sleepFor("world", g.pick<int64_t>({ 0, 1 * MS, 100 * MS, 1 * S, 1500 * MS, 3 * S, 11 * S }), false);
			if (w.sigint) return;
			Sock * s = w.server(), * r = w.receiver();
			if (s) serverReads(*s);
#ifdef RADARCAPE
			if (g.chance(1, 4)) {
				Sock * p = w.gps();
				switch (g.weighted({ 6, 1, 1 })) {
				case 0: if (p && !p->eof) { for (unsigned n = g.range(1, 3); n && !p->dead(); --n) sendGps(g, *p); if (g.chance(1, 8)) sendGps(g, *p, false, true); } break;
				case 1: if (p) { (g.chance(1, 2) ? p->rst : p->eof) = true; note("  GPS connection lost"); } break;
				case 2: w.gpsUp = !w.gpsUp; w.gpsFail = g.raw(1); note("  GPS %s", w.gpsUp ? "reachable" : "not reachable"); break;
				}
				continue;
			}
#endif
#ifdef COMMANDS
			if (s && !s->eof && g.chance(1, 8)) { sendCommand(g, *s); continue; }
#endif
			switch (g.weighted({ 8, 3, 3, 2, 2, 2, 2, 3, 1 })) {
			case 0: if (r && !r->eof) { unsigned n = std::min<unsigned>(1 + g.small(0, 12), MAXF - total); total += n; sendFrames(g, *r, n); note("  receiver: %u frames", n); } break;
			case 1: if (s) { s->rst = true; ++cuts; note("  server connection lost (%zu bytes)", s->out.size()); } break;
			case 2: if (s && !s->eof) { s->eof = true; ++cuts; note("  server connection closed by the server"); } break;
			case 3: if (r) { if (g.chance(1, 2)) r->rst = true; else r->eof = true; note("  receiver connection lost"); if (g.chance(1, 3) && !r->in.empty() && r->inPos < r->in.size()) {
				// the last frame is incomplete
				size_t cut = g.range(r->inPos, r->in.size() - 1);
				r->in.resize(cut);
				while (!r->frames.empty() && r->frames.back().end > cut) r->frames.pop_back();
			} } break;
			case 4: w.serverUp = !w.serverUp; w.serverFail = g.raw(1); note("  server %s", w.serverUp ? "reachable" : "not reachable"); break;
			case 5: w.receiverUp = !w.receiverUp; w.receiverFail = g.raw(1); note("  receiver %s", w.receiverUp ? "reachable" : "not reachable"); break;
			case 6: if (s) { // configuration by the server
				uint8_t mask = g.pick<uint8_t>({ 1, 2, 3, 0x80, 0x83, 0 }), cfg = g.byte();
				uint8_t p[6] = { 0, 4, 0, 6, mask, cfg };
				s->in.insert(s->in.end(), p, p + 6);
				s->packets.push_back({ s->in.size(), mask, cfg });
				++packets;
				note("  server: filter %02x %02x", mask, cfg);
			} break;
			case 7: if (s && w.wantResponse) respond(*s); break;
			case 8: if (s) { s->room = g.chance(1, 2) ? SIZE_MAX : s->room == SIZE_MAX ? g.raw(300) : s->room + g.raw(300); note("  server room %zu", s->room); } break;
			}
		}
		// everything works again
		w.faults = false;
		w.slow = false;
		w.serverUp = w.receiverUp = w.gpsUp = true;
		note("  all faults end");
		for (int i = 0; i < 140; ++i) {
			sched::sleepFor("world", 500 * MS, false);
			if (Sock * s = w.server()) { s->room = SIZE_MAX; serverReads(*s); if (w.wantResponse) respond(*s); }
			if (w.sigint) return;
#ifdef RADARCAPE
			if (i == 90) {
				Sock * p = w.gps();
				REQUIRE(p && !p->eof, "no connection to the GPS 45 s after all faults ended:%s", sched::where().c_str());
				sendGps(g, *p, true);
			}
			if (i == 100) for (auto & p : w.socks) if (p->peer == GPSRX && p->connected && !p->dead() && !p->eof) REQUIRE(p->inPos == p->in.size(), "%zu bytes of the GPS are not read", p->in.size() - p->inPos);
#endif
#ifdef STANDALONE
			if (i == 130) {
				Sock * r = w.receiver();
				REQUIRE(r && r->cmd.empty(), "the receiver got an incomplete command");
				std::set<bool> ext = extFilter();
				for (char o : { 'C', 'E', c.crc ? 'f' : 'F', 'G', 'H', c.fec ? 'i' : 'I', 'j', 'Y', 'R' }) REQUIRE(r->opt.count(tolower(o)) && r->opt[tolower(o)] == o, "option %c of the receiver is not set", o);
				REQUIRE(r->opt.count('d') && ext.count(r->opt['d'] == 'D'), "the receiver is set to '%c', the filter is set to %s", r->opt['d'], *ext.begin() ? "extended squitter only" : "all frames");
			}
#endif
			if (i == 100) {
				Sock * s = w.server(), * r = w.receiver();
				REQUIRE(s && !s->eof, "no connection to the server 50 s after all faults ended:%s", sched::where().c_str());
				REQUIRE(r && !r->eof, "no connection to the receiver 50 s after all faults ended:%s", sched::where().c_str());
				auto ci = checkConn(*s, messages(*s));
				REQUIRE(ci.login, "no login 50 s after all faults ended:%s", sched::where().c_str());
				REQUIRE(ci.positions >= 1, "position not reported on connection %u", s->conn);
				sendFrames(g, *r, 5);
				note("  receiver: five more frames");
			}
		}
	});
	(void)env;
	bool early = g.chance(1, 6); // stopped in the middle
	int64_t at = early ? sched::now() + g.range(0, 60) * S + g.raw(999) * MS : INT64_MAX;
	sched::run([&] {
		stepLimit(2000000);
#ifdef COMMANDS
		if (w.replaced) return true;
#endif
		return w.emerg || w.ended || sched::ended(env) || sched::now() >= at; });
	REQUIRE(!w.emerg, "emergency: %s", w.emergMsg.c_str());
#ifdef STANDALONE
	if (!w.ended && (!early || sched::now() - w.startedAt >= S)) checkFpga(); // (takes some time)
	if (w.replaced) {
		for (auto & s : w.socks) if (s->connected && s->peer == SERVER) checkConn(*s, messages(*s));
		w.sigintAt = sched::now();
		checkWatchdog();
		checkCommands(true);
		nontrivial();
		done();
	}
#endif
	REQUIRE(!w.ended, "the daemon ended with status %d", w.result);
	if (early && !sched::ended(env)) {
		label("stopped in the middle");
		for (auto & s : w.socks) if (s->connected && s->peer == SERVER) checkConn(*s, messages(*s));
		if (w.socks.size() > 2) nontrivial();
	} else {
		check();
		unsigned conns = 0;
		for (auto & s : w.socks) conns += s->connected && s->peer == SERVER;
		if (delivered > 5 && conns > 1) nontrivial();
		if (conns > 1) label("reconnected to the server");
		if (lost) label("frames lost as configured");
		if (packets) label("filter packets");
		if (w.responsesSent) label("serial number requested");
		if (c.history) label("history");
		note("  %llu frames relayed, %llu lost", (unsigned long long)delivered, (unsigned long long)lost);
	}
	// frames must not arrive from now on
	w.faults = false;
	stopDaemon();
#ifdef COMMANDS
	checkCommands(!early);
#endif
	done();
}

// ---------------------------------------------------------------- C32
namespace {
struct Snap { BUFFER_Statistics buf; NET_Statistics net; FILTER_Statistics filter; };
struct Stat {
	bool capture = false;
	std::string text;
	Snap given; unsigned got = 0;
	// what had been counted in the years before (only the report sees it)
	BUFFER_Statistics buf0; NET_Statistics net0; FILTER_Statistics filter0;
	int64_t at = 0;
	int64_t delay = 0; // of the next report: the machine is busy or suspended
	unsigned reports = 0;
	uint64_t lastFrames = 0; FILTER_Statistics last; int64_t lastTime = 0;
	// model
	FILTER_Statistics filter;
	uint64_t capacity = 0; // frames the buffer can hold, 0 if there are enough
	bool sync = false, ext = true, synced = false;
	uint64_t frames = 0; // counted since the last reset
	NET_Statistics base; // values to be subtracted
	int64_t resetAt = 0;
	uint64_t admitted = 0;
};
Stat st;
}
// all counters of a statistics structure
template<class F> static void each(BUFFER_Statistics & a, const BUFFER_Statistics & b, F f)
{
	f(a.queueSize, b.queueSize); f(a.maxQueueSize, b.maxQueueSize); f(a.discardedCur, b.discardedCur); f(a.discardedAll, b.discardedAll);
	f(a.discardedMax, b.discardedMax); f(a.poolSize, b.poolSize); f(a.dynPools, b.dynPools); f(a.dynPoolsAll, b.dynPoolsAll);
	f(a.dynPoolsMax, b.dynPoolsMax); f(a.uncollectedPools, b.uncollectedPools); f(a.flushes, b.flushes); f(a.GCruns, b.GCruns);
}
template<class F> static void each(NET_Statistics & a, const NET_Statistics & b, F f)
{
	f(a.onlineSecs, b.onlineSecs); f(a.disconnects, b.disconnects); f(a.connectionAttempts, b.connectionAttempts);
	f(a.bytesSent, b.bytesSent); f(a.bytesReceived, b.bytesReceived);
}
template<class F> static void each(FILTER_Statistics & a, const FILTER_Statistics & b, F f)
{
	for (int i = 0; i < 4; ++i) f(a.framesByType[i], b.framesByType[i]);
	for (int i = 0; i < 32; ++i) f(a.modeSByType[i], b.modeSByType[i]);
	f(a.unknown, b.unknown); f(a.filtered, b.filtered); f(a.modeSfiltered, b.modeSfiltered); f(a.unsynchronized, b.unsynchronized);
}
// the report goes to the standard output, however it is written
static ssize_t outWrite(void * old, const char * b, size_t n)
{
	if (st.capture && sched::name() == "STAT") st.text.append(b, n);
	else fwrite(b, 1, n, (FILE *)old);
	return n;
}
static FILE * realOut;
static void captureOut()
{
	cookie_io_functions_t io = { nullptr, outWrite, nullptr, nullptr };
	realOut = stdout;
	stdout = fopencookie(realOut, "w", io);
	setvbuf(stdout, nullptr, _IONBF, 0);
	st.capture = true;
}
static void releaseOut()
{
	st.capture = false;
	fclose(stdout);
	stdout = realOut;
}
extern "C" {
void __real_BUFFER_getStatistics(BUFFER_Statistics *);
void __wrap_BUFFER_getStatistics(BUFFER_Statistics * s)
{
	__real_BUFFER_getStatistics(s);
	if (sched::name() == "STAT") {
		each(*s, st.buf0, [](auto & x, auto y) { x += y; });
		st.given.buf = *s; st.got |= 1; st.at = sched::now();
	}
}
void __real_NET_getStatistics(NET_Statistics *);
void __wrap_NET_getStatistics(NET_Statistics * s)
{
	__real_NET_getStatistics(s);
	if (sched::name() == "STAT") {
		each(*s, st.net0, [](auto & x, auto y) { x += y; });
		st.given.net = *s; st.got |= 2;
	}
}
void __real_FILTER_getStatistics(FILTER_Statistics *);
void __wrap_FILTER_getStatistics(FILTER_Statistics * s)
{
	__real_FILTER_getStatistics(s);
	if (sched::name() == "STAT") {
		each(*s, st.filter0, [](auto & x, auto y) { x += y; });
		st.given.filter = *s; st.got |= 4;
	}
}
}
// counters beyond 32 bits, as after a long time
static void longAgo(Gen & g)
{
	memset(&st.buf0, 0, sizeof st.buf0);
	memset(&st.net0, 0, sizeof st.net0);
	memset(&st.filter0, 0, sizeof st.filter0);
	if (!g.chance(1, 3)) return;
	auto v = [&g] () -> uint64_t { return g.chance(1, 2) ? g.u64() >> g.range(24, 40) : 0; };
	auto set = [&v](auto & x, auto) { x = v(); };
	each(st.buf0, st.buf0, set);
	each(st.net0, st.net0, set);
	auto & f = st.filter0;
	each(f, f, set);
	if (!f.framesByType[1] && !f.framesByType[2]) for (auto & x : f.modeSByType) x = 0;
	label("counters beyond 32 bits");
	note("counted before: %llu Mode-S short, %llu long, %llu bytes sent ...", (unsigned long long)f.framesByType[1], (unsigned long long)f.framesByType[2], (unsigned long long)st.net0.bytesSent);
}
static NET_Statistics netTotals()
{
	NET_Statistics n;
	memset(&n, 0, sizeof n);
	n.connectionAttempts = w.attempts;
	n.disconnects = w.failed;
	for (auto & s : w.socks) if (s->peer == SERVER && s->connected) {
		if (s->shut) { ++n.disconnects; n.onlineSecs += s->onlineTo / S - std::max(s->onlineFrom / S, std::min(s->onlineTo / S, st.resetAt / S)); }
		else { n.isOnline = true; n.onlineSecs += sched::now() / S - std::max(s->onlineFrom, st.resetAt) / S; }
		n.bytesReceived += s->inPos;
		auto ms = messages(*s);
		if (!ms.empty()) n.bytesSent += ms.back().end;
	}
	return n;
}
// the line with the given label: its number
static bool labelled(const std::string & label, std::string & line)
{
	size_t pos = 0;
	while (pos < st.text.size()) {
		size_t e = st.text.find('\n', pos);
		if (e == std::string::npos) e = st.text.size();
		std::string l = st.text.substr(pos, e - pos);
		pos = e + 1;
		if (l.size() >= label.size() && l.find(label) != std::string::npos) {
			// the label follows the number and the percentage
			size_t p = l.find_first_not_of(" -");
			if (p == std::string::npos) continue;
			size_t q = p;
			while (q < l.size() && isdigit(l[q])) ++q;
			while (q < l.size() && l[q] == ' ') ++q;
			if (q < l.size() && l[q] == '[') { q = l.find(']', q); if (q == std::string::npos) continue; ++q; }
			while (q < l.size() && l[q] == ' ') ++q;
			std::string rest = l.substr(q);
			if (rest.compare(0, label.size(), label)) continue;
			if (rest.size() > label.size() && rest[label.size()] != ' ') continue;
			if (rest.size() > label.size() + 1 && rest[label.size() + 1] != '(') continue;
			line = l.substr(p);
			return true;
		}
	}
	return false;
}
static void expectLine(const std::string & label, uint64_t want, double pctOf, double rate, double rate2)
{
	std::string l;
	REQUIRE(labelled(label, l), "no line for '%s' in the report:\n%s", label.c_str(), st.text.c_str());
	REQUIRE(strtoull(l.c_str(), nullptr, 10) == want, "report says '%s', expected %llu", l.c_str(), (unsigned long long)want);
	if (pctOf >= 0) {
		size_t b = l.find('[');
		REQUIRE(b != std::string::npos, "no percentage in '%s'", l.c_str());
		double v = atof(l.c_str() + b + 1), x = pctOf > 0 ? 100. * want / pctOf : 0;
		REQUIRE(fabs(v - x) <= .51, "percentage in '%s', expected %.2f", l.c_str(), x);
	}
	if (rate >= 0) {
		size_t b = l.rfind('(');
		REQUIRE(b != std::string::npos, "no rate in '%s'", l.c_str());
		double v = atof(l.c_str() + b + 1);
		REQUIRE(fabs(v - rate) <= .0051, "rate in '%s', expected %.3f", l.c_str(), rate);
		if (rate2 >= 0) {
			size_t c = l.find(',', b);
			REQUIRE(c != std::string::npos, "no current rate in '%s'", l.c_str());
			v = atof(l.c_str() + c + 1);
			REQUIRE(fabs(v - rate2) <= .0051, "current rate in '%s', expected %.3f", l.c_str(), rate2);
		}
	}
}
// a report has been printed completely
static void checkReport(int64_t started, int64_t interval)
{
	++st.reports;
	int64_t now = st.at / S, secs = now - started, delta = st.reports == 1 ? now - st.lastTime : now - st.lastTime;
	REQUIRE(delta == interval + st.delay, "report after %lld s, configured are %lld s (delayed by %lld s)", (long long)delta, (long long)interval, (long long)st.delay);
	st.delay = w.g->chance(1, 4) ? w.g->pick<int64_t>({ 1, 2, 3, 10, 60, 1000 }) : 0;
	unsigned long d, h, m, s;
	size_t p = st.text.find("running since");
	REQUIRE(p != std::string::npos && sscanf(st.text.c_str() + p, "running since %lud, %luh:%lum:%lus", &d, &h, &m, &s) == 4, "running time missing in the report:\n%s", st.text.c_str());
	REQUIRE(h < 24 && m < 60 && s < 60 && (int64_t)(((d * 24 + h) * 60 + m) * 60 + s) == secs, "report says running since %lu days %lu:%lu:%lu, expected %lld s", d, h, m, s, (long long)secs);
	if (st.got == 7) {
		auto & f = st.given.filter; auto & b = st.given.buf; auto & n = st.given.net;
		uint64_t fr = f.framesByType[0] + f.framesByType[1] + f.framesByType[2] + f.framesByType[3] + f.unknown;
		bool wrapped = fr < st.lastFrames; // reset meanwhile
		auto r = [&] (uint64_t v) { return (double)v / secs; };
		auto r2 = [&] (uint64_t v, uint64_t o) { return wrapped || v < o ? -1 : (double)(v - o) / delta; };
		expectLine("frames received", fr, -1, r(fr), r2(fr, st.lastFrames));
		struct { const char * n; uint64_t v, o; } ls[] = {
			{ "Mode-A/C", f.framesByType[0], st.last.framesByType[0] }, { "Mode-S Short", f.framesByType[1], st.last.framesByType[1] },
			{ "Mode-S Long", f.framesByType[2], st.last.framesByType[2] }, { "status", f.framesByType[3], st.last.framesByType[3] },
			{ "unknown", f.unknown, st.last.unknown }, { "filtered", f.filtered, st.last.filtered }, { "Mode-S filtered", f.modeSfiltered, st.last.modeSfiltered } };
		for (auto & l : ls) expectLine(l.n, l.v, fr, r(l.v), r2(l.v, l.o));
		for (int t = 0; t < 32; ++t) {
			char nm[16]; snprintf(nm, sizeof nm, "type %d", t);
			if (f.modeSByType[t]) expectLine(nm, f.modeSByType[t], f.framesByType[1] + f.framesByType[2], r(f.modeSByType[t]), r2(f.modeSByType[t], st.last.modeSByType[t]));
			else { std::string x; REQUIRE(!labelled(nm, x) || !atoi(x.c_str()), "report has '%s', expected none", x.c_str()); }
		}
		expectLine("unsynchronized frames", f.unsynchronized, -1, -1, -1);
		expectLine("queued messages (current)", b.queueSize, -1, -1, -1);
		expectLine("queued messages (max)", b.maxQueueSize, -1, -1, -1);
		expectLine("discarded messages (current)", b.discardedCur, -1, -1, -1);
		expectLine("discarded messages (overall)", b.discardedAll, -1, -1, -1);
		expectLine("discarded messages (in worst overflow situation)", b.discardedMax, -1, -1, -1);
		expectLine("messages in pool", b.poolSize, -1, -1, -1);
		expectLine("dynamic pools (current)", b.dynPools, -1, -1, -1);
		expectLine("dynamic pools (overall)", b.dynPoolsAll, -1, -1, -1);
		expectLine("dynamic pools (max)", b.dynPoolsMax, -1, -1, -1);
		expectLine("flushes", b.flushes, -1, -1, -1);
		expectLine("uncollected dynamic pools", b.uncollectedPools, -1, -1, -1);
		expectLine("Garbage Collector runs", b.GCruns, -1, -1, -1);
		REQUIRE((st.text.find("currently online") != std::string::npos) == n.isOnline && (st.text.find("currently offline") != std::string::npos) == !n.isOnline, "online state is wrong in the report:\n%s", st.text.c_str());
		REQUIRE((st.text.find("currently in overload") != std::string::npos) == (b.discardedCur != 0), "overload state is wrong in the report");
		expectLine("seconds online (overall)", n.onlineSecs, secs, -1, -1);
		expectLine("disconnections", n.disconnects, -1, -1, -1);
		expectLine("connection attempts", n.connectionAttempts, -1, -1, -1);
		expectLine("bytes sent", n.bytesSent, -1, r(n.bytesSent), -1);
		expectLine("bytes received", n.bytesReceived, -1, r(n.bytesReceived), -1);
		st.lastFrames = fr;
		st.last = f;
	}
	st.lastTime = now;
	st.text.clear();
	st.got = 0;
}
#define CMP(what, a, b) REQUIRE((uint64_t)(a) == (uint64_t)(b), "%s: %llu counted, expected %llu", what, (unsigned long long)(a), (unsigned long long)(b))
static void checkCounters()
{
	NET_Statistics n, t = netTotals();
	__real_NET_getStatistics(&n);
	REQUIRE(n.isOnline == t.isOnline, "%s reported, the connection is %s", n.isOnline ? "online" : "offline", t.isOnline ? "intact" : "lost");
	CMP("connection attempts", n.connectionAttempts, t.connectionAttempts - st.base.connectionAttempts);
	CMP("disconnections", n.disconnects, t.disconnects - st.base.disconnects);
	CMP("bytes received", n.bytesReceived, t.bytesReceived - st.base.bytesReceived);
	CMP("bytes sent", n.bytesSent, t.bytesSent - st.base.bytesSent);
	CMP("seconds online", n.onlineSecs, t.onlineSecs);
	FILTER_Statistics f;
	__real_FILTER_getStatistics(&f);
	for (int i = 0; i < 4; ++i) CMP("frames by type", f.framesByType[i], st.filter.framesByType[i]);
	for (int i = 0; i < 32; ++i) CMP("Mode-S frames by type", f.modeSByType[i], st.filter.modeSByType[i]);
	CMP("unknown", f.unknown, st.filter.unknown);
	CMP("filtered", f.filtered, st.filter.filtered);
	CMP("Mode-S filtered", f.modeSfiltered, st.filter.modeSfiltered);
	CMP("unsynchronized", f.unsynchronized, st.filter.unsynchronized);
	BUFFER_Statistics b;
	__real_BUFFER_getStatistics(&b);
	if (!st.capacity) CMP("discarded frames", b.discardedAll, 0);
	else {
		bool ever = false;
		for (auto & s : w.socks) ever = ever || (s->peer == SERVER && s->connected);
		if (!ever) { // one frame is always being received
			CMP("discarded frames", b.discardedAll, st.admitted + 1 > st.capacity ? st.admitted + 1 - st.capacity : 0);
			CMP("queued frames", b.queueSize, std::min<uint64_t>(st.admitted, st.capacity - 1));
			if (b.discardedAll) label("overload");
		}
		REQUIRE(b.discardedCur <= b.discardedMax && b.discardedMax <= b.discardedAll, "discarded %llu (current), %llu (worst), %llu (overall)",
			(unsigned long long)b.discardedCur, (unsigned long long)b.discardedMax, (unsigned long long)b.discardedAll);
	}
	REQUIRE(b.maxQueueSize >= b.queueSize, "%llu frames queued, the reported maximum is %llu", (unsigned long long)b.queueSize, (unsigned long long)b.maxQueueSize);
}
static void count(const BFrame & f)
{
	auto & x = st.filter;
	if (f.type == '4' && f.mlat) st.synced = true;
	++x.framesByType[f.type - '1'];
	if (!st.synced) {
		++x.unsynchronized;
		if (st.sync) { ++x.filtered; return; }
	}
	if (f.type != '2' && f.type != '3') { ++x.filtered; return; }
	unsigned t = f.payload[0] >> 3;
	++x.modeSByType[t];
	if (st.ext && t != 17 && t != 18) { ++x.filtered; ++x.modeSfiltered; return; }
	++st.admitted;
}
[[maybe_unused]] static void statProp(Gen & g)
{
	startWorld(g);
	identity(g);
	Cfg & c = w.c;
	st = Stat();
	memset(&st.filter, 0, sizeof st.filter);
	memset(&st.last, 0, sizeof st.last);
	memset(&st.base, 0, sizeof st.base);
	longAgo(g);
	w.faults = false;
	if (g.chance(2, 3)) { c.history = g.chance(1, 2); c.vals["BUFFER.History"] = c.history ? "true" : "false"; }
	if (g.chance(1, 2)) { st.sync = g.chance(1, 2); c.vals["FILTER.SyncFilter"] = st.sync ? "true" : "false"; }
	if (g.chance(1, 2)) { st.ext = g.chance(1, 2); c.vals["FILTER.ModeSExtSquitterOnly"] = st.ext ? "true" : "false"; }
	if (g.chance(1, 5)) {
		unsigned stat = g.range(2, 12), pools = g.range(0, 2), dyn = g.range(1, 6);
		c.vals["BUFFER.StaticBacklog"] = std::to_string(stat);
		c.vals["BUFFER.DynamicIncrements"] = std::to_string(pools);
		c.vals["BUFFER.DynamicBacklog"] = std::to_string(dyn);
		st.capacity = stat + (c.history ? pools * dyn : 0);
	} else
		c.vals["BUFFER.StaticBacklog"] = "2000";
	bool longRun = g.chance(1, 10); // days
	int64_t interval = longRun ? g.range(20000, 200000) : g.chance(1, 5) ? g.range(60, 4000) : g.range(1, 60);
	bool enabled = longRun || g.chance(9, 10);
	c.vals["NETWORK.Timeout"] = std::to_string(longRun ? 600000 : g.pick<int>({ 3000, 10000, 60000 }));
	if (interval == 600 && g.chance(1, 2)) ; // default
	else c.vals["STATISTICS.Interval"] = std::to_string(interval);
	if (!enabled || g.chance(1, 3)) c.vals["STATISTICS.Enabled"] = enabled ? "true" : "false";
	writeConf(g);
	sched::reset(g, g.pick<unsigned>({ 1, 2, 8, 16 }));
	logstub::record = true;
	logstub::take();
	if (g.chance(1, st.capacity ? 2 : 6)) w.serverUp = false;
	if (g.chance(1, 8)) w.receiverUp = false;
	int64_t started = sched::now() / S;
	st.lastTime = started;
	captureOut();
	// the machine can be busy or suspended when a report is due
	sched::overslept = [] { return sched::name() == "STAT" ? st.delay * S : 0; };
	startDaemon();
	unsigned actions = 2 + g.small(0, longRun ? 8 : 40), resets = 0, cuts = 0, total = 0;
	auto quiesce = [&] {
		auto reported = [&] { if (st.text.empty()) return; checkReport(started, interval); };
		{ int me = sched::self(); sched::block("world", [me] { return sched::quiet(me); }, false); }
		reported();
		if (w.wantResponse) { if (Sock * s = w.server()) { respond(*s); { int me = sched::self(); sched::block("world", [me] { return sched::quiet(me); }, false); } } }
	};
	int env = sched::spawn("world", [&] {
		const Sock * rs = nullptr;
		size_t counted = 0;
		auto settle = [&] {
			while (true) {
				quiesce();
				if (Sock * s = w.server()) { serverReads(*s); if (w.wantResponse) { respond(*s); continue; } }
				break;
			}
			// the receiver's frames
			Sock * r = w.receiver();
			if (r && r != rs) { rs = r; counted = 0; st.synced = false; }
			if (r) {
				REQUIRE(r->inPos == r->in.size() , "bytes of the receiver are left unread:%s", sched::where().c_str());
				for (; counted < r->frames.size(); ++counted) count(r->frames[counted].f);
			}
			checkCounters();
		};
		sched::sleepFor("world", 1, false);
		settle();
		for (unsigned i = 0; i < actions; ++i) {
			Sock * s = w.server(), * r = w.receiver();
			switch (g.weighted({ 8, 3, 3, 2, 2, 4, 3, 6 })) {
			case 0: if (r) { unsigned n = 1 + g.small(0, 15); total += n; sendFrames(g, *r, n); note("  receiver: %u frames", n); } break;
			case 1: if (s) { ++cuts; (g.chance(1, 2) ? s->rst : s->eof) = true; note("  server connection lost"); } break;
			case 2: if (r) { if (g.chance(1, 2)) r->rst = true; else r->eof = true; note("  receiver connection lost"); } break;
			case 3: w.serverUp = !w.serverUp; w.serverFail = g.raw(1); note("  server %s", w.serverUp ? "reachable" : "not reachable"); break;
			case 4: w.receiverUp = !w.receiverUp; w.receiverFail = g.raw(1); note("  receiver %s", w.receiverUp ? "reachable" : "not reachable"); break;
			case 5: if (s) {
				uint8_t mask = g.pick<uint8_t>({ 1, 2, 3, 0x80, 0x83, 0 }), cf = g.byte();
				uint8_t p[6] = { 0, 4, 0, 6, mask, cf };
				s->in.insert(s->in.end(), p, p + 6);
				if (mask & 1) st.sync = cf & 1;
				if (mask & 2) st.ext = cf & 2;
				if (mask & 0x80) st.synced = false;
				note("  server: filter %02x %02x", mask, cf);
			} break;
			case 6:
				// note: while there is no connection the reset would wait for it
				if (s && !s->dead()) {
					note("  counters reset");
					++resets;
					COMP_resetAll();
					st.resetAt = sched::now();
					memset(&st.filter, 0, sizeof st.filter);
					st.base = NET_Statistics();
					st.base = netTotals();
				}
				break;
			case 7: break;
			}
			settle();
			int64_t d = g.pick<int64_t>({ 0, 1, 1 * S, 2500 * MS, 20 * S, 60 * S, 600 * S, interval * S });
			if (!enabled) d = std::min(d, 60 * S);
			d = std::min(d, std::max(20 * S, started * S + (longRun ? 400000 : 6000) * S - sched::now()));
			// connection attempts every few seconds would take too long
			if (longRun && (!w.serverUp || !w.receiverUp)) d = std::min(d, 60 * S);
			// stop at every report
			int64_t until = sched::now() + d;
			while (sched::now() < until) {
				int64_t next = enabled ? (st.lastTime + interval + st.delay) * S : until;
				REQUIRE(next > sched::now(), "no report after %lld s", (long long)interval);
				int64_t to = std::min(until, next);
				sched::sleepFor("world", to - sched::now(), false);
				settle();
			}
			settle();
			if (enabled) REQUIRE(sched::now() / S - st.lastTime <= interval + st.delay, "no report for %lld s, configured are %lld s", (long long)(sched::now() / S - st.lastTime), (long long)interval);
			else REQUIRE(st.text.empty(), "report though statistics are disabled:\n%s", st.text.c_str());
		}
	});
	sched::run([&] { stepLimit(3000000); return w.emerg || w.ended || sched::ended(env); });
	REQUIRE(!w.emerg, "emergency: %s", w.emergMsg.c_str());
	REQUIRE(!w.ended, "the daemon ended with status %d", w.result);
	if (resets) label("reset");
	if (cuts) label("connection lost");
	if (!enabled) label("disabled");
	if (st.reports) label("reports");
	if (st.reports && total > 5) nontrivial();
	releaseOut();
	stopDaemon();
	done();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
#ifdef STANDALONE
		{ "c39_configuration", configProp, 4000, 80000, 1, 120, "random configurations of the stand-alone Radarcape daemon (server, serial number, board, FPGA and its bitstream, filters) started as a whole or saved, with working and failing hardware; nontrivial: started, refused or saved" },
		{ "c39_end_to_end", relayProp, 5000, 150000, 1, 240, "random receiver and GPS streams on serial lines, losses of all lines and connections, slow server, filter packets and commands against the whole stand-alone Radarcape daemon in random schedules; nontrivial: more than five frames relayed over several connections or a restart" },
#elif defined(RADARCAPE)
		{ "c35_configuration", configProp, 4000, 80000, 1, 120, "random Radarcape configurations (hosts, ports, serial number or MAC address, missing file) started as a whole or saved; nontrivial: started, refused or saved" },
		{ "c35_end_to_end", relayProp, 6000, 200000, 1, 240, "random receiver and GPS streams, losses of all connections, unreachable peers, slow server and filter packets against the whole Radarcape daemon in random schedules; nontrivial: more than five frames relayed over several connections" },
#else
		{ "c28_configuration", configProp, 6000, 100000, 1, 120, "random feeder configurations (positions at and beyond the limits, incomplete or malformed; hosts, ports, user names, device types) started as a whole; nontrivial: started or refused" },
		{ "c38_package", packageProp, 3000, 60000, 1, 240, "random histories of installing, upgrading and reconfiguring the Debian package (answers within and beyond what is allowed, preseeded answers, front ends which do not ask) followed by a run of the daemon; nontrivial: every history" },
		{ "c30_end_to_end", relayProp, 8000, 250000, 1, 240, "random receiver streams, losses of either connection, unreachable peers, slow server, filter packets and serial number requests against the whole daemon in random schedules; nontrivial: more than five frames relayed over several connections" },
		{ "c32_statistics", statProp, 3000, 100000, 1, 240, "random receiver streams, losses, filter packets and counter resets against the whole daemon, which reports statistics; counters and reports are compared with a model whenever the daemon is at rest; nontrivial: at least one report and more than five frames" },
#endif
	});
}
