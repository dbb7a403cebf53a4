// C36: configuration of the receiver on the serial line (src/radarcape/rc-parser.c compiled for the UART,
// src/radarcape/uart.c, src/core/recv.c, src/core/filter.c) with concurrent changes of the filter
#include "pbt.hh"
#include "stub_log.hh"
#include "beastmodel.hh"
#include "sched.hh"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <termios.h>
#include <unistd.h>
extern "C" {
#include "core/buffer.h"
#include "core/filter.h"
#include "core/input.h"
#include "core/recv.h"
#include "util/cfgfile.h"
#include "util/component.h"
extern const struct Component INPUT_comp, FILTER_comp, BUF_comp;
}
using namespace pbt;
static const int64_t S = 1000000000ll, MS = 1000000ll;
static const int BASE = 3000;
namespace {
struct File { bool line; unsigned conn; };
struct World {
	Gen * g;
	std::vector<std::unique_ptr<File>> fds; // by number - BASE
	bool up = true, gone = false; // device can be opened; has gone (until it is opened again)
	int full = 0;                 // writes accept nothing for some calls
	unsigned conns = 0, writes = 0, other = 0;
	Bytes pending;                // what the device has got of an incomplete command
	std::map<char, char> opt;     // by lower case letter: current setting
	std::vector<std::pair<std::string, char>> got; // thread, option since the last connection
	Bytes in;
	bool crc, fec, ext;
	bool changing = false, faults = true;
	unsigned changes = 0, losses = 0;
	bool lastFailed = false;      // a change could not be written
};
std::unique_ptr<World> ww;
#define w (*ww)
}
static int put(File * f)
{
	size_t i = 0;
	while (i < w.fds.size() && w.fds[i]) ++i;
	if (i == w.fds.size()) w.fds.emplace_back();
	w.fds[i].reset(f);
	return BASE + i;
}
static File * file(int fd) { return fd >= BASE && fd < BASE + (int)w.fds.size() ? w.fds[fd - BASE].get() : nullptr; }
extern "C" {
int __real_open(const char *, int, ...);
int __wrap_open(const char * n, int flags, ...)
{
	if (!sched::active() || strcmp(n, "/dev/ttyS5")) {
		va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
		return __real_open(n, flags, m);
	}
	sched::point("opening the line");
	if (!w.up) { errno = ENOENT; return -1; }
	for (auto & f : w.fds) REQUIRE(!f || !f->line, "the line is opened twice");
	w.gone = false;
	w.pending.clear();
	w.in.clear();
	w.opt.clear();
	w.got.clear();
	note("  line opened");
	return put(new File { true, ++w.conns });
}
int __wrap_open64(const char * n, int flags, ...) { return __wrap_open(n, flags, 0644); }
int __real_close(int);
int __wrap_close(int fd)
{
	if (fd < BASE) return fd < 0 ? (errno = EBADF, -1) : __real_close(fd);
	sched::point("closing"); // cancelled here: nothing is closed
	REQUIRE(file(fd), "close of descriptor %d, which is not open", fd);
	REQUIRE(file(fd)->line || sched::name() == "other", "descriptor %d of somebody else is closed", fd);
	if (file(fd)->line) note("  line closed");
	w.fds[fd - BASE].reset();
	return 0;
}
int __wrap_tcgetattr(int fd, struct termios * t)
{
	REQUIRE(file(fd) && file(fd)->line, "tcgetattr on descriptor %d, which is not the line", fd);
	memset(t, 0, sizeof *t);
	return 0;
}
int __wrap_tcsetattr(int fd, int, const struct termios *)
{
	REQUIRE(file(fd) && file(fd)->line, "tcsetattr on descriptor %d, which is not the line", fd);
	sched::point("setting up the line");
	return 0;
}
int __wrap_tcflush(int fd, int)
{
	REQUIRE(file(fd) && file(fd)->line, "tcflush on descriptor %d, which is not the line", fd);
	return 0;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void * b, size_t n)
{
	if (!sched::active()) return __real_read(fd, b, n);
	sched::point("reading");
	REQUIRE(file(fd) && file(fd)->line, "read from descriptor %d, which is not the line", fd);
	if (w.gone) { errno = EIO; return w.g->chance(1, 2) ? -1 : 0; }
	if (w.in.empty()) { errno = EAGAIN; return -1; }
	size_t k = std::min(n, w.in.size());
	memcpy(b, w.in.data(), k);
	w.in.erase(w.in.begin(), w.in.begin() + k);
	return k;
}
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void * b, size_t n)
{
	if (!sched::active() || (fd >= 0 && fd < BASE)) return __real_write(fd, b, n);
	if (fd < 0) { errno = EBADF; return -1; }
	File * was = file(fd);
	unsigned conn = was ? was->conn : 0;
	// the descriptor was loaded before the call: meanwhile others go on
	sched::point("writing");
	File * f = file(fd);
	if (!f || !f->line) fail("written to descriptor %d, which was closed meanwhile%s", fd, f ? " and belongs to somebody else" : "");
	REQUIRE(was && f->conn == conn, "written to another connection of the line");
	++w.writes;
	if (w.gone) { errno = EIO; return -1; }
	if (w.full) {
		--w.full;
		if (n == 3 && tolower(((const uint8_t *)b)[2]) == 'd') w.lastFailed = true;
		errno = EAGAIN;
		return -1;
	}
	for (size_t i = 0; i < n; ++i) {
		w.pending.push_back(((const uint8_t *)b)[i]);
		if (w.pending.size() == 3) {
			REQUIRE(w.pending[0] == 0x1a && w.pending[1] == '1', "the receiver got %s, which is no command", hex(w.pending).c_str());
			char o = w.pending[2];
			w.opt[tolower(o)] = o;
			if (tolower(o) == 'd') w.lastFailed = false;
			w.got.push_back({ sched::name(), o });
			w.pending.clear();
		}
	}
	return n;
}
int __wrap_poll(struct pollfd * p, nfds_t n, int timeout)
{
	REQUIRE(n == 1 && file(p->fd) && file(p->fd)->line && timeout == -1, "unexpected poll");
	sched::block("waiting for input", [] { return w.gone || !w.in.empty(); }, true);
	p->revents = w.gone ? POLLHUP | POLLIN : POLLIN;
	return 1;
}
}
static std::string options(const std::map<char, char> & m)
{
	std::string r;
	for (auto & o : m) r += o.second;
	return r;
}
static std::map<char, char> wanted()
{
	std::map<char, char> m;
	for (char c : { 'C', w.ext ? 'D' : 'd', 'E', w.crc ? 'f' : 'F', 'G', 'H', w.fec ? 'i' : 'I', 'j', 'Y', 'R' }) m[tolower(c)] = c;
	return m;
}
static void prop(Gen & g)
{
	ww.reset(new World);
	w.g = &g;
	w.crc = g.chance(1, 2); w.fec = g.chance(1, 2); w.ext = g.chance(1, 2);
	std::string conf = scratch() + "/rc.conf";
	FILE * f = fopen(conf.c_str(), "w");
	fprintf(f, "[FILTER]\nCRC = %s\nModeSExtSquitterOnly = %s\n[INPUT]\nfec = %s\n", w.crc ? "true" : "false", w.ext ? "true" : "false", w.fec ? "true" : "false");
	fclose(f);
	logstub::record = false;
	COMP_register(&RECV_comp);
	COMP_fixup();
	CFG_loadDefaults();
	if (!CFG_readFile(conf.c_str(), false, false, false) || !CFG_check()) fail("configuration refused");
	note("CRC %d, FEC %d, extended squitter only %d", w.crc, w.fec, w.ext);
	sched::reset(g, g.pick<unsigned>({ 1, 2, 4, 16 }));
	w.up = g.chance(3, 4);
	REQUIRE(COMP_initAll(), "initialization failed");
	int rcv = sched::spawn("RECV", [] { RECV_comp.main(); });
	unsigned n = 1 + g.small(0, 25);
	// also by two threads at the same time
	unsigned changers = g.chance(1, 2) ? 2 : 1, running = changers;
	bool requested[2] = { w.ext, w.ext };
	for (unsigned t = 0; t < changers; ++t) sched::spawn("TB", [&, t] {
		for (unsigned i = 0; i < n; ++i) {
			sched::sleepFor("TB", g.pick<int64_t>({ 0, 0, 1 * MS, 1 * S, 5 * S, 10 * S, 10 * S }), false);
			bool e = g.chance(1, 2);
			note("  filter: extended squitter only %d", e);
			if (changers == 1) w.ext = e;
			requested[t] = e;
			FILTER_setModeSExtSquitter(e);
			++w.changes;
		}
		--running;
	});
	int world = sched::spawn("world", [&] {
		for (unsigned i = 0, m = g.small(0, 20); i < m; ++i) {
			sched::sleepFor("world", g.pick<int64_t>({ 0, 0, 1 * MS, 1 * S, 5 * S, 10 * S }), false);
			switch (g.weighted({ 3, 2, 1, 1 })) {
			case 0: w.gone = true; ++w.losses; note("  receiver gone"); break;
			case 1: w.up = !w.up; note("  line %s", w.up ? "available" : "not available"); break;
			case 2: w.full = g.range(1, 3); note("  line is congested"); break;
			case 3: { Bytes b { 0x1a, '3' }; b.resize(23, 0x42); w.in.insert(w.in.end(), b.begin(), b.end()); break; }
			}
		}
		w.up = true;
	});
	int other = sched::spawn("other", [&] {
		// somebody else opens and closes files
		for (unsigned i = 0, m = g.small(0, 10); i < m; ++i) {
			sched::sleepFor("other", g.pick<int64_t>({ 0, 1 * MS, 1 * S, 10 * S }), false);
			int fd = put(new File { false, 0 });
			++w.other;
			sched::sleepFor("other", g.pick<int64_t>({ 0, 1 * MS, 1 * S, 10 * S }), false);
			__wrap_close(fd);
		}
	});
	sched::run([&] {
		if (sched::steps() > 200000) fail("too many steps:%s", sched::where().c_str());
		return !running && sched::ended(world) && sched::ended(other); });
	w.full = 0;
	bool early = g.chance(1, 4);
	if (!early) {
		int64_t until = sched::now() + 60 * S;
		sched::spawn("clock", [&] { sched::sleepFor("clock", 61 * S, false); });
		sched::run([&] { if (sched::steps() > 400000) fail("too many steps:%s", sched::where().c_str()); return sched::now() > until; });
		bool open = false;
		for (auto & x : w.fds) open |= x && x->line;
		REQUIRE(open, "no connection to the receiver a minute after all faults ended:%s", sched::where().c_str());
		REQUIRE(w.pending.empty(), "the receiver got an incomplete command");
		if (changers == 2) {
			// which one was the last is up to the schedule
			w.ext = FILTER_getConfiguration()->extSquitter;
			REQUIRE(w.ext == requested[0] || w.ext == requested[1], "extended squitter only %d was not requested", w.ext);
			label("changed by two threads");
		}
		auto want = wanted();
		if (w.lastFailed) { want.erase('d'); w.opt.erase('d'); }
		REQUIRE(w.opt == want, "the receiver is configured '%s', expected '%s'", options(w.opt).c_str(), options(want).c_str());
		if (w.changes && w.conns > 1) nontrivial();
		label("configured");
		// input is still decoded
	}
	sched::cancel(rcv);
	sched::run([&] { return sched::ended(rcv); });
	for (auto & x : w.fds) REQUIRE(!x || !x->line, "the line is left open after stopping");
	if (w.conns > 1) label("reconnected");
	if (w.losses) label("receiver lost");
	done();
}
int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c36_receiver_options", prop, 20000, 600000, 1, 60, "random filter changes, losses of the line, congestion and files opened by others, in random schedules; the options in effect at the receiver are compared with the configuration; nontrivial: a change of the filter and more than one connection" },
	});
}
