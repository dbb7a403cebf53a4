// C24: requesting a serial number (src/dump1090/req-serial.c with src/core/tb.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include "sched.hh"
#include <cerrno>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "core/serial.h"
#include "core/network.h"
#include "core/tb.h"
#include "core/filter.h"
#include "core/input.h"
#include "dump1090/req-serial.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
struct Emerg { };
struct World {
	Gen * g;
	unsigned id = 0;         // current connection
	bool up = false;
	unsigned relayId = 0, tbId = 0; // connection each side works with
	Bytes down;              // bytes under way to the daemon
	size_t downPos = 0;
	unsigned pending = 0;    // requests on this connection
	int64_t lostAt = -1;     // time the connection of the relay was lost
	bool stop = false;
	// the number
	bool known = false;      // a response was delivered or the number is configured
	bool fromConfig = false;
	uint32_t number = 0;
	int64_t knownAt = 0;
	Bytes seen;              // bytes of this connection delivered to tb
	// current call
	bool inCall = false, sendFailed = false, checkFailed = false, forced = false, knownAtStart = false;
	unsigned requests = 0;
	int64_t reqAt = 0, callAt = 0;
	// statistics
	unsigned calls = 0, successes = 0, fails = 0, timeouts = 0, late = 0, dups = 0;
	bool writeFails = false, emerg = false;
	bool exposed = false;    // a login used the number
};
World w;
std::string dir;
bool got; // a response was delivered in an earlier life, but never used
uint32_t gotNumber;
}
static bool relayOk() { return w.up && w.relayId == w.id; }

extern "C" {
// not used here
void FILTER_setSynchronizedFilter(bool) { }
void FILTER_setModeSExtSquitter(bool) { }
void FILTER_reset() { }
void INPUT_reconfigure() { }
const struct Component NET_comp = { .description = "NET" };

static unsigned & mine() { return w.inCall ? w.relayId : w.tbId; }
static thread_local bool isTb;
void NET_waitConnected()
{
	(void)mine;
	unsigned & m = isTb ? w.tbId : w.relayId;
	sched::block("waiting for a connection", [&m] { return w.up && m != w.id; }, true);
	m = w.id;
	if (isTb) w.seen.clear();
}
bool NET_send(const void * buf, size_t len)
{
	sched::point("sending");
	Bytes b((const uint8_t *)buf, (const uint8_t *)buf + len);
	REQUIRE(w.inCall && !isTb, "%s sent outside of a request for the serial number", hex(b).c_str());
	REQUIRE(b == (Bytes { 0x1a, 0x42 }), "%s sent, which is no serial number request", hex(b).c_str());
	REQUIRE(!w.knownAtStart, "serial number requested although it is known (%u)", w.number);
	REQUIRE(!w.requests, "more than one request sent");
	++w.requests;
	w.reqAt = sched::now();
	if (!relayOk()) { note("  request fails"); w.sendFailed = true; return false; }
	note("  request on connection %u", w.id);
	++w.pending;
	return true;
}
bool NET_checkConnected()
{
	sched::yield();
	REQUIRE(w.inCall && !isTb, "connection checked by another thread");
	if (!relayOk()) w.checkFailed = true;
	return relayOk();
}
static void lose(const char * why)
{
	note("  connection %u %s", w.id, why);
	w.up = false;
	if (w.relayId == w.id) w.lostAt = sched::now();
	w.pending = 0;
}
void NET_forceDisconnect()
{
	sched::yield();
	REQUIRE(w.inCall && !isTb, "disconnect forced outside of a request");
	REQUIRE(w.requests && sched::now() - w.reqAt >= 59000000000ll, "connection given up %.1f s after the request", (sched::now() - w.reqAt) / 1e9);
	w.forced = true;
	if (relayOk()) lose("given up");
}
ssize_t NET_receive(uint8_t * buf, size_t len)
{
	REQUIRE(isTb, "data received by another thread");
	auto data = [] { return w.tbId == w.id && w.downPos < w.down.size(); };
	sched::block("receiving", [data] { return data() || !w.up || w.tbId != w.id; }, true);
	if (!data()) return 0;
	size_t n = std::min(len, w.down.size() - w.downPos);
	if (w.g->chance(1, 3)) n = w.g->range(1, n);
	memcpy(buf, &w.down[w.downPos], n);
	for (size_t i = 0; i < n; ++i) {
		w.seen.push_back(w.down[w.downPos++]);
		if (w.seen.size() == 8) {
			if (w.seen[1] == 5) {
				uint32_t v = (uint32_t)w.seen[4] << 24 | w.seen[5] << 16 | w.seen[6] << 8 | w.seen[7];
				note("  response %u delivered%s", v, w.known ? " (number known already)" : w.inCall ? "" : " (nobody waits)");
				if (w.known) ++w.dups;
				else {
					w.known = true; w.number = v; w.knownAt = sched::now();
					if (!w.inCall) ++w.late;
				}
			}
			w.seen.clear();
		}
	}
	return n;
}
FILE * __real_fopen(const char *, const char *);
FILE * __wrap_fopen(const char * n, const char * m)
{
	if (strncmp(n, "/vstate/", 8)) return __real_fopen(n, m);
	REQUIRE(!strcmp(n, "/vstate/conf.d/05-serial.conf"), "file %s opened", n);
	sched::point("opening the file");
	if (w.writeFails) {
		if (w.g->chance(1, 2)) { errno = EACCES; return nullptr; }
		return __real_fopen("/dev/full", m);
	}
	return __real_fopen((dir + "/05-serial.conf").c_str(), m);
}
FILE * __wrap_fopen64(const char * n, const char * m) { return __wrap_fopen(n, m); }
}

static void respond(Gen & g)
{
	uint32_t v = g.chance(1, 3) ? g.pick<uint32_t>({ 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x1a1a1a1a }) : g.u32();
	uint8_t p[8] = { 0, 5, 0, 8, (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v };
	note("  server responds %u", v);
	w.down.insert(w.down.end(), p, p + 8);
}
static void server()
{
	Gen & g = *w.g;
	while (true) {
		sched::sleepFor("server", g.pick<int64_t>({ 0, 1000000, 500000000, 2000000000, 2000000001, 5000000000ll, 20000000000ll, 58000000000ll, 60000000000ll, 61000000000ll }), true);
		if (!w.up) {
			++w.id;
			w.up = true;
			w.down.clear();
			w.downPos = 0;
			w.pending = 0;
			note("  connection %u", w.id);
			continue;
		}
		switch (g.weighted({ 5, 2, 1, 2, 1 })) {
		case 0: if (w.pending) { --w.pending; respond(g); } break;
		case 1: break;
		case 2: respond(g); break;
		case 3: lose("lost"); break;
		case 4: { uint8_t p[8] = { 0, 2 + 17, 0, 8, 1, 2, 3, 4 }; w.down.insert(w.down.end(), p, p + 8); break; } // something else
		}
	}
}
static void relay()
{
	Gen & g = *w.g;
	isTb = false;
	while (true) {
		NET_waitConnected();
		w.lostAt = -1;
		while (true) {
			w.sendFailed = w.checkFailed = w.forced = false;
			w.requests = 0;
			w.callAt = sched::now();
			bool knew = w.known;
			// a response delivered, but not yet processed, does not count
			w.knownAtStart = w.fromConfig || w.exposed;
			w.inCall = true;
			++w.calls;
			uint32_t v = 0xdeadbeef;
			note("  getSerial");
			int r = SERIAL_getSerial(&v);
			w.inCall = false;
			if (w.emerg) throw Emerg(); // the process has ended
			note("  -> %d %u", r, v);
			int64_t dur = sched::now() - (w.requests ? w.reqAt : w.callAt);
			REQUIRE(dur <= 70000000000ll, "getSerial took %.1f s", dur / 1e9);
			if (r == SERIAL_RETURN_SUCCESS) {
				REQUIRE(w.known, "serial number %u without configuration or response", v);
				REQUIRE(v == w.number, "serial number is %u, expected %u", v, w.number);
				REQUIRE(!w.writeFails || w.fromConfig, "serial number used although it could not be stored");
				w.exposed = true;
				++w.successes;
			} else {
				REQUIRE(r == SERIAL_RETURN_FAIL_NET, "getSerial returned %d", r);
				REQUIRE(!knew || !w.knownAtStart, "getSerial failed although the number %u is known", w.number);
				REQUIRE(!relayOk(), "getSerial reports a network failure, but the connection is intact");
				REQUIRE(w.sendFailed || w.checkFailed || w.forced, "getSerial reports a network failure it cannot know of");
				REQUIRE(w.lostAt < 0 || sched::now() - std::max(w.lostAt, w.callAt) <= 15000000000ll, "the lost connection was noticed after %.1f s", (sched::now() - w.lostAt) / 1e9);
				if (w.forced) {
					++w.timeouts;
					REQUIRE(!w.known || w.knownAt == sched::now() || w.knownAt < w.reqAt, "connection given up although the response had arrived");
				}
				++w.fails;
				break;
			}
			sched::sleepFor("relaying", g.pick<int64_t>({ 0, 1000000000ll, 30000000000ll }), true);
			if (!relayOk()) break;
			if (g.chance(1, 2)) { sched::block("relaying", [] { return !relayOk(); }, true); break; }
		}
	}
}

static void life(Gen & g, unsigned n)
{
	note("life %u", n);
	CFG_unregisterAll();
	CFG_registerSection(SERIAL_comp.config);
	CFG_loadDefaults();
	bool exposed = w.exposed, fromConfig = false;
	uint32_t number = w.number;
	std::string own = dir + "/10-own.conf";
	unlink(own.c_str());
	w = World();
	w.g = &g;
	w.exposed = exposed;
	if (exposed) { w.known = true; w.number = number; w.fromConfig = true; }
	if (!exposed && g.chance(1, 5)) {
		w.number = g.chance(1, 2) ? g.u32() >> g.raw(31) : g.pick<uint32_t>({ 0, 1, 0x7fffffff });
		w.number &= 0x7fffffff;
		w.known = w.fromConfig = fromConfig = true;
		FILE * f = __real_fopen(own.c_str(), "w");
		fprintf(f, "[%s]\nserial=%u\n", g.pick<const char *>({ "Device", "DEVICE" }), w.number);
		fclose(f);
		note("  number %u configured", w.number);
		label("configured");
	}
	if (!w.known) w.writeFails = g.chance(1, 6);
	REQUIRE(CFG_readDirectory(dir.c_str(), true, true, true, false), "the configuration directory is not readable any more");
	if (!w.known && got) {
		// received, but never used: kept or not
		struct stat st;
		if (!stat((dir + "/05-serial.conf").c_str(), &st) && st.st_size > 0) {
			FILE * f = __real_fopen((dir + "/05-serial.conf").c_str(), "r");
			char l[200];
			unsigned v;
			while (fgets(l, sizeof l, f)) if (sscanf(l, "serial = %u", &v) == 1) {
				REQUIRE(v == gotNumber, "number %u stored, expected %u", v, gotNumber);
				w.known = w.fromConfig = true; w.number = gotNumber;
			}
			fclose(f);
		}
	}
	sched::reset(g, g.pick<unsigned>({ 1, 2, 4, 10 }));
	sched::spurious = g.chance(1, 3);
	int tr = sched::spawn("relay", [] { try { relay(); } catch (Emerg &) { } });
	int tt = sched::spawn("tb", [] { isTb = true; try { TB_comp.main(); } catch (Emerg &) { } });
	int tv = sched::spawn("server", server);
	int64_t until = sched::now() + g.pick<int64_t>({ 1000000000ll, 10000000000ll, 70000000000ll, 200000000000ll, 400000000000ll });
	uint64_t maxSteps = 20000;
	sched::run([&] {
		if (sched::steps() > maxSteps) fail("endless loop without time passing:%s", sched::where().c_str());
		return w.emerg || sched::now() > until || w.successes >= 4; });
	if (w.emerg) { REQUIRE(w.writeFails, "unrecoverable error"); label("not storable"); }
	// stop (or the process ends)
	std::vector<int> ts { tr, tt };
	if (g.chance(1, 2)) std::swap(ts[0], ts[1]);
	ts.push_back(tv);
	for (int t : ts) {
		if (sched::ended(t)) continue;
		sched::cancel(t);
		uint64_t max = sched::steps() + 3000;
		sched::run([t, max] {
			if (sched::steps() > max) fail("a thread cannot be stopped:%s", sched::where().c_str());
			return sched::ended(t); });
	}
	if (!fromConfig && w.known && !w.exposed) { got = true; gotNumber = w.number; }
	if (fromConfig && w.exposed) w.exposed = false;  // the number goes with the configuration
	if (fromConfig) w.known = false;
}

static void prop(Gen & g)
{
	static bool registered;
	if (!registered) { registered = true; SERIAL_comp.onRegister(); }
	dir = scratch() + "/conf.d";
	mkdir(dir.c_str(), 0755);
	unlink((dir + "/05-serial.conf").c_str());
	logstub::onEmerg = [] (const LogLine & l) {
		if (!w.writeFails) return;
		note("  %s", l.msg.c_str());
		w.emerg = true;
		throw Emerg();
	};
	w = World();
	got = false;
	unsigned lives = 1 + g.small(0, 3), succ = 0, fails = 0, late = 0, dups = 0, timeouts = 0, asked = 0;
	for (unsigned i = 0; i < lives; ++i) {
		life(g, i);
		succ += w.successes; fails += w.fails; late += w.late; dups += w.dups; timeouts += w.timeouts;
		asked += w.successes && !w.fromConfig;
	}
	if (asked && (fails || lives > 1)) nontrivial();
	if (succ) label("number obtained");
	if (fails) label("failed attempts");
	if (timeouts) label("gave up after a minute");
	if (late) label("response while nobody waited");
	if (dups) label("further responses");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "serial_request", prop, 40000, 1000000, 20, 60,
			"up to four lives of the daemon with generated server behaviour (responses early, late, repeated, split, missing; connection losses), interleavings of relay and talkback thread, stops at any point, configured numbers and unwritable files. "
			"Non-trivial: a number was obtained by request, and an attempt failed or the daemon was restarted" },
	});
}
