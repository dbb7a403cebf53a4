// C21: Radarcape library (src/radarcape/lib/opensky.cc); C22 (-DGPLIB): general purpose library (src/gplib/opensky.cc)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <cmath>
#include <deque>
#ifdef GPLIB
#include "gplib/opensky.hh"
#else
#include "radarcape/lib/opensky.hh"
#endif
#define DEV ((unsigned)4)
extern "C" {
#include "core/buffer.h"
#include "core/filter.h"
#include "core/gps.h"
#include "core/network.h"
#include "core/serial.h"
#include "core/tb.h"
#include "core/relay.h"
#include "util/component.h"
#ifdef GPLIB
bool LOGIN_login();
#else
#include "core/login.h"
#endif
}
using namespace pbt;

static std::vector<Bytes> sent;
static int relayRunning, relayStarts;
static enum SERIAL_RETURN ethRc = SERIAL_RETURN_SUCCESS;
static uint32_t ethSerial;

static bool relayStart() { ++relayRunning; ++relayStarts; return true; }
static bool relayStop(bool) { --relayRunning; return true; }
extern "C" {
extern const struct Component BUF_comp;
const struct Component RELAY_comp = { .description = "RELAY", .onStart = &relayStart, .onStop = &relayStop, .dependencies = { &BUF_comp, NULL } };
const struct Component TB_comp = { .description = "TB", .dependencies = { NULL } };
const struct Component NET_comp = { .description = "NET", .dependencies = { NULL } };
bool NET_send(const void * buf, size_t len)
{
	const uint8_t * b = (const uint8_t *)buf;
	sent.push_back(Bytes(b, b + len));
	return true;
}
enum SERIAL_RETURN SERIAL_ETH_getSerial(uint32_t * s)
{
	if (ethRc == SERIAL_RETURN_SUCCESS && s) *s = ethSerial;
	return ethRc;
}
}

static void be(Bytes & b, uint64_t v, unsigned n) { while (n--) b.push_back(v >> (8 * n)); }
static Bytes msg(uint8_t type, const Bytes & c) { Bytes r { 0x1a, type }; append(r, escape(c)); return r; }
static std::string list(const std::vector<Bytes> & v)
{
	std::string r;
	for (auto & b : v) r += " " + hex(b);
	return r.empty() ? " (nothing)" : r;
}

static struct {
	bool configured, running;
	bool sync, syncFilter, ext;
	int status;
	bool hasPos, fix, need;
	double pos[3];
	uint32_t type, serial;
	std::deque<Bytes> q;
} m;

static Bytes posMsg()
{
	Bytes c;
	for (double d : m.pos) { uint64_t u; memcpy(&u, &d, 8); be(c, u, 8); }
	return msg('7', c);
}
static double genCoord(Gen & g, double lim)
{
	switch (g.weighted({ 4, 2, 2 })) {
	case 0: return (g.range(0, 2000000) - 1000000) / 1000000. * lim;
	case 1: return g.pick<double>({ 0., -0., 90., -180. });
	default: { uint64_t u = 0; for (int i = 0; i < 8; ++i) u = u << 8 | genByte(g); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 1 : d; }
	}
}
static bool admitted(uint8_t type, uint8_t first)
{
	if (m.syncFilter && !m.sync) return false;
	if (type != '2' && type != '3') return false;
	return !m.ext || first >> 3 == 17 || first >> 3 == 18;
}
static void expectSent(const char * what, const std::vector<Bytes> & want)
{
	REQUIRE(sent == want, "%s: sent%s, expected%s", what, list(sent).c_str(), list(want).c_str());
	sent.clear();
}
static void expectDeferred(const char * what)
{
	std::vector<Bytes> want;
	if (m.need && m.hasPos && m.fix) { want.push_back(posMsg()); m.need = false; }
	expectSent(what, want);
}
static void drain()
{
	while (true) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		if (!f) break;
		Bytes r(f->raw, f->raw + f->rawLen);
		BUF_releaseFrame(f);
		REQUIRE(!m.q.empty(), "unexpected frame %s in the queue", hex(r).c_str());
		REQUIRE(r == m.q.front(), "queued frame %s, expected %s", hex(r).c_str(), hex(m.q.front()).c_str());
		m.q.pop_front();
	}
	REQUIRE(m.q.empty(), "submitted frame %s is not in the queue", hex(m.q.front()).c_str());
}
static bool queued = false;
static void submit(Gen & g)
{
	uint8_t type;
	bool known;
	Bytes content;
#ifdef GPLIB
	size_t len = g.chance(3, 4) ? g.pick<size_t>({ 14, 7 }) : g.pick<size_t>({ 0, 1, 2, 6, 8, 13, 15, 28 });
	known = len == 7 || len == 14;
	type = len == 7 ? '2' : '3';
	Bytes payload = genBytes(g, len);
	if (len && g.chance(2, 3)) payload[0] = (g.pick<uint8_t>({ 17, 18, 11, 19, 16 }) << 3) | (payload[0] & 7);
	uint64_t ts;
	switch (g.weighted({ 3, 3, 2, 1 })) {
	case 0: ts = g.raw(7ull * 86400 * 1000000000 - 1); break;
	case 1: { // seconds and nanoseconds whose encoding has bytes to be escaped
		uint64_t mlat = 0;
		for (int i = 0; i < 6; ++i) mlat = mlat << 8 | genByte(g);
		uint64_t sec = (mlat >> 30) % 86400, ns = mlat & 0x3fffffff;
		if (ns > 999999999) ns = 999999999;
		ts = (sec + g.raw(6) * 86400) * 1000000000ull + ns;
		break; }
	case 2: ts = g.raw(7) * 86400ull * 1000000000 + g.pick<uint64_t>({ 0, 1, 999999999, 1000000000, 86399999999999ull, 86399000000000ull }); break;
	default: ts = g.u64();
	}
	bool utc = g.chance(5, 6), tsync = g.chance(2, 3);
	int8_t rssi = genByte(g);
	be(content, (ts / 1000000000 % 86400) << 30 | ts % 1000000000, 6);
	content.push_back(rssi);
	append(content, payload);
	known = known && utc;
	note("submit timestamp %llu utc %d sync %d rssi %d payload %s", (unsigned long long)ts, utc, tsync, rssi, hex(payload).c_str());
	uint8_t * exact = (uint8_t *)malloc(len ? len : 1);
	memcpy(exact, payload.data(), len);
	OpenSky::submitFrame(ts, utc, tsync, rssi, exact, len);
	free(exact);
	uint8_t first = len ? payload[0] : 0;
#else
	type = g.chance(5, 6) ? g.pick<uint8_t>({ '3', '2', '1' }) : g.pick<uint8_t>({ 0, 1, 2, 3, 4, '4', '5', '6' });
	known = type >= '1' && type <= '3';
	content = genBytes(g, 7 + (known ? payloadLenOf(type) : 14));
	if (g.chance(2, 3)) content[7] = (g.pick<uint8_t>({ 17, 18, 11, 19, 16 }) << 3) | (content[7] & 7);
	note("message type %02x %s", type, hex(content).c_str());
	uint8_t * exact = (uint8_t *)malloc(content.size());
	memcpy(exact, content.data(), content.size());
	OpenSky::output_message(exact, (enum MessageType_T)type);
	free(exact);
	uint8_t first = content[7];
#endif
	if (m.configured && m.running && known && admitted(type, first)) {
		m.q.push_back(msg(type, content));
		queued = true;
	}
}
static void loginOp()
{
	note("login");
	bool rc = LOGIN_login();
	Bytes dev, ser;
	be(dev, m.type, 4);
	for (uint32_t v : { 2, 1, 7 }) be(dev, v, 4);
	be(ser, m.serial, 4);
	std::vector<Bytes> want { msg('A', dev), msg('5', ser) };
	if (m.hasPos && m.fix) { want.push_back(posMsg()); m.need = false; }
	else m.need = true;
	REQUIRE(rc, "login failed");
	expectSent("login", want);
}

static bool initialized;
static void doInit()
{
	if (initialized) return;
	initialized = true;
	OpenSky::init();
}
static void emerg(const LogLine & l)
{
	note("EMERG: %s", l.msg.c_str());
	done();
}
static bool expectEmerg;

#ifdef GPLIB
static void doConfigure(Gen & g)
{
	m.type = g.range(1, 9);
	m.serial = g.u32();
	note("configure type %u serial %u", m.type, m.serial);
	OpenSky::configure((OPENSKY_DEVICE_TYPE)m.type, m.serial);
	m.configured = true;
}
#endif

static void session(Gen & g)
{
	logstub::onEmerg = nullptr;
	ethRc = SERIAL_RETURN_SUCCESS;
	doInit();
	OpenSky::disable();
	REQUIRE(relayRunning == 0, "relay still runs after disable");
	m = {};
#ifdef GPLIB
	doConfigure(g);
#else
	ethSerial = m.serial = g.u32();
	m.type = DEV;
	m.configured = true;
	OpenSky::setGpsTimeStatus(GpsTimeInvalid);
#endif
	GPS_reset();
	GPS_resetNeedFlag();
	BUF_flush();
	FILTER_setSynchronizedFilter(true);
	FILTER_setModeSExtSquitter(true);
	m.syncFilter = m.ext = true;
	sent.clear();
	queued = false;
	unsigned en = 0, n = 0, upd = 0;
	do {
		++n;
		switch (g.weighted({ 10, 2, 1, 2, 2, 1, 1, 3, 1 })) {
		case 0: submit(g); break;
		case 1:
			note("enable");
			OpenSky::enable();
			m.q.clear();
			m.running = true;
			m.need = false;
#ifdef GPLIB
			m.sync = true;
#else
			m.sync = m.status != GpsTimeInvalid;
#endif
			++en;
			REQUIRE(relayRunning == 1, "%d relays run after enable", relayRunning);
			break;
		case 2:
			note("disable");
			OpenSky::disable();
			m.running = false;
			REQUIRE(relayRunning == 0, "%d relays run after disable", relayRunning);
			break;
		case 3: { // position
			m.hasPos = true;
			m.pos[0] = genCoord(g, 90); m.pos[1] = genCoord(g, 180); m.pos[2] = genCoord(g, 9000);
			note("position %g %g %g", m.pos[0], m.pos[1], m.pos[2]);
			if (m.need) ++upd;
			OpenSky::setGpsPosition(m.pos[0], m.pos[1], m.pos[2]);
#ifdef GPLIB
			m.fix = true;
#endif
			expectDeferred("position announced");
			break; }
		case 4:
#ifdef GPLIB
			note("position withdrawn");
			OpenSky::unsetGpsPosition();
			m.fix = false;
			expectSent("position withdrawn", {});
#else
			m.status = g.pick<int>({ UsingGpsTime, UsingCpuTime, GpsTimeInvalid });
			note("time status %d", m.status);
			OpenSky::setGpsTimeStatus((GpsTimeStatus_t)m.status);
			m.sync = m.status != GpsTimeInvalid;
			m.fix = m.status == UsingGpsTime;
			expectDeferred("time status");
#endif
			break;
		case 5:
			m.ext = g.chance(1, 2);
			note("extended squitter filter %d", m.ext);
			FILTER_setModeSExtSquitter(m.ext);
			break;
		case 6:
			m.syncFilter = g.chance(1, 2);
			note("synchronization filter %d", m.syncFilter);
			FILTER_setSynchronizedFilter(m.syncFilter);
			break;
		case 7:
			if (g.chance(1, 2)) loginOp();
			else { note("drain"); drain(); }
			break;
		default:
#ifdef GPLIB
			doConfigure(g);
#else
			ethSerial = m.serial = g.u32();
			note("configure");
			OpenSky::configure();
#endif
		}
		if (m.q.size() >= 40) drain();
	} while (n < 200 && g.more(6 + g.size() / 3.));
	drain();
	if (queued && en) nontrivial();
	if (en > 1) label("enabled repeatedly");
	if (queued) label("frames queued");
	if (upd) label("deferred position");
	OpenSky::disable();
	REQUIRE(relayRunning == 0, "relay still runs after disable");
}

/* calls before the library is configured (one case per process) */
static void startup(Gen & g)
{
	m = {};
	m.syncFilter = m.ext = true;
	sent.clear();
	logstub::onEmerg = emerg;
#ifndef GPLIB
	ethRc = g.pick<enum SERIAL_RETURN>({ SERIAL_RETURN_SUCCESS, SERIAL_RETURN_FAIL_PERM });
	ethSerial = m.serial = g.u32();
	m.type = DEV;
	if (ethRc != SERIAL_RETURN_SUCCESS) { label("no serial number"); nontrivial(); }
	note("init, serial number %s", ethRc == SERIAL_RETURN_SUCCESS ? "known" : "unknown");
	initialized = true;
	OpenSky::init();
	REQUIRE(ethRc == SERIAL_RETURN_SUCCESS, "the library is configured although there is no serial number");
	m.configured = true;
#else
	initialized = true;
	OpenSky::init();
	note("init");
#endif
	for (unsigned n = 1 + g.small(0, 6); n--; ) {
		switch (g.weighted({ 2, 1, 1 })) {
		case 0: submit(g); break;
		case 1: note("disable"); OpenSky::disable(); break;
		default:
#ifdef GPLIB
			note("enable without configuration");
			label("enable too early");
			nontrivial();
			OpenSky::enable();
			fail("enabled without configuration");
#else
			note("time status");
			OpenSky::setGpsTimeStatus(UsingGpsTime);
			m.status = UsingGpsTime;
#endif
		}
	}
	drain();
	REQUIRE(relayRunning == 0, "relay runs without being enabled");
#ifdef GPLIB
	doConfigure(g);
#endif
	note("enable");
	OpenSky::enable();
	m.running = true;
#ifdef GPLIB
	m.sync = true;
#else
	m.sync = m.status != GpsTimeInvalid;
#endif
	for (unsigned n = 1 + g.small(0, 6); n--; ) submit(g);
	drain();
	if (queued) { label("frames queued"); nontrivial(); }
	loginOp();
	OpenSky::disable();
}

int main(int argc, char ** argv)
{
#ifdef GPLIB
#define NAME(x) "gplib_" x
#else
#define NAME(x) "rclib_" x
#endif
	return run(argc, argv, {
		{ NAME("session"), session, 150000, 4000000, 30, 20,
			"histories of enable/disable/configure, submitted frames (all types, lengths, escape-heavy contents), position and time status changes, filter changes, logins; "
			"queue contents and sent messages compared with a model. Non-trivial: at least one frame queued" },
		{ NAME("startup"), startup, 3000, 60000, 1, 20,
			"calls before, during and after configuration in a fresh process, serial number available or not. Non-trivial: a frame was queued or the configuration is refused" },
	});
}
