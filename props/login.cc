// C10: login messages (src/core/login.c); C11: GPS position reporting (src/core/gps.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <cmath>
extern "C" {
#include "core/login.h"
#include "core/gps.h"
#include "core/serial.h"
#include "core/network.h"
#include "core/openskytypes.h"
#include "util/endec.h"
}
using namespace pbt;

static Gen * G;
static std::vector<Bytes> sent;
static std::vector<bool> results; // what the network answered
static std::vector<bool> plan;    // what it shall answer (then: true)
static enum SERIAL_RETURN serialRc;
static uint32_t serial;
static unsigned serialCalls;
static size_t sentAtSerial;

extern "C" {
bool NET_send(const void * buf, size_t len)
{
	const uint8_t * b = (const uint8_t *)buf;
	sent.push_back(Bytes(b, b + len));
	bool r = results.size() < plan.size() ? plan[results.size()] : true;
	results.push_back(r);
	return r;
}
enum SERIAL_RETURN SERIAL_getSerial(uint32_t * s)
{
	++serialCalls;
	sentAtSerial = sent.size();
	if (serialRc == SERIAL_RETURN_SUCCESS) *s = serial;
	return serialRc;
}
}

static void be(Bytes & b, uint64_t v, unsigned bytes) { while (bytes--) b.push_back(v >> (8 * bytes)); }
static Bytes msg(uint8_t type, const Bytes & content)
{
	Bytes r { 0x1a, type };
	append(r, escape(content));
	return r;
}

struct Pos { double v[3]; };
static Bytes posMsg(const Pos & p)
{
	Bytes c;
	for (double d : p.v) { uint64_t u; memcpy(&u, &d, 8); be(c, u, 8); }
	return msg('7', c);
}
static double genCoord(Gen & g, double lim)
{
	switch (g.weighted({ 4, 2, 1, 2 })) {
	case 0: return (g.range(0, 2000000) - 1000000) / 1000000. * lim;
	case 1: return g.pick<double>({ 0., -0., 90., -180., 1e300, -1e-300 });
	case 2: return g.pick<double>({ INFINITY, -INFINITY, (double)NAN });
	default: { // byte patterns, especially those to be escaped
		uint64_t u = 0;
		for (int i = 0; i < 8; ++i) u = u << 8 | genByte(g);
		double d; memcpy(&d, &u, 8); return d; }
	}
}
static Pos genPos(Gen & g) { return { { genCoord(g, 90), genCoord(g, 180), genCoord(g, 10000) } }; }

/* ------------------------------------------------------------ GPS model */
static struct {
	bool has, fix, need;
	Pos pos;
} m;

static std::string list(const std::vector<Bytes> & v)
{
	std::string r;
	for (auto & b : v) r += " " + hex(b);
	return r.empty() ? " (nothing)" : r;
}
static void expect(const char * what, const std::vector<Bytes> & want)
{
	REQUIRE(sent == want, "%s: sent%s, expected%s", what, list(sent).c_str(), list(want).c_str());
}
static void gpsUpdate(const char * what)
{
	std::vector<Bytes> want;
	if (m.need && m.has && m.fix) {
		want.push_back(posMsg(m.pos));
		m.need = !results.empty() && !results[0];
	}
	expect(what, want);
}
static void gpsOp(Gen & g, bool netOk)
{
	sent.clear();
	results.clear();
	plan = { netOk };
	switch (g.weighted({ 3, 3, 3, 1, 1 })) {
	case 0:
		m.pos = genPos(g); m.has = true;
		note("set position %g %g %g, net %d", m.pos.v[0], m.pos.v[1], m.pos.v[2], netOk);
		GPS_setPosition(m.pos.v[0], m.pos.v[1], m.pos.v[2]);
		gpsUpdate("set position");
		break;
	case 1:
		m.pos = genPos(g); m.has = m.fix = true;
		note("set position with fix %g %g %g, net %d", m.pos.v[0], m.pos.v[1], m.pos.v[2], netOk);
		GPS_setPositionWithFix(m.pos.v[0], m.pos.v[1], m.pos.v[2]);
		gpsUpdate("set position with fix");
		break;
	case 2: {
		m.fix = g.chance(2, 3);
		note("set fix %d, net %d", m.fix, netOk);
		GPS_setHasFix(m.fix);
		gpsUpdate("set fix");
		break; }
	case 3:
		note("reset");
		GPS_reset();
		m.has = m.fix = false; // a login waiting for a position keeps waiting
		expect("reset", {});
		break;
	default:
		note("reset need");
		GPS_resetNeedFlag();
		m.need = false;
		expect("reset need", {});
	}
}
static void gpsSend(bool netOk)
{
	sent.clear();
	results.clear();
	plan = { netOk };
	bool rc = GPS_sendPosition();
	note("send position, net %d -> %d", netOk, rc);
	if (!m.has || !m.fix) {
		expect("send position", {});
		REQUIRE(rc, "a deferred position was reported as failure");
		m.need = true;
	} else {
		expect("send position", { posMsg(m.pos) });
		REQUIRE(rc == netOk, "sending returned %d, the network %d", rc, netOk);
		if (netOk) m.need = false;
	}
}

static void gps(Gen & g)
{
	GPS_reset();
	GPS_resetNeedFlag();
	memset(&m, 0, sizeof m);
	unsigned sends = 0, deferred = 0, retries = 0, fromUpdate = 0;
	do {
		bool netOk = !g.chance(1, 3);
		bool need = m.need;
		if (g.chance(1, 3)) {
			gpsSend(netOk);
			++(sent.empty() ? deferred : sends);
		} else {
			gpsOp(g, netOk);
			if (!sent.empty()) { ++fromUpdate; if (!netOk) ++retries; }
		}
		(void)need;
	} while (g.more(4 + g.size() / 4.));
	if (sends) label("position sent on request");
	if (deferred) label("deferred");
	if (fromUpdate) { label("sent by update"); nontrivial(); }
	if (retries) label("failed update");
}

/* ---------------------------------------------------------------- login */
static void login(Gen & g)
{
	GPS_reset();
	GPS_resetNeedFlag();
	memset(&m, 0, sizeof m);
	serialCalls = 0;
	uint32_t type = g.chance(3, 4) ? g.range(1, 9) : g.u32();
	if (type == 0) type = 0x1a1a1a1a;
	LOGIN_setDeviceType((enum OPENSKY_DEVICE_TYPE)type);
	note("device type %u", type);
	std::string user;
	unsigned full = 0, failed = 0, withPos = 0, withUser = 0;
	do {
		switch (g.weighted({ 4, 2, 2 })) {
		case 0: {
			unsigned fails = g.chance(1, 3);
			plan.clear();
			if (fails) { size_t at = g.range(0, 3); for (size_t i = 0; i < at; ++i) plan.push_back(true); plan.push_back(false); }
			serialRc = g.chance(1, 6) ? SERIAL_RETURN_FAIL_NET : SERIAL_RETURN_SUCCESS;
			switch (g.weighted({ 2, 2, 1 })) {
			case 0: serial = g.u32(); break;
			case 1: serial = genByte(g) << 24 | genByte(g) << 16 | genByte(g) << 8 | genByte(g); break;
			default: serial = 0x1a1a1a1a;
			}
			auto thisPlan = plan;
			bool posValid = m.has && m.fix;
			std::vector<Bytes> want;
			bool ok = true;
			auto step = [&](uint8_t t, const Bytes & c) {
				if (!ok) return;
				ok = want.size() < thisPlan.size() ? thisPlan[want.size()] : true;
				want.push_back(msg(t, c));
			};
			Bytes c;
			be(c, type, 4); be(c, 2, 4); be(c, 1, 4); be(c, 7, 4);
			step(65, c);
			if (ok && serialRc != SERIAL_RETURN_SUCCESS) ok = false;
			c.clear();
			be(c, serial, 4);
			step('5', c);
			if (posValid) {
				c.clear();
				for (double d : m.pos.v) { uint64_t u; memcpy(&u, &d, 8); be(c, u, 8); }
				bool was = ok;
				step('7', c);
				if (was && ok) m.need = false;
			} else if (ok) m.need = true;
			if (!user.empty()) {
				c.assign(user.begin(), user.end());
				c.resize(40, 0);
				step(67, c);
			}
			sent.clear();
			results.clear();
			logstub::onEmerg = nullptr;
			if (serialRc != SERIAL_RETURN_SUCCESS && g.chance(1, 12)) {
				// never to be had: the login is not completed, whatever else happens
				serialRc = g.pick<enum SERIAL_RETURN>({ SERIAL_RETURN_FAIL_TEMP, SERIAL_RETURN_FAIL_PERM });
				static std::vector<Bytes> upTo;
				upTo = want;
				logstub::onEmerg = [] (const LogLine & l) {
					note("  %s", l.msg.c_str());
					REQUIRE(serialRc != SERIAL_RETURN_SUCCESS && serialCalls, "unrecoverable error: %s", l.msg.c_str());
					expect("login without serial number", upTo);
					label("no serial number");
					done();
				};
			}
			bool rc = LOGIN_login();
			note("login (serial %08x rc %d, position %d, user %zu, fail at %zu) -> %d, sent%s", serial, (int)serialRc,
				posValid, user.size(), fails ? thisPlan.size() : 0, rc, list(sent).c_str());
			expect("login", want);
			REQUIRE(rc == ok, "login returned %d, expected %d", rc, ok);
			if (ok) {
				++full;
				if (posValid) ++withPos;
				if (!user.empty()) ++withUser;
			} else ++failed;
			break; }
		case 1: {
			size_t k = g.weighted({ 8, 1, 1 });
			if (k == 1) { note("user name reset"); user.clear(); LOGIN_setUsername(nullptr); break; }
			size_t n = k == 2 ? g.range(41, 90) : g.pick<size_t>({ 1, 5, 12, 39, 40, 0 });
			std::string u;
			for (size_t i = 0; i < n; ++i) {
				uint8_t b = g.chance(1, 3) ? genByte(g) : 'a' + g.raw(25);
				u.push_back(b ? b : 'x');
			}
			note("user name of %zu: %s", n, hex(u.data(), n).c_str());
			// ends at an exact heap boundary
			char * h = strdup(u.c_str());
			LOGIN_setUsername(h);
			free(h);
			user = n > 40 ? "" : u;
			break; }
		default:
			gpsOp(g, !g.chance(1, 3));
		}
	} while (g.more(4 + g.size() / 12.));
	if (full && failed) label("complete and failed logins");
	if (full) nontrivial();
	if (withPos) label("with position");
	if (withUser) label("with user name");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "login_messages", login, 25000, 800000, 1, 10,
			"device types, serials, positions and user names with escaped bytes and all lengths, failing sends at every step; non-trivial: at least one complete login" },
		{ "gps_report", gps, 300000, 10000000, 200, 10,
			"histories of position/fix updates, resets and requests with a failing network; non-trivial: an update triggered a deferred position" },
	});
}
