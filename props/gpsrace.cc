// C11: the GPS thread and the thread logging in use src/core/gps.c concurrently; every shared memory access is a
// scheduling point (see sched.cc)
#include "pbt.hh"
#include "beastmodel.hh"
#include "sched.hh"
#include "stub_log.hh"
#include <cstring>
extern "C" {
#include "core/gps.h"
#include "core/network.h"
}
using namespace pbt;

namespace {
struct State { unsigned k; bool has, fix; uint64_t from, to; };
struct World {
	Gen * g;
	std::vector<State> states;      // the last one is current; "to" of it is open
	uint64_t clock = 0;             // events
	bool inRelay = false, relayOverlap = false, gpsSending = false, pending = false;
	uint64_t relayStart = 0;
	unsigned relaySends = 0, gpsSends = 0, deferred = 0, failed = 0, asked = 0;
	bool delivered = true;          // a position was sent since the last request
	int ended = 0;
	unsigned failRate;
} * W;
}
static const uint64_t OPEN = ~0ull;
static double be(const uint8_t * p) { uint64_t u = 0; for (int i = 0; i < 8; ++i) u = u << 8 | p[i]; double d; memcpy(&d, &u, 8); return d; }

extern "C" bool NET_send(const void * buf, size_t len)
{
	World & w = *W;
	const uint8_t * b = (const uint8_t *)buf;
	uint64_t now = ++w.clock;
	Bytes c;
	REQUIRE(len >= 2 && b[0] == 0x1a && b[1] == '7', "not a position: %s", hex(b, len).c_str());
	for (size_t i = 2; i < len; ++i) { c.push_back(b[i]); if (b[i] == 0x1a) ++i; }
	REQUIRE(c.size() == 24, "position of %zu bytes", c.size());
	double v[3] = { be(&c[0]), be(&c[8]), be(&c[16]) };
	unsigned k = (unsigned)v[0];
	REQUIRE(v[0] == k && v[1] == k + 1000.25 && v[2] == k + 2000.5, "position %g %g %g was never set: parts of different positions", v[0], v[1], v[2]);
	bool relay = sched::name() == "relay";
	uint64_t from = relay ? w.relayStart : now;
	bool ok = false;
	for (auto & s : w.states) if (s.k == k && s.has && s.fix && s.to >= from) ok = true;
	REQUIRE(ok, "position %u sent, which was not valid then", k);
	if (!relay) {
		w.gpsSending = true;
		REQUIRE(w.states.back().k == k, "position %u sent after position %u was set", k, w.states.back().k);
		REQUIRE(w.pending, "position sent, although none was asked for");
		w.relayOverlap = w.inRelay;
	}
	note("%s: sending position %u", sched::name().c_str(), k);
	sched::yield();
	bool rc = !(w.failRate && w.g->chance(1, w.failRate));
	++w.clock;
	if (rc) w.delivered = true; else ++w.failed;
	if (relay) ++w.relaySends; else { ++w.gpsSends; w.gpsSending = false; if (rc && !w.inRelay && !w.relayOverlap) w.pending = false; }
	note("%s: %s", sched::name().c_str(), rc ? "sent" : "failed");
	return rc;
}

static void state(unsigned k, bool has, bool fix)
{
	W->states.push_back({ k, has, fix, ++W->clock, OPEN });
}
static void closeStates() // the operation has ended: former states are not valid any more
{
	uint64_t n = ++W->clock;
	for (size_t i = 0; i + 1 < W->states.size(); ++i) if (W->states[i].to == OPEN) W->states[i].to = n;
}
static void gpsThread(unsigned n)
{
	World & w = *W;
	Gen & g = *w.g;
	unsigned k = 1;
	while (n--) {
		State s = w.states.back();
		switch (g.weighted({ 3, 4, 2, 1 })) {
		case 0: ++k; note("gps: set %u", k); state(k, true, s.fix); GPS_setPosition(k, k + 1000.25, k + 2000.5); break;
		case 1: ++k; note("gps: set %u with fix", k); state(k, true, true); GPS_setPositionWithFix(k, k + 1000.25, k + 2000.5); break;
		case 2: { bool f = g.chance(2, 3); note("gps: fix %d", f); state(s.k, s.has, f); GPS_setHasFix(f); break; }
		default: note("gps: reset"); state(s.k, false, false); GPS_reset();
		}
		closeStates();
	}
	++w.ended;
}
static void relayThread(unsigned n)
{
	World & w = *W;
	while (n--) {
		w.relayStart = ++w.clock;
		w.inRelay = w.pending = true;
		w.delivered = false;
		unsigned sends = w.relaySends, failed = w.failed;
		note("relay: position requested");
		++w.asked;
		bool rc = GPS_sendPosition();
		w.inRelay = false;
		bool sent = w.relaySends != sends;
		note("relay: %s -> %d", sent ? "sent" : "deferred", rc);
		REQUIRE(sent || rc, "a deferred position was reported as failure");
		if (!sent) {
			++w.deferred;
			bool could = false;
			for (auto & s : w.states) if (!(s.has && s.fix) && s.to >= w.relayStart) could = true;
			REQUIRE(could, "position deferred although it was valid all the time");
		} else if (rc && !w.gpsSending) w.pending = false;
		// a failed login is repeated
		if (!rc) ++n;
		(void)failed;
	}
	++w.ended;
}
static void race(Gen & g)
{
	World * w = new World;
	W = w;
	w->g = &g;
	w->failRate = g.pick<unsigned>({ 0, 2, 5 });
	sched::reset(g, g.pick<unsigned>({ 1, 2, 4 }));
	GPS_reset();
	GPS_resetNeedFlag();
	w->states.push_back({ 0, false, false, 0, OPEN });
	unsigned n = g.range(1, 12), m = g.range(1, 4);
	sched::spawn("gps", [n] { gpsThread(n); });
	sched::spawn("relay", [m] { relayThread(m); });
	sched::run();
	if (!w->failRate && w->states.back().has && w->states.back().fix)
		REQUIRE(w->delivered, "a login asked for the position and there is a valid one, but it was not sent");
	w->failRate = 0;
	// at last there is a position for sure: whoever asked for it gets it
	bool d = w->delivered;
	sched::spawn("gps", [] { note("gps: set 9999 with fix"); state(9999, true, true); GPS_setPositionWithFix(9999, 10999.25, 11999.5); closeStates(); });
	sched::run();
	REQUIRE(w->delivered, "a login asked for the position, but it was never sent");
	if (!d) label("pending at the end");
	if (w->deferred) label("deferred");
	if (w->relaySends) label("sent by login");
	if (w->gpsSends) label("sent by update");
	if (w->failed) label("failed sends");
	if (w->relaySends + w->gpsSends) nontrivial();
	delete w;
}
int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "gps_race", race, 30000, 1000000, 20, 10,
			"updates and resets of the position by the GPS thread while another thread logs in, in random schedules down to memory accesses, with a failing network; non-trivial: a position was sent" },
	});
}
