// C12: talkback framing (src/core/tb.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
extern "C" {
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"
#include "core/input.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
struct Packet { unsigned type, len; Bytes payload; bool known; size_t end; };
struct Call { unsigned type; Bytes payload; };
struct Conn {
	Bytes stream;
	std::vector<Packet> packets; // well-formed ones, up to the first malformed header
	size_t badAt = SIZE_MAX;     // offset of the first malformed header
};
struct End { };
Gen * G;
std::vector<Conn> conns;
size_t cur, pos;
bool up, started;
Chunker ch;
std::vector<Call> calls;
int plen[6]; // registered payload length by type; -1: none
unsigned dispatched, skipped, malformed;
}

static void record(unsigned type, const uint8_t * p)
{
	calls.push_back({ type, Bytes(p, p + plen[type]) });
	note("  handler %u: %s", type, hex(p, plen[type]).c_str());
}
static void h0(const uint8_t * p) { record(0, p); }
static void h1(const uint8_t * p) { record(1, p); }
static void h2(const uint8_t * p) { record(2, p); }
static void h3(const uint8_t * p) { record(3, p); }
static void h5(const uint8_t * p) { record(5, p); }
static TB_ProcessorFn handlers[] = { h0, h1, h2, h3, nullptr, h5 };

// judges the calls of the current connection
static void judge(bool complete)
{
	const Conn & c = conns[cur];
	size_t k = 0;
	for (auto & p : c.packets) {
		if (p.end > pos) break;
		if (!p.known) continue;
		REQUIRE(k < calls.size(), "packet of type %u ending at %zu was not processed", p.type, p.end);
		REQUIRE(calls[k].type == p.type && calls[k].payload == p.payload, "handler %u called with %s, expected handler %u with %s",
			calls[k].type, hex(calls[k].payload).c_str(), p.type, hex(p.payload).c_str());
		++k;
	}
	if (pos < c.badAt || pos - c.badAt < 4) {
		REQUIRE(k == calls.size(), "handler %u was called without a packet for it (payload %s)", calls[k].type, hex(calls[k].payload).c_str());
	} else {
		// after a malformed header: only what the stream really contains
		size_t from = c.badAt;
		for (; k < calls.size(); ++k) {
			Bytes want { 0, (uint8_t)calls[k].type, 0, (uint8_t)(calls[k].payload.size() + 4) };
			append(want, calls[k].payload);
			size_t i = from;
			while (i + want.size() <= pos && memcmp(&c.stream[i], want.data(), want.size())) ++i;
			REQUIRE(i + want.size() <= pos, "handler %u was called with %s, which is not in the stream", calls[k].type, hex(calls[k].payload).c_str());
			from = i + want.size();
		}
	}
	if (complete) dispatched += calls.size();
}

extern "C" {
// filter packets: C13
void FILTER_setSynchronizedFilter(bool) { }
void FILTER_setModeSExtSquitter(bool) { }
void FILTER_reset() { }
void INPUT_reconfigure() { }
void NET_waitConnected()
{
	REQUIRE(!up, "waiting for a connection although it was not reported as broken");
	if (started) { ++cur; }
	started = true;
	if (cur >= conns.size()) throw End();
	up = true;
	pos = 0;
	calls.clear();
	ch.init(*G);
	note("connection %zu: %s", cur, hex(conns[cur].stream).c_str());
}
ssize_t NET_receive(uint8_t * buf, size_t len)
{
	REQUIRE(up, "receiving without a connection");
	REQUIRE(len > 0 && len <= 65536, "receiving into a buffer of %zu bytes", len);
	judge(false);
	memset(buf, 0, len < 128 ? len : 128); // unspecified content
	const Bytes & s = conns[cur].stream;
	size_t left = s.size() - pos;
	if (!left) {
		judge(true);
		up = false;
		return G->chance(1, 2) ? 0 : -1;
	}
	size_t n = ch.next(*G, left < len ? left : len);
	memcpy(buf, s.data() + pos, n);
	pos += n;
	return n;
}
}

static void put16(Bytes & b, unsigned v) { b.push_back(v >> 8); b.push_back(v); }

static void framing(Gen & g)
{
	G = &g;
	conns.clear();
	cur = pos = 0;
	up = started = false;
	dispatched = skipped = malformed = 0;
	for (unsigned t = 0; t < 6; ++t) {
		plen[t] = -1;
		if (t == 4) continue;
		if (g.chance(1, 5)) continue;
		plen[t] = g.pick<int>({ 6, 0, 4, 2, 1, 123, 124 });
		TB_register(t, plen[t], handlers[t]);
		note("register type %u, payload %d", t, plen[t]);
	}
	unsigned n = 1 + g.small(0, 3);
	for (unsigned i = 0; i < n; ++i) {
		Conn c;
		bool wellformed = g.chance(3, 4);
		do {
			bool bad = !wellformed && g.chance(1, 4);
			if (bad) {
				if (c.badAt == SIZE_MAX) c.badAt = c.stream.size();
				++malformed;
				put16(c.stream, g.chance(1, 2) ? g.raw(6) : g.raw(0xffff));
				put16(c.stream, g.chance(1, 2) ? g.raw(3) : g.range(129, 65535));
				append(c.stream, genBytes(g, g.small(0, 200)));
				continue;
			}
			Packet p;
			switch (g.weighted({ 8, 1, 1 })) {
			case 0: p.type = g.pick<unsigned>({ 5, 0, 1, 2, 3, 4 }); break;
			case 1: p.type = g.range(6, 20); break;
			default: p.type = g.pick<unsigned>({ 0xffff, 0x8000, 0x100, 0x0500, 0x0600, 32767, 255 }); break;
			}
			bool right = p.type < 6 && plen[p.type] >= 0 && g.chance(4, 5);
			unsigned pl = right ? plen[p.type] : g.chance(1, 2) ? g.range(0, 12) : g.range(0, 124);
			p.known = p.type < 6 && plen[p.type] == (int)pl;
			p.len = pl + 4;
			p.payload = genBytes(g, pl);
			put16(c.stream, p.type);
			put16(c.stream, p.len);
			append(c.stream, p.payload);
			p.end = c.stream.size();
			if (!p.known) ++skipped;
			if (c.badAt == SIZE_MAX) c.packets.push_back(p);
		} while (g.more(1 + g.size() / 6.));
		if (g.chance(1, 3) && c.stream.size()) { // lost in the middle
			size_t l = c.stream.size() - g.small(0, c.stream.size() < 140 ? c.stream.size() : 140);
			c.stream.resize(l);
			while (!c.packets.empty() && c.packets.back().end > l) c.packets.pop_back();
		}
		conns.push_back(c);
	}
	try {
		TB_comp.main();
		fail("the component ended");
	} catch (End &) { }
	for (unsigned t = 0; t < 6; ++t)
		if (plen[t] >= 0) TB_unregister(t);
	if (dispatched > 1) nontrivial();
	if (dispatched) label("packets dispatched");
	if (skipped) label("packets to be skipped");
	if (malformed) label("malformed headers");
	if (conns.size() > 1) label("reconnects");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "tb_framing", framing, 200000, 8000000, 100, 10,
			"streams of talkback packets with known, unknown and wrong-length types, malformed headers, arbitrary reads and reconnects, any set of registered handlers; non-trivial: at least two packets dispatched" },
	});
}
