// C20: Trimble GPS receiver (src/trimble/trimble_parser.c, trimble_recv.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <cmath>
#include <array>
#include <pthread.h>
extern "C" {
#include "core/gps.h"
#include "trimble/trimble_input.h"
#include "trimble/trimble_parser.h"
#include "trimble/trimble_recv.h"
#include "util/component.h"
}
using namespace pbt;

#define BOM 0x10
#define EOM 0x03

static Gen * G;
static void (*onEnd)();   // stream of the connection is exhausted
static void (*onRead)();
static struct {
	const Bytes * s;
	size_t pos;
	Chunker ch;
	uint8_t junk;
	bool connected;
	unsigned connects, disconnects, writes, failWrites;
	bool configured;
	bool failed;  // a read failed or a write was refused: connection is to be given up
} in;
static std::vector<Bytes> sent;
static std::vector<bool> netPlan;

extern "C" {
struct Component NET_comp;
bool NET_send(const void * buf, size_t len)
{
	const uint8_t * b = (const uint8_t *)buf;
	sent.push_back(Bytes(b, b + len));
	return true;
}
static void (*onConnect)();
void TRIMBLE_INPUT_register() { }
void TRIMBLE_INPUT_init() { }
void TRIMBLE_INPUT_connect()
{
	REQUIRE(!in.connected || in.failed, "connect while connected");
	in.connected = true;
	in.failed = in.configured = false;
	++in.connects;
	if (onConnect) onConnect();
}
void TRIMBLE_INPUT_disconnect()
{
	in.connected = false;
	++in.disconnects;
}
size_t TRIMBLE_INPUT_write(const uint8_t * b, size_t len)
{
	static const Bytes cfg { BOM, 0x35, 0x04, 0x00, 0x01, 0x08, BOM, EOM };
	REQUIRE(in.connected && !in.failed, "write without a connection");
	REQUIRE(Bytes(b, b + len) == cfg, "configuration written is %s", hex(b, len).c_str());
	++in.writes;
	if (in.failWrites) {
		--in.failWrites;
		in.failed = true;
		return G->chance(1, 2) ? 0 : G->range(0, len - 1);
	}
	in.configured = true;
	return len;
}
size_t TRIMBLE_INPUT_read(uint8_t * b, size_t len)
{
	REQUIRE(in.connected && !in.failed, "read without a connection");
	REQUIRE(in.configured, "read from a receiver which was not configured");
	REQUIRE(len > 0, "read into an empty buffer");
	for (size_t i = 0; i < len; ++i) b[i] = i & 1 ? in.junk : BOM;
	if (onRead) onRead();
	size_t left = in.s->size() - in.pos;
	if (!left) {
		if (onEnd) onEnd();
		in.failed = true;
		return 0;
	}
	size_t n = in.ch.next(*G, left < len ? left : len);
	memcpy(b, in.s->data() + in.pos, n);
	in.pos += n;
	return n;
}
}

static Bytes frameOf(const Bytes & p)
{
	Bytes r { BOM, p[0] };
	for (size_t i = 1; i < p.size(); ++i) { r.push_back(p[i]); if (p[i] == BOM) r.push_back(BOM); }
	r.push_back(BOM); r.push_back(EOM);
	return r;
}
static uint8_t tbyte(Gen & g)
{
	switch (g.weighted({ 4, 3, 2, 1 })) {
	case 0: return g.byte();
	case 1: return BOM;
	case 2: return EOM;
	default: return g.pick<uint8_t>({ 0x8f, 0xac, 0, 0xff });
	}
}
static uint8_t genType(Gen & g)
{
	uint8_t t = g.chance(1, 2) ? 0x8f : g.byte();
	return t == BOM || t == EOM ? 0x8f : t;
}
static Bytes genPacket(Gen & g, size_t max)
{
	Bytes p { genType(g) };
	size_t n = g.small(0, max);
	for (size_t i = 0; i < n; ++i) p.push_back(tbyte(g));
	return p;
}

// position based decoder
struct TModel {
	const Bytes & s;
	size_t cap, pos = 0; // size of the destination buffer
	TModel(const Bytes & st, size_t c) : s(st), cap(c) { }
	bool next(Bytes & p)
	{
		if (pos >= s.size()) return false;
		bool synced = s[pos++] == BOM;
		while (true) {
			if (!synced && !sync()) return false;
			synced = false;
			if (pos >= s.size()) return false;
			p.assign(1, s[pos++]);
			if (p[0] == EOM) continue;
			while (true) {
				if (p.size() == cap) break; // too long
				if (pos >= s.size()) return false;
				uint8_t b = s[pos++];
				if (b == BOM) {
					if (pos >= s.size()) return false;
					uint8_t c = s[pos];
					if (c == EOM) { ++pos; return true; }
					if (c != BOM) { synced = true; break; }
					++pos;
				}
				p.push_back(b);
			}
		}
	}
	bool sync()
	{
		while (pos < s.size()) {
			if (s[pos++] != BOM) continue;
			if (pos >= s.size()) return false;
			if (s[pos] != BOM && s[pos] != EOM) return true;
			++pos;
		}
		return false;
	}
};

static Bytes genTNoise(Gen & g)
{
	Bytes r;
	switch (g.weighted({ 3, 3, 2, 2, 2 })) {
	case 0: { size_t n = 1 + g.small(0, 40); while (n--) r.push_back(tbyte(g)); break; }
	case 1: { Bytes f = frameOf(genPacket(g, 30)); r.assign(f.begin(), f.begin() + g.range(1, f.size())); break; }
	case 2: { Bytes f = frameOf(genPacket(g, 30)); r.assign(f.begin() + g.range(1, f.size() - 1), f.end()); break; }
	case 3: r.assign(1 + g.small(0, 6), BOM); if (g.chance(1, 3)) r.push_back(EOM); break;
	default: { size_t n = 1 + g.small(0, 300); while (n--) { uint8_t b = g.byte(); r.push_back(b == BOM ? 0 : b); } }
	}
	return r;
}

static void connectTo(Gen & g, const Bytes & s)
{
	in.s = &s;
	in.pos = 0;
	in.ch.init(g);
	in.junk = g.pick<uint8_t>({ 0x8f, 0x03, 0x10, 0 });
	in.failWrites = g.chance(1, 6) ? 1 + g.small(0, 3) : 0;
	unsigned fw = in.failWrites, c = in.connects;
	TRIMBLE_PARSER_connect();
	REQUIRE(in.connected && in.configured, "connect returned without a configured connection");
	REQUIRE(in.connects == c + fw + 1, "%u connection attempts for %u refused configurations", in.connects - c, fw);
}
static void begin(Gen & g)
{
	G = &g;
	memset((void *)&in, 0, sizeof in);
	onRead = onEnd = onConnect = nullptr;
	sent.clear();
	TRIMBLE_PARSER_init();
}
// exact size heap buffer: overflows are caught
static bool getFrame(size_t cap, Bytes & p)
{
	uint8_t * b = (uint8_t *)malloc(cap);
	memset(b, 0x55, cap);
	size_t n = TRIMBLE_PARSER_getFrame(b, cap);
	REQUIRE(n <= cap, "packet length %zu larger than the buffer (%zu)", n, cap);
	p.assign(b, b + n);
	free(b);
	return n > 0;
}

static void frames(Gen & g)
{
	begin(g);
	unsigned conns = 0;
	do {
		Bytes s;
		size_t cap = g.chance(1, 3) ? 2 + g.small(0, 40) : g.pick<size_t>({ 1024, 128, 64, 129, 70 });
		if (g.chance(1, 4)) {
			size_t n = g.range(0, 60);
			while (n--) s.push_back(g.pick<uint8_t>({ BOM, EOM, 'a', 0, 0x8f }));
		} else do {
			if (g.chance(2, 3)) append(s, frameOf(genPacket(g, cap < 200 && g.chance(1, 3) ? cap + 3 : g.chance(1, 8) ? 300 : 80)));
			else append(s, genTNoise(g));
		} while (g.more(1 + g.size() / 8.));
		if (g.chance(1, 2) && s.size()) s.resize(s.size() - g.small(0, s.size() < 50 ? s.size() : 50));
		connectTo(g, s);
		note("connection %u: buffer %zu, chunk mode %u/%u, stream %s", conns, cap, in.ch.mode, in.ch.n, hex(s).c_str());
		TModel m(s, cap);
		unsigned nf = 0;
		while (true) {
			Bytes want, got;
			bool w, h;
			// nothing starts with BOM: whether such a "packet" is dropped is up to the decoder
			while ((w = m.next(want)) && want[0] == BOM);
			while ((h = getFrame(cap, got)) && got[0] == BOM);
			REQUIRE(h || !w, "packet %s was not delivered", hex(want).c_str());
			REQUIRE(!h || w, "packet %s was delivered, but the stream contains no (further) packet", hex(got).c_str());
			if (!w) break;
			REQUIRE(got == want, "delivered %s, expected %s", hex(got).c_str(), hex(want).c_str());
			++nf;
		}
		TRIMBLE_PARSER_disconnect();
		REQUIRE(!in.connected, "disconnect did not disconnect the input");
		if (nf) { label("packets"); if (in.ch.mode) nontrivial(); }
		if (s.size() > 128) label("beyond read buffer");
		++conns;
	} while (conns < 4 && g.chance(1, 2));
	if (conns > 1) label("reconnects");
}

static void recovery(Gen & g)
{
	begin(g);
	Bytes s;
	std::vector<std::vector<Bytes>> groups;
	unsigned serial = 1, bursts = 0;
	bool cleanFirst = false, first = true;
	std::vector<bool> tails;
	do {
		Bytes noise;
		bool tail = g.chance(1, 4);
		tails.push_back(tail);
		if (tail) {
			// the end of a packet, not starting within an escape sequence: every following packet can be recognized
			Bytes p = genPacket(g, 30);
			size_t cut = g.range(0, p.size());
			for (size_t i = cut; i < p.size(); ++i) { if (i == 0) { noise.push_back(p[0]); continue; } noise.push_back(p[i]); if (p[i] == BOM) noise.push_back(BOM); }
			noise.push_back(BOM); noise.push_back(EOM);
			label("end of a packet");
			++bursts;
		} else if (!first || g.chance(1, 3)) {
			do append(noise, genTNoise(g)); while (g.more(1));
			++bursts;
		} else cleanFirst = true;
		first = false;
		note("noise %s", hex(noise).c_str());
		append(s, noise);
		std::vector<Bytes> grp;
		size_t n = 2 + g.small(0, 8);
		while (n--) {
			Bytes p = genPacket(g, 60);
			for (int k = 0; k < 6; ++k) p.insert(p.begin() + 1 + (k & 1), 0x80 | ((serial >> (k & 1 ? 0 : 7)) & 0x7f));
			++serial;
			note("packet %s", hex(p).c_str());
			grp.push_back(p);
			append(s, frameOf(p));
		}
		groups.push_back(grp);
	} while (g.more(1.5) && groups.size() < 6);
	connectTo(g, s);
	std::vector<Bytes> got;
	Bytes p;
	while (getFrame(1024, p)) got.push_back(p);
	size_t q = 0;
	for (size_t gi = 0; gi < groups.size(); ++gi) {
		size_t st = tails[gi] || (gi == 0 && cleanFirst) ? 0 : 1;
		while (q < got.size() && !(got[q] == groups[gi][st])) ++q;
		for (size_t i = st; i < groups[gi].size(); ++i, ++q)
			REQUIRE(q < got.size() && got[q] == groups[gi][i], "intact packet %zu of run %zu was not delivered in order: %s", i, gi, hex(groups[gi][i]).c_str());
	}
	REQUIRE(q == got.size(), "a packet was made up after the last intact packet: %s", hex(got[q]).c_str());
	label("%u bursts", bursts);
	if (bursts) nontrivial();
}

/* ---------------------------------------------------------------- position */
static struct {
	bool has;
	double v[3];
	const Bytes * s;
	std::vector<Bytes> streams;
	std::vector<std::string> notes;
	unsigned conn;          // index of the current stream
	bool cancel;
	size_t cancelAt;        // reads
	size_t reads;
	unsigned accepted, rejected;
	bool needPending;       // a login asked for the position
	double lastSent[3];
} P;
static const double R2D = 57.2957795130823208767981548141051703;

static double be64(const uint8_t * b)
{
	uint64_t u = 0;
	for (int i = 0; i < 8; ++i) u = u << 8 | b[i];
	double d;
	memcpy(&d, &u, 8);
	return d;
}
static bool same(double a, double b)
{
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::isinf(a) || std::isinf(b)) return a == b;
	return std::fabs(a - b) <= 4e-16 * std::fabs(b);
}
static std::vector<Bytes> sentPositions(const std::vector<Bytes> & v)
{
	std::vector<Bytes> r;
	for (auto & b : v) {
		REQUIRE(b.size() >= 26 && b[0] == 0x1a && b[1] == '7', "message %s is no position", hex(b).c_str());
		Bytes c;
		for (size_t i = 2; i < b.size(); ++i) { c.push_back(b[i]); if (b[i] == 0x1a) ++i; }
		REQUIRE(c.size() == 24, "position message has %zu bytes: %s", c.size(), hex(b).c_str());
		r.push_back(c);
	}
	return r;
}
// which position is known after these bytes?
static void modelPosition(const Bytes & s, size_t n, std::vector<std::array<double, 3>> & acc)
{
	Bytes pre(s.begin(), s.begin() + n);
	TModel m(pre, 1024);
	Bytes p;
	acc.clear();
	while (m.next(p)) {
		if (p.size() != 69 || p[0] != 0x8f || p[1] != 0xac) continue;
		bool ok = p[2] == 7 && p[3] == 0 && p[9] == 0 && p[10] == 0 && !(p[11] & 1) && !(p[12] & 0x20) && p[13] == 0;
		if (!ok) continue;
		acc.push_back({ be64(&p[37]) * R2D, be64(&p[45]) * R2D, be64(&p[53]) });
	}
}
static void checkPosition()
{
	// everything delivered so far has been processed
	std::vector<std::array<double, 3>> acc;
	modelPosition(*in.s, in.pos, acc);
	// a deferred position is sent as soon as it is known
	auto v = sentPositions(sent);
	REQUIRE(v.size() <= 1, "%zu positions sent for one login", v.size());
	if (P.needPending) {
		REQUIRE(v.size() == (acc.empty() ? 0u : 1u), "a login waits for a position, %zu valid positions received, %zu sent", acc.size(), v.size());
	}
	else REQUIRE(v.empty(), "position sent without request");
	auto cmp = [] (const Bytes & c, const std::array<double, 3> & a) {
		for (int i = 0; i < 3; ++i)
			REQUIRE(same(be64(&c[8 * i]), a[i]), "%s sent as %.17g, expected %.17g", i == 0 ? "latitude" : i == 1 ? "longitude" : "altitude", be64(&c[8 * i]), a[i]);
	};
	if (v.size()) {
		// one of the positions received meanwhile: the first one
		cmp(v[0], acc[P.accepted]);
		P.needPending = false;
	}
	P.accepted = acc.size();
	sent.clear();
	// what would a login send now?
	bool ask = P.needPending ? false : G->chance(1, 2);
	if (ask) {
		REQUIRE(GPS_sendPosition(), "GPS_sendPosition failed without a network error");
		v = sentPositions(sent);
		sent.clear();
		REQUIRE(v.size() == (acc.empty() ? 0u : 1u), "a login sends %zu positions, %zu valid ones were received on this connection", v.size(), acc.size());
		if (v.size()) cmp(v[0], acc.back());
		else P.needPending = true;
	}
}
static void posRead()
{
	REQUIRE(P.reads == 0 || in.s != nullptr, "no stream");
	checkPosition();
	if (++P.reads == P.cancelAt) {
		pthread_cancel(pthread_self());
		pthread_testcancel();
	}
}
static void posConnect()
{
	if (P.conn == P.streams.size()) { // the end: stop here
		in.connected = false;
		pthread_cancel(pthread_self());
		pthread_testcancel();
	}
	in.s = &P.streams[P.conn];
	in.pos = 0;
	in.ch.init(*G);
	P.accepted = 0;
	// a login waiting for a position still waits
}
static void posEnd() { ++P.conn; }
static Bytes genPos(Gen & g)
{
	Bytes p(69);
	for (auto & b : p) b = tbyte(g);
	p[0] = 0x8f; p[1] = 0xac;
	p[2] = 7; p[3] = 0; p[9] = p[10] = 0; p[13] = 0;
	p[11] &= ~1; p[12] &= ~0x20;
	for (int i = 0; i < 3; ++i) if (g.chance(3, 4)) {
		double d = (g.range(0, 2000000) - 1000000) / 1000000. * (i == 0 ? 1.57 : i == 1 ? 3.14 : 9000);
		uint64_t u; memcpy(&u, &d, 8);
		for (int k = 0; k < 8; ++k) p[37 + 8 * i + k] = u >> (56 - 8 * k);
	}
	unsigned n = g.weighted({ 3, 4, 1 });
	while (n--) switch (g.raw(9)) {
	case 0: p[0] = g.pick<uint8_t>({ 0x8e, 0x46, 0x55, 0x8f }); break;
	case 1: p[1] = g.pick<uint8_t>({ 0xab, 0xa2, 0xac, 0xad }); break;
	case 2: p[2] = g.chance(1, 2) ? g.raw(8) : g.byte(); break;
	case 3: p[3] = g.chance(1, 2) ? g.raw(8) : g.byte(); break;
	case 4: p[9 + g.raw(1)] = 1 << g.raw(7); break;
	case 5: p[11 + g.raw(1)] = 1 << g.raw(7); break;
	case 6: p[13] = g.pick<uint8_t>({ 1, 3, 8, 9, 10, 11, 12, 16, 0x80 }); break;
	case 7: p.push_back(tbyte(g)); break;
	case 8: p.pop_back(); break;
	default: p[4] = g.byte(); p[14] = g.byte();
	}
	return p;
}
static void * threadMain(void *)
{
	TRIMBLE_comp.main();
	return nullptr;
}
static void position(Gen & g)
{
	begin(g);
	P = {};
	size_t nconn = 1 + g.small(0, 3);
	unsigned good = 0, all = 0;
	for (size_t c = 0; c < nconn; ++c) {
		Bytes s;
		size_t n = g.small(0, 8);
		while (n--) switch (g.weighted({ 5, 2, 1 })) {
		case 0: {
			Bytes p = genPos(g);
			note("connection %zu: packet %s", c, hex(p).c_str());
			++all;
			append(s, frameOf(p));
			break; }
		case 1: append(s, frameOf(genPacket(g, 80))); break;
		default: append(s, genTNoise(g));
		}
		if (g.chance(1, 4) && s.size()) s.resize(s.size() - g.small(0, s.size() < 80 ? s.size() : 80));
		std::vector<std::array<double, 3>> acc;
		modelPosition(s, s.size(), acc);
		good += acc.size();
		P.streams.push_back(s);
	}
	P.cancelAt = g.chance(1, 4) ? 1 + g.raw(30) : 0;
	note("cancel at read %zu", P.cancelAt);
	// something left over from before the start
	if (g.chance(1, 3)) GPS_setPositionWithFix(1, 2, 3);
	GPS_resetNeedFlag();
	sent.clear();
	onRead = posRead; onEnd = posEnd; onConnect = posConnect;
	in.failWrites = g.chance(1, 6) ? 1 + g.small(0, 3) : 0;
	if (TRIMBLE_comp.onConstruct) REQUIRE(TRIMBLE_comp.onConstruct(), "construction failed");
	pthread_t t;
	pthread_create(&t, nullptr, threadMain, nullptr);
	void * rc;
	pthread_join(t, &rc);
	REQUIRE(rc == PTHREAD_CANCELED, "the receiver's main loop ended");
	REQUIRE(!in.connected, "stopped without disconnecting");
	GPS_reset();
	GPS_resetNeedFlag();
	if (good) nontrivial();
	label("%s", good ? "accepted positions" : all ? "only rejected positions" : "no positions");
	if (P.conn == nconn) label("all connections"); else label("stopped early");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "trimble_frames", frames, 300000, 6000000, 40, 20,
			"streams of packets (DLE-heavy contents), noise and truncations, any chunking, destination buffers of 2..1024 bytes, refused configuration writes, "
			"reconnects; compared packet by packet with a position based decoder. Non-trivial: at least one packet and reads cut inside the stream" },
		{ "trimble_recovery", recovery, 200000, 5000000, 40, 20,
			"runs of >=2 uniquely numbered intact packets between noise bursts; all but the first packet of each run must be delivered in order. "
			"Non-trivial: at least one burst" },
		{ "trimble_position", position, 100000, 3000000, 20, 20,
			"the component's main loop over 1-4 connections of supplemental timing packets with generated alarms, modes, status, positions and lengths, other packets, noise; "
			"before every read the position a login would send is compared with the last acceptable packet; cancellation at any read. Non-trivial: at least one acceptable position" },
	});
}
