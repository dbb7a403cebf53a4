// C01, C02: Beast input parser (src/radarcape/rc-parser.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
extern "C" {
#include "core/input.h"
#include "core/filter.h"
#include "radarcape/rc-input.h"
#include "radarcape/rc-parser.h"
struct FILTER_Configuration FILTER_cfg;
}
using namespace pbt;

namespace {
struct Line {
	Gen * g;
	const Bytes * stream = nullptr;
	size_t pos = 0;
	Chunker ch;
	uint8_t junk = 0;
	int connects = 0, disconnects = 0;
	bool connected = false;
} line;
}

extern "C" {
void RC_INPUT_register() { }
void RC_INPUT_init() { }
void RC_INPUT_connect() { ++line.connects; line.connected = true; }
void RC_INPUT_disconnect() { ++line.disconnects; line.connected = false; }
size_t RC_INPUT_write(uint8_t *, size_t len) { return len; }
size_t RC_INPUT_read(uint8_t * b, size_t len)
{
	REQUIRE(line.connected, "read without a connection");
	REQUIRE(len > 0, "read into an empty buffer");
	// what the buffer holds beyond the returned bytes is unspecified
	for (size_t i = 0; i < len; ++i) b[i] = i & 1 ? line.junk : 0x1a;
	size_t left = line.stream->size() - line.pos;
	if (!left) return 0;
	size_t n = line.ch.next(*line.g, left < len ? left : len);
	memcpy(b, line.stream->data() + line.pos, n);
	line.pos += n;
	return n;
}
}

static bool getFrame(Gen & g, BFrame & f, bool checkRaw)
{
	static uint8_t fillv;
	struct OPENSKY_RawFrame raw;
	struct OPENSKY_DecodedFrame dec;
	++fillv;
	memset(&raw, fillv, sizeof raw);
	memset(&dec, fillv ^ 0x55, sizeof dec);
	raw.rawLen = 0;
	if (!INPUT_getFrame(&raw, &dec)) return false;
	REQUIRE(raw.rawLen <= sizeof raw.raw, "raw length %zu too large", raw.rawLen);
	f.type = dec.frameType;
	REQUIRE((unsigned)dec.frameType == f.type, "frame type %u", (unsigned)dec.frameType);
	REQUIRE(dec.payloadLen == payloadLenOf(f.type) && dec.payloadLen, "payload length %zu for type %u", dec.payloadLen, f.type);
	f.mlat = dec.mlat;
	f.siglevel = (uint8_t)dec.siglevel;
	f.payload.assign(dec.payload, dec.payload + dec.payloadLen);
	Bytes r(raw.raw, raw.raw + raw.rawLen);
	REQUIRE(r == f.raw(), "raw frame %s is not the escaped form of the decoded frame %s", hex(r).c_str(), f.str().c_str());
	return true;
}

static void connectTo(Gen & g, const Bytes & s)
{
	line.g = &g;
	line.stream = &s;
	line.pos = 0;
	line.ch.init(g);
	line.junk = g.pick<uint8_t>({ '2', '3', 0x1a, 0, 0x1b });
	INPUT_connect();
}

static void resetLine()
{
	line = Line();
	if (INPUT_comp.onReset) INPUT_comp.onReset();
}

/* C01: arbitrary streams against the model */
static void decodeExact(Gen & g)
{
	resetLine();
	uint64_t oos = 0, unk = 0;
	unsigned conns = 0;
	bool reset = false;
	do {
		Bytes s;
		bool tiny = g.chance(1, 4);
		if (tiny) { // dense coverage of short streams over the interesting alphabet
			size_t n = g.range(0, 60);
			for (size_t i = 0; i < n; ++i) s.push_back(g.pick<uint8_t>({ 0x1a, '1', '2', 0x00, '4', '3', 'x' }));
		} else {
			do {
				if (g.chance(2, 3)) append(s, genFrame(g).raw());
				else append(s, genNoise(g));
			} while (g.more(1 + g.size() / 8.));
		}
		if (g.chance(1, 2) && s.size()) // connection lost in the middle
			s.resize(s.size() - g.small(0, s.size() < 50 ? s.size() : 50));
		connectTo(g, s);
		REQUIRE(line.connected, "connect returned without a connection");
		note("connection %u: chunk mode %u/%u, stream %s", conns, line.ch.mode, line.ch.n, hex(s).c_str());
		BModel m(s);
		BFrame want, got;
		unsigned nf = 0;
		while (true) {
			bool w = m.next(want);
			bool h = getFrame(g, got, true);
			REQUIRE(h || !w, "frame %s of the stream was not delivered", want.str().c_str());
			REQUIRE(!h || w, "frame %s was delivered, but the stream contains no (further) frame", got.str().c_str());
			struct RC_PARSER_Statistics st;
			RC_PARSER_getStatistics(&st);
			REQUIRE(st.outOfSync == oos + m.outOfSync && st.frameTypeUnknown == unk + m.unknown,
				"statistics: out of sync %llu, unknown type %llu; expected %llu, %llu",
				(unsigned long long)st.outOfSync, (unsigned long long)st.frameTypeUnknown,
				(unsigned long long)(oos + m.outOfSync), (unsigned long long)(unk + m.unknown));
			if (!w) break;
			REQUIRE(got == want, "delivered %s, expected %s", got.str().c_str(), want.str().c_str());
			++nf;
		}
		oos += m.outOfSync;
		unk += m.unknown;
		INPUT_disconnect();
		if (nf) { label("frames"); if (line.ch.mode) nontrivial(); }
		if (m.outOfSync) label("out of sync");
		if (m.unknown) label("unknown type");
		if (s.size() > 128) label("beyond read buffer");
		if (g.chance(1, 8)) { // statistics reset
			INPUT_comp.onReset();
			oos = unk = 0;
			reset = true;
		}
		++conns;
	} while (conns < 4 && g.chance(1, 2));
	if (conns > 1) label("reconnects");
	if (reset) label("statistics reset");
	(void)reset;
}

/* C02: recovery after noise, judged without a model of the decoder */
static void recovery(Gen & g)
{
	resetLine();
	Bytes s;
	std::vector<std::vector<BFrame>> groups;
	uint64_t serial = 1;
	unsigned bursts = 0;
	bool first = true, cleanFirst = false;
	do {
		std::vector<BFrame> grp;
		Bytes noise;
		if (!first || g.chance(1, 3)) {
			do append(noise, genNoise(g)); while (g.more(1));
			if (g.chance(1, 3)) noise.push_back(0x1a);
			++bursts;
		}
		else cleanFirst = true;
		first = false;
		note("noise %s", hex(noise).c_str());
		append(s, noise);
		size_t n = 2 + g.small(0, 10);
		for (size_t i = 0; i < n; ++i) {
			BFrame f = genFrame(g);
			// unique signature: noise does not contain it
			uint64_t id = serial++;
			f.mlat = 0;
			for (int k = 0; k < 6; ++k) f.mlat = f.mlat << 8 | (0x80 | ((id >> (7 * (k % 2))) & 0x7f));
			if (g.chance(1, 4)) f.siglevel = 0x1a;
			grp.push_back(f);
			note("frame %s", f.str().c_str());
			append(s, f.raw());
		}
		groups.push_back(grp);
	} while (g.more(1.5) && groups.size() < 6);

	connectTo(g, s);
	std::vector<BFrame> got;
	BFrame f;
	while (getFrame(g, f, false)) got.push_back(f);
	INPUT_disconnect();

	size_t p = 0;
	for (size_t gi = 0; gi < groups.size(); ++gi) {
		auto & grp = groups[gi];
		// the second frame of every group (the first one, if nothing precedes it) must appear
		bool clean = gi == 0 && cleanFirst;
		size_t startFrame = clean ? 0 : 1;
		size_t q = p;
		while (q < got.size() && !(got[q] == grp[startFrame])) ++q;
		REQUIRE(q < got.size(), "intact frame %zu of run %zu was not delivered: %s", startFrame, gi, grp[startFrame].str().c_str());
		if (clean) REQUIRE(q == 0, "a frame was made up before the first intact frame");
		for (size_t i = startFrame; i < grp.size(); ++i, ++q) {
			REQUIRE(q < got.size(), "intact frame %zu of run %zu was not delivered: %s", i, gi, grp[i].str().c_str());
			REQUIRE(got[q] == grp[i], "instead of intact frame %zu of run %zu (%s), %s was delivered", i, gi,
				grp[i].str().c_str(), got[q].str().c_str());
		}
		p = q;
	}
	REQUIRE(p == got.size(), "a frame was made up after the last intact frame: %s", got[p].str().c_str());
	// each intact frame at most once
	for (auto & grp : groups)
		for (auto & fr : grp) {
			unsigned c = 0;
			for (auto & x : got) c += x == fr;
			REQUIRE(c <= 1, "frame %s was delivered %u times", fr.str().c_str(), c);
		}
	label("%u bursts", bursts);
	if (bursts) nontrivial();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c01_decode_exact", decodeExact, 400000, 8000000, 40, 20,
			"stream of 1.. frames/noise pieces (escape-heavy contents, truncations, unknown types), cut into reads by one of 5 chunking modes, "
			"1-4 consecutive connections; compared frame by frame with a position based reference decoder incl. counters. "
			"Non-trivial: at least one frame and reads cut inside the stream" },
		{ "c02_recovery", recovery, 350000, 8000000, 40, 20,
			"runs of >=2 uniquely numbered intact frames separated by noise bursts, random chunking; all but the first frame of each run must be "
			"delivered once, in order. Non-trivial: at least one noise burst" },
	});
}
