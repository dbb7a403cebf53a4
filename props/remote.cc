// C13: remote filter changes and receiver options (src/core/tb.c, src/core/filter.c, src/radarcape/rc-parser.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <set>
extern "C" {
#include "core/tb.h"
#include "core/network.h"
#include "core/filter.h"
#include "core/input.h"
#include "radarcape/rc-input.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
struct End { };
Gen * G;
Bytes tbStream;
size_t tbPos;
unsigned tbConns;
// receiver
bool connected, configuring, failing;
unsigned connects, goodConnects, badWrites;
std::vector<uint8_t> options; // received on this connection
bool ext, sync_, crc, fec, synced;
}
static void tbRun(const Bytes & s);

extern "C" {
void RC_INPUT_register() { }
void RC_INPUT_init() { }
void RC_INPUT_connect()
{
	++connects;
	connected = true;
	options.clear();
	failing = configuring && G->chance(1, 4) && connects < 6;
}
void RC_INPUT_disconnect() { connected = false; }
size_t RC_INPUT_read(uint8_t *, size_t) { return 0; }
size_t RC_INPUT_write(uint8_t * b, size_t len)
{
	if (!connected) return 0;
	if (failing && G->chance(1, 4)) {
		size_t n = G->raw(len - 1);
		note("  receiver accepts %zu of %zu bytes", n, len);
		failing = false;
		connected = false;
		++badWrites;
		return n;
	}
	REQUIRE(len == 3 && b[0] == 0x1a && b[1] == '1', "malformed option: %s", hex(b, len).c_str());
	options.push_back(b[2]);
	return len;
}
void NET_waitConnected() { if (tbConns++) throw End(); }
ssize_t NET_receive(uint8_t * buf, size_t len)
{
	size_t left = tbStream.size() - tbPos;
	size_t n = left < len ? left : len;
	memcpy(buf, tbStream.data() + tbPos, n);
	tbPos += n;
	return n;
}
}

static void tbRun(const Bytes & s)
{
	tbStream = s;
	tbPos = 0;
	tbConns = 0;
	try { TB_comp.main(); fail("the component ended"); } catch (End &) { }
}
static Bytes filterPacket(uint8_t mask, uint8_t cfg) { return { 0, 4, 0, 6, mask, cfg }; }
static void apply(uint8_t mask, uint8_t cfg)
{
	if (mask & 1) sync_ = cfg & 1;
	if (mask & 2) ext = cfg & 2;
	if (mask & 0x80) synced = false;
}
static void checkFilter(const char * after)
{
	const struct FILTER_Configuration * c = FILTER_getConfiguration();
	REQUIRE(c->sync == sync_ && c->extSquitter == ext && c->crc == crc, "after %s: filter has sync %d, ext squitter %d, crc %d; expected %d, %d, %d",
		after, c->sync, c->extSquitter, c->crc, sync_, ext, crc);
	for (unsigned df : { 0u, 11u, 17u, 18u, 20u, 31u }) {
		bool want = (synced || !sync_) && (!ext || df == 17 || df == 18);
		REQUIRE(FILTER_filter(OPENSKY_FRAME_TYPE_MODE_S_LONG, df << 3) == want, "after %s: DF %u is %sadmitted (synchronized %d, sync filter %d, ext squitter only %d)",
			after, df, want ? "not " : "", synced, sync_, ext);
	}
}
static void checkReceiver(const char * after, bool complete)
{
	if (!connected) return;
	// the last option of each kind is effective
	auto effective = [&](char a, char b) -> int {
		for (size_t i = options.size(); i--; )
			if (options[i] == (uint8_t)a || options[i] == (uint8_t)b) return options[i];
		return 0;
	};
	struct { char on, off; int want; const char * what; } opts[] = {
		{ 'C', 'c', 'C', "output format" }, { 'D', 'd', ext ? 'D' : 'd', "frame filter" }, { 'E', 'e', 'E', "MLAT" },
		{ 'f', 'F', crc ? 'f' : 'F', "CRC check" }, { 'G', 'g', 'G', "timestamp source" }, { 'H', 'h', 'H', "RTS handshake" },
		{ 'i', 'I', fec ? 'i' : 'I', "error correction" }, { 'J', 'j', 'j', "Mode-AC" }, { 'Y', 'Y', 'Y', "LED" }, { 'R', 'R', 'R', "LED" },
	};
	for (auto & o : opts) {
		int e = effective(o.on, o.off);
		REQUIRE(e == o.want, "after %s: receiver option '%s' is %c, expected %c", after, o.what, e ? e : '-', o.want);
	}
	for (uint8_t o : options) REQUIRE(strchr("CcDdEeFfGgHhIiJjYR", o) && o, "unknown option %02x was sent", o);
	(void)complete;
}

static void remote(Gen & g)
{
	G = &g;
	connected = configuring = failing = synced = false;
	connects = goodConnects = badWrites = 0;
	options.clear();
	ext = g.chance(1, 2); sync_ = g.chance(1, 2); crc = g.chance(1, 2); fec = g.chance(1, 2);
	CFG_unregisterAll();
	CFG_registerSection(FILTER_comp.config);
	CFG_registerSection(INPUT_comp.config);
	CFG_loadDefaults();
	CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", ext);
	CFG_setBoolean("FILTER", "SyncFilter", sync_);
	CFG_setBoolean("FILTER", "CRC", crc);
	CFG_setBoolean("INPUT", "FEC", fec);
	REQUIRE(FILTER_comp.onConstruct(), "construction of the filter");
	if (INPUT_comp.onConstruct) REQUIRE(INPUT_comp.onConstruct(), "construction of the input");
	note("ext %d sync %d crc %d fec %d", ext, sync_, crc, fec);
	unsigned packets = 0, forwarded = 0;
	do {
		switch (g.weighted({ 5, 3, 1, 2 })) {
		case 0: {
			Bytes s;
			do {
				uint8_t mask = g.chance(1, 2) ? g.pick<uint8_t>({ 2, 1, 3, 0x80, 0x83, 0 }) : g.byte();
				uint8_t c = g.byte();
				note("filter packet mask %02x cfg %02x", mask, c);
				append(s, filterPacket(mask, c));
				apply(mask, c);
				++packets;
			} while (g.more(0.3));
			tbRun(s);
			if (connected) ++forwarded;
			break; }
		case 1: {
			if (connected) INPUT_disconnect();
			connects = 0;
			configuring = true;
			INPUT_connect();
			configuring = false;
			REQUIRE(connected, "connect returned without a connection");
			note("connected after %u attempts: options %s", connects, std::string(options.begin(), options.end()).c_str());
			++goodConnects;
			break; }
		case 2:
			if (connected) { note("disconnect"); INPUT_disconnect(); }
			break;
		default:
			synced = g.chance(2, 3);
			note("synchronized %d", synced);
			FILTER_setSynchronized(synced);
		}
		checkFilter("operation");
		checkReceiver("operation", true);
	} while (g.more(4 + g.size() / 8.));
	if (forwarded) nontrivial();
	if (packets) label("filter packets");
	if (forwarded) label("changed while connected");
	if (badWrites) label("failed configuration");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "remote_filter", remote, 150000, 5000000, 100, 10,
			"filter packets with any mask and value, receiver connects with options failing or short-written at any point; non-trivial: filter packets while the receiver is connected" },
	});
}
