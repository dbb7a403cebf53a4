// C06: filter decisions and counters (src/core/filter.c)
#include "pbt.hh"
#include "stub_log.hh"
#include <cstring>
extern "C" {
#include "core/filter.h"
#include "core/input.h"
#include "util/cfgfile.h"
#include "util/component.h"
static unsigned reconfigures;
void INPUT_reconfigure() { ++reconfigures; }
}
using namespace pbt;

static void history(Gen & g)
{
	bool cfgExt = g.chance(1, 2), cfgSync = g.chance(1, 2), crc = g.chance(1, 2);
	auto load = [&]() {
		CFG_unregisterAll();
		CFG_registerSection(FILTER_comp.config);
		CFG_loadDefaults();
		CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", cfgExt);
		CFG_setBoolean("FILTER", "SyncFilter", cfgSync);
		CFG_setBoolean("FILTER", "CRC", crc);
		if (FILTER_comp.config->fix) FILTER_comp.config->fix(FILTER_comp.config);
		if (FILTER_comp.config->check) REQUIRE(FILTER_comp.config->check(FILTER_comp.config), "check failed");
		REQUIRE(!FILTER_comp.onConstruct || FILTER_comp.onConstruct(), "construction failed");
		note("construct: ext squitter only %d, sync filter %d, crc %d", cfgExt, cfgSync, crc);
	};
	load();
	if (FILTER_comp.onReset) FILTER_comp.onReset();
	struct FILTER_Statistics st;
	memset(&st, 0, sizeof st);
	bool synced = false, ext = cfgExt, sync = cfgSync;
	unsigned passed = 0, blocked = 0, changes = 0;
	do {
		size_t op = g.weighted({ 20, 2, 2, 2, 1, 1, 1 });
		switch (op) {
		case 0: {
			unsigned n = 1 + g.small(0, 40);
			bool sweep = g.chance(1, 20); // complete coverage of the decision table
			if (sweep) { n = 4 * 256; label("full sweep"); }
			for (unsigned i = 0; i < n; ++i) {
				unsigned type = sweep ? '1' + i / 256 : g.pick<unsigned>({ '3', '2', '1', '4' });
				uint8_t b = sweep ? i : g.byte();
				unsigned df = b >> 3;
				bool want = (type == '2' || type == '3') && (synced || !sync) && (!ext || df == 17 || df == 18);
				// accounting
				++st.framesByType[type - '1'];
				if (!synced) ++st.unsynchronized;
				if (!synced && sync) ++st.filtered;
				else if (type != '2' && type != '3') ++st.filtered;
				else {
					++st.modeSByType[df];
					if (!want) { ++st.filtered; ++st.modeSfiltered; }
				}
				bool got = FILTER_filter((enum OPENSKY_FRAME_TYPE)type, b);
				REQUIRE(got == want, "frame type %c first byte 0x%02x (DF %u) %s; synchronized %d, sync filter %d, ext squitter only %d",
					type, b, df, got ? "passed" : "did not pass", synced, sync, ext);
				++(want ? passed : blocked);
				if (!sweep) note("frame %c %02x -> %d", type, b, got);
			}
			break; }
		case 1:
			ext = g.chance(1, 2);
			note("set ext squitter only %d", ext);
			FILTER_setModeSExtSquitter(ext);
			++changes;
			break;
		case 2:
			sync = g.chance(1, 2);
			note("set sync filter %d", sync);
			FILTER_setSynchronizedFilter(sync);
			++changes;
			break;
		case 3:
			synced = g.chance(1, 2);
			note("set synchronized %d", synced);
			FILTER_setSynchronized(synced);
			++changes;
			break;
		case 4:
			synced = false;
			note("reset");
			FILTER_reset();
			++changes;
			break;
		case 5:
			note("reset statistics");
			if (FILTER_comp.onReset) FILTER_comp.onReset();
			memset(&st, 0, sizeof st);
			break;
		default:
			cfgExt = g.chance(1, 2); cfgSync = g.chance(1, 2); crc = g.chance(1, 2);
			load();
			synced = false; ext = cfgExt; sync = cfgSync;
			label("reconstructed");
		}
		REQUIRE(FILTER_getConfiguration()->extSquitter == ext && FILTER_getConfiguration()->sync == sync &&
			FILTER_getConfiguration()->crc == crc, "visible configuration: ext %d sync %d crc %d; expected %d %d %d",
			FILTER_getConfiguration()->extSquitter, FILTER_getConfiguration()->sync, FILTER_getConfiguration()->crc, ext, sync, crc);
		struct FILTER_Statistics s;
		FILTER_getStatistics(&s);
		for (int i = 0; i < 4; ++i)
			REQUIRE(s.framesByType[i] == st.framesByType[i], "%llu frames of type %c counted, expected %llu",
				(unsigned long long)s.framesByType[i], '1' + i, (unsigned long long)st.framesByType[i]);
		for (int i = 0; i < 32; ++i)
			REQUIRE(s.modeSByType[i] == st.modeSByType[i], "%llu frames of DF %d counted, expected %llu",
				(unsigned long long)s.modeSByType[i], i, (unsigned long long)st.modeSByType[i]);
		REQUIRE(s.filtered == st.filtered, "%llu filtered, expected %llu", (unsigned long long)s.filtered, (unsigned long long)st.filtered);
		REQUIRE(s.modeSfiltered == st.modeSfiltered, "%llu Mode-S filtered, expected %llu", (unsigned long long)s.modeSfiltered, (unsigned long long)st.modeSfiltered);
		REQUIRE(s.unsynchronized == st.unsynchronized, "%llu unsynchronized, expected %llu", (unsigned long long)s.unsynchronized, (unsigned long long)st.unsynchronized);
	} while (g.more(3 + g.size() / 3.));
	if (passed && blocked && changes) nontrivial();
	if (passed) label("frames passed");
	if (blocked) label("frames blocked");
	if (changes > 3) label("more than 3 changes");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c06_filter", history, 300000, 8000000, 40, 20,
			"sequences of frames (all types, all first bytes; sometimes the complete table), configuration and synchronization changes, resets and "
			"reconstructions; every decision and counter compared with the decision rule. Non-trivial: frames passed and blocked and at least one change" },
	});
}
