// C07: receive loop: parser, filter and buffer together (src/core/recv.c)
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <deque>
#include <pthread.h>
extern "C" {
#include "core/recv.h"
#include "core/input.h"
#include "core/filter.h"
#include "core/buffer.h"
#include "radarcape/rc-input.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
struct Frame { BFrame f; size_t end; };
struct World {
	Gen * g;
	// configuration
	unsigned S, B, N;
	bool history, cfgExt, cfgSync;
	// line
	bool connected = false;
	unsigned connects = 0, losses = 0, disconnects = 0;
	Bytes stream;
	size_t pos = 0, fed = 0;
	std::vector<Frame> frames;
	size_t nextFrame = 0;
	Chunker ch;
	unsigned budget; // connections until the receiver is stopped
	bool cancelled = false, stopInConnect = false;
	// filter model
	bool synced = false, ext, sync;
	// queue model
	std::deque<Bytes> queue;
	unsigned admitted = 0, rejected = 0, dropped = 0, delivered = 0, changes = 0;
	unsigned cap() const { return S + (history ? B * N : 0); }
};
World w;
}

// frames that were complete before this point have been judged
static void settle()
{
	while (w.nextFrame < w.frames.size() && w.frames[w.nextFrame].end <= w.pos) {
		const BFrame & f = w.frames[w.nextFrame++].f;
		if (f.type == '4' && f.mlat) w.synced = true;
		unsigned df = f.payload[0] >> 3;
		bool adm = (f.type == '2' || f.type == '3') && (w.synced || !w.sync) && (!w.ext || df == 17 || df == 18);
		if (!adm) { ++w.rejected; continue; }
		++w.admitted;
		w.queue.push_back(f.raw());
		// one frame is always reserved for receiving
		if (w.queue.size() > w.cap() - 1) { w.queue.pop_front(); ++w.dropped; }
	}
}

static void consume(size_t max)
{
	for (size_t i = 0; i < max; ++i) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		if (w.queue.empty()) {
			REQUIRE(!f, "frame %s was queued, but should not have been", hex(f->raw, f->rawLen).c_str());
			return;
		}
		REQUIRE(f, "frame %s was not queued", hex(w.queue.front()).c_str());
		Bytes r(f->raw, f->raw + f->rawLen);
		REQUIRE(r == w.queue.front(), "frame %s was queued, expected %s", hex(r).c_str(), hex(w.queue.front()).c_str());
		if (w.g->chance(1, 8)) { // not processed
			BUF_putFrame(f);
			continue;
		}
		BUF_releaseFrame(f);
		w.queue.pop_front();
		++w.delivered;
	}
}

static void between()
{
	settle();
	Gen & g = *w.g;
	switch (g.weighted({ 20, 2, 2, 3, 1 })) {
	case 0: break;
	case 1:
		w.ext = g.chance(1, 2);
		note("  at %zu: ext squitter only = %d", w.pos, w.ext);
		FILTER_setModeSExtSquitter(w.ext);
		++w.changes;
		break;
	case 2:
		w.sync = g.chance(1, 2);
		note("  at %zu: sync filter = %d", w.pos, w.sync);
		FILTER_setSynchronizedFilter(w.sync);
		++w.changes;
		break;
	case 3: {
		size_t n = g.small(0, 20);
		note("  at %zu: take up to %zu frames", w.pos, n);
		consume(n);
		break; }
	default:
		note("  at %zu: reset synchronization", w.pos);
		FILTER_reset();
		w.synced = false;
		++w.changes;
	}
}

static void stop(const char * where)
{
	note("  at %zu: stop in %s", w.pos, where);
	w.cancelled = true;
	pthread_cancel(pthread_self());
	pthread_testcancel();
	fail("the receive loop cannot be stopped in %s", where);
}

extern "C" {
void RC_INPUT_register() { }
void RC_INPUT_init() { }
void RC_INPUT_connect()
{
	Gen & g = *w.g;
	REQUIRE(!w.connected, "connecting although the input is still connected");
	REQUIRE(!w.cancelled, "connecting after the receiver was stopped");
	if (!w.budget || g.chance(1, 16)) { w.stopInConnect = true; stop("connect"); }
	--w.budget;
	++w.connects;
	w.connected = true;
	// a new connection starts unsynchronized
	w.synced = false;
	Bytes s;
	do {
		size_t k = g.weighted({ 8, 3, 1 });
		if (k == 0) append(s, genFrame(g).raw());
		else if (k == 1) { // receiver status
			BFrame f = genFrame(g);
			f.type = '4';
			f.payload = genBytes(g, 14);
			if (g.chance(1, 3)) f.mlat = 0;
			append(s, f.raw());
		} else append(s, genNoise(g));
	} while (g.more(1 + g.size() / 6.));
	if (g.chance(1, 2) && s.size()) s.resize(s.size() - g.small(0, s.size() < 50 ? s.size() : 50));
	w.stream = s;
	w.pos = w.nextFrame = 0;
	w.frames.clear();
	BModel m(w.stream);
	BFrame f;
	while (m.next(f)) w.frames.push_back({ f, m.pos });
	w.ch.init(g);
	note("connection %u: %s", w.connects, hex(s).c_str());
}
void RC_INPUT_disconnect()
{
	if (!w.connected) return; // harmless, e.g. stopped while connecting
	w.connected = false;
	++w.disconnects;
}
size_t RC_INPUT_write(uint8_t *, size_t len) { return len; }
size_t RC_INPUT_read(uint8_t * b, size_t len)
{
	Gen & g = *w.g;
	REQUIRE(w.connected, "reading although not connected");
	REQUIRE(!w.cancelled, "reading after the receiver was stopped");
	between();
	if (g.chance(1, 60)) stop("read");
	size_t left = w.stream.size() - w.pos;
	if (!left) {
		note("  connection lost");
		++w.losses;
		return 0;
	}
	size_t n = w.ch.next(g, left < len ? left : len);
	memcpy(b, w.stream.data() + w.pos, n);
	w.pos += n;
	return n;
}
}

static void * thread(void *) { RECV_comp.main(); fail("the receive loop returned"); }

static void session(Gen & g)
{
	logstub::record = false;
	w = World();
	w.g = &g;
	w.S = g.pick<unsigned>({ 200, 2, 3, 5, 10, 40 });
	w.history = g.chance(1, 3);
	w.B = g.range(1, 10);
	w.N = g.range(0, 3);
	w.cfgExt = g.chance(1, 3);
	w.cfgSync = g.chance(1, 3);
	CFG_unregisterAll();
	CFG_registerSection(BUF_comp.config);
	CFG_registerSection(FILTER_comp.config);
	if (INPUT_comp.config) CFG_registerSection(INPUT_comp.config);
	CFG_loadDefaults();
	CFG_setInteger("BUFFER", "StaticBacklog", w.S);
	CFG_setInteger("BUFFER", "DynamicBacklog", w.B);
	CFG_setInteger("BUFFER", "DynamicIncrements", w.N);
	CFG_setBoolean("BUFFER", "History", w.history);
	CFG_setBoolean("FILTER", "ModeSExtSquitterOnly", w.cfgExt);
	CFG_setBoolean("FILTER", "SyncFilter", w.cfgSync);
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	const struct Component * comps[] = { &BUF_comp, &INPUT_comp, &FILTER_comp, &RECV_comp };
	for (auto c : comps) if (c->onConstruct) REQUIRE(c->onConstruct(), "cannot construct %s", c->description);
	for (auto c : comps) if (c->onReset) c->onReset();
	w.ext = w.cfgExt;
	w.sync = w.cfgSync;
	note("config: static %u, history %d, %u x %u, ext squitter %d, sync filter %d", w.S, w.history, w.N, w.B, w.cfgExt, w.cfgSync);

	unsigned runs = 1 + g.small(0, 2);
	for (unsigned r = 0; r < runs; ++r) {
		w.budget = 1 + g.small(0, 4);
		w.cancelled = false;
		w.pos = w.nextFrame = 0;
		w.stream.clear();
		w.frames.clear();
		note("start %u", r);
		pthread_t t;
		REQUIRE(pthread_create(&t, nullptr, thread, nullptr) == 0, "pthread_create");
		pthread_join(t, nullptr);
		REQUIRE(w.cancelled, "the receive loop ended without being stopped");
		settle();
		REQUIRE(!w.connected, "the input is still connected after the receiver was stopped");
		REQUIRE(w.connects == w.disconnects, "%u connects, %u disconnects", w.connects, w.disconnects);
		struct BUFFER_Statistics st;
		BUFFER_getStatistics(&st);
		uint64_t total = w.S + st.dynPools * w.B;
		REQUIRE(st.queueSize == w.queue.size(), "%llu frames are queued, expected %zu", (unsigned long long)st.queueSize, w.queue.size());
		REQUIRE(st.poolSize + st.queueSize == total, "after the stop, %llu frames of %llu are missing (pool %llu, queue %llu)",
			(unsigned long long)(total - st.poolSize - st.queueSize), (unsigned long long)total,
			(unsigned long long)st.poolSize, (unsigned long long)st.queueSize);
		if (g.chance(1, 2)) consume(100000);
	}
	while (!w.queue.empty()) consume(100000);
	consume(1);
	for (auto c : comps) if (c->onDestruct) c->onDestruct();

	if (w.admitted && w.connects > 1) nontrivial();
	if (w.admitted) label("admitted frames");
	if (w.rejected) label("rejected frames");
	if (w.dropped) label("overflow");
	if (w.losses) label("connection lost");
	if (w.changes) label("filter changed while receiving");
	if (runs > 1) label("restarted");
	if (w.stopInConnect) label("stopped while connecting");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "recv_session", session, 100000, 3000000, 20, 20,
			"receiver connections with frames, status frames, noise and cuts, chunked reads, filter changes and consumption between reads, stops while reading or connecting, restarts; "
			"non-trivial: frames admitted and at least one reconnect" },
	});
}
