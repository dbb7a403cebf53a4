// C05: the frame buffer under concurrency (src/core/buffer.c) on the deterministic scheduler: every access to shared
// memory is a scheduling point, time is virtual
#include "pbt.hh"
#include "sched.hh"
#include "stub_log.hh"
#include <cstring>
#include <map>
#include <vector>
extern "C" {
#include "core/buffer.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
struct World {
	Gen * g;
	uint32_t S, B, N;
	bool history, gc, mayFlush;
	uint64_t capacity;
	uint64_t committed = 0, released = 0, flushes = 0;
	uint64_t lastSeq = 0, again = 0;
	std::map<uint64_t, int64_t> commitTime;
	bool holding = false;           // the consumer has a frame
	bool prodDone = false, consDone = false;
	uint64_t discarded = 0;
	unsigned cancels = 0, timeouts = 0, waits = 0;
} * W;
}
static const int64_t MS = 1000000;
// there was no reason to lose a frame until now (two frames may be in use by producer and consumer)
static bool lossless() { return !W->mayFlush && W->committed + 2 <= W->capacity; }

static void fill(struct OPENSKY_RawFrame * f, uint64_t seq)
{
	f->rawLen = 16 + seq % 30;
	for (size_t i = 0; i < f->rawLen; ++i) f->raw[i] = (uint8_t)(seq >> (8 * (i % 8))) ^ (uint8_t)i;
}
static uint64_t seqOf(const struct OPENSKY_RawFrame * f)
{
	REQUIRE(f->rawLen >= 16 && f->rawLen <= 46, "delivered frame is corrupted (length %zu)", f->rawLen);
	uint64_t seq = 0;
	for (int i = 7; i >= 0; --i) seq = seq << 8 | (uint8_t)(f->raw[i] ^ i);
	REQUIRE(f->rawLen == 16 + seq % 30, "delivered frame is corrupted (length %zu)", f->rawLen);
	for (size_t i = 0; i < f->rawLen; ++i)
		REQUIRE(f->raw[i] == (uint8_t)((uint8_t)(seq >> (8 * (i % 8))) ^ (uint8_t)i), "delivered frame is corrupted at byte %zu", i);
	return seq;
}
static void rest(Gen & g)
{
	switch (g.weighted({ 6, 2, 1 })) {
	case 1: sched::yield(); break;
	case 2: sched::sleepFor("idle", g.range(1, 400) * MS, false); break;
	}
}
static uint64_t discardedNow()
{
	struct BUFFER_Statistics st;
	BUFFER_getStatistics(&st);
	return st.discardedAll;
}
static void producer(size_t n, bool account)
{
	World & w = *W;
	Gen & g = *w.g;
	while (n--) {
		uint64_t d0 = account ? discardedNow() : 0;
		uint64_t outstanding = w.committed - w.released - d0;
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		REQUIRE(f, "no new frame");
		if (account) {
			uint64_t d = discardedNow();
			REQUIRE(d - d0 <= 1, "%llu frames were discarded for one new frame", (unsigned long long)(d - d0));
			if (d != d0) REQUIRE(outstanding >= w.capacity, "a frame was discarded with %llu frames in the buffer, it has room for %llu",
				(unsigned long long)outstanding, (unsigned long long)w.capacity);
		}
		memset(f->raw, 0xEE, sizeof f->raw);
		f->rawLen = 0;
		rest(g);
		if (g.chance(1, 10)) { note("producer: abort"); BUF_abortFrame(f); }
		else {
			uint64_t s = w.committed + 1;
			fill(f, s);
			note("producer: commit %llu", (unsigned long long)s);
			w.commitTime[s] = sched::now();
			w.committed = s;
			BUF_commitFrame(f);
		}
	}
	w.prodDone = true;
}
static void consumer()
{
	World & w = *W;
	Gen & g = *w.g;
	while (true) {
		const struct OPENSKY_RawFrame * f;
		int64_t t0 = sched::now();
		bool done = w.prodDone, expectFrame = w.again && !w.mayFlush;
		if (g.chance(1, 2)) {
			note("consumer: get");
			++w.waits;
			f = BUF_getFrame();
			REQUIRE(f, "no frame");
		} else {
			uint32_t ms = g.pick<uint32_t>({ 0, 1, 5, 100, 999, 1000, 1001, 60000 });
			uint64_t inBuffer = w.committed - w.lastSeq; // unless discarded
			note("consumer: get within %u ms", ms);
			f = BUF_getFrameTimeout(ms);
			int64_t d = sched::now() - t0;
			if (!f) {
				++w.timeouts;
				note("consumer: nothing");
				REQUIRE(d >= ms * MS, "timeout of %u ms after %lld ns", ms, (long long)d);
				REQUIRE(!expectFrame || !lossless(), "frame %llu was put back, but there is no frame", (unsigned long long)w.again);
				if (lossless()) REQUIRE(!inBuffer || w.commitTime[w.lastSeq + 1] >= t0 + ms * MS, "nothing within %u ms, although %llu frames were committed before", ms, (unsigned long long)inBuffer);
				if (done && lossless()) REQUIRE(w.lastSeq == w.committed && !w.again, "frames %llu to %llu are lost", (unsigned long long)w.lastSeq + 1, (unsigned long long)w.committed);
				if (done) break;
				continue;
			}
		}
		uint64_t s = seqOf(f);
		note("consumer: got %llu", (unsigned long long)s);
		w.holding = true;
		int64_t now = sched::now();
		if (!w.again) REQUIRE(now == t0 || now == w.commitTime[s] || w.mayFlush || w.commitTime[s] < t0, "frame %llu was committed %lld ns before the waiting consumer got it", (unsigned long long)s, (long long)(now - w.commitTime[s]));
		if (w.again) {
			REQUIRE(s >= w.again, "frame %llu delivered after frame %llu", (unsigned long long)s, (unsigned long long)w.again);
		} else REQUIRE(s > w.lastSeq, "frame %llu delivered after frame %llu", (unsigned long long)s, (unsigned long long)w.lastSeq);
		uint64_t want = w.again ? w.again : w.lastSeq + 1;
		if (s != want && !w.mayFlush) {
			w.discarded += s - want;
			REQUIRE(!lossless(), "frames %llu to %llu are lost", (unsigned long long)want, (unsigned long long)s - 1);
		}
		rest(g);
		REQUIRE(seqOf(f) == s, "frame %llu changed while the consumer owned it", (unsigned long long)s);
		w.lastSeq = s;
		w.holding = false;
		if (g.chance(1, 6)) { note("consumer: put back"); w.again = s; BUF_putFrame(f); }
		else { w.again = 0; BUF_releaseFrame(f); ++w.released; }
	}
	w.consDone = true;
}
static void maintainer(size_t n)
{
	World & w = *W;
	Gen & g = *w.g;
	struct BUFFER_Statistics st;
	while (n-- && !w.consDone) {
		switch (g.weighted({ 2, 3, 1, 1 })) {
		case 0:
			BUFFER_getStatistics(&st);
			REQUIRE(st.queueSize + st.poolSize <= w.capacity, "%llu frames in the buffer, which has room for %llu", (unsigned long long)(st.queueSize + st.poolSize), (unsigned long long)w.capacity);
			REQUIRE(st.dynPools <= (w.history ? w.N : 0), "%llu dynamic pools", (unsigned long long)st.dynPools);
			break;
		case 1: note("gc"); BUF_runGC(); break;
		case 2: if (w.mayFlush) { note("flush"); BUF_flush(); } break;
		case 3: if (w.mayFlush || w.history) BUF_flushUnlessHistoryEnabled(); break;
		}
		rest(g);
	}
}
static void race(Gen & g)
{
	CFG_unregisterAll();
	CFG_registerSection(BUF_comp.config);
	CFG_loadDefaults();
	World * w = new World;
	W = w;
	w->g = &g;
	w->S = g.small(2, 12); w->B = g.range(1, 5); w->N = g.range(0, 4);
	w->history = g.chance(2, 3);
	w->gc = w->history && g.chance(1, 2);
	w->mayFlush = g.chance(1, 4);
	w->capacity = w->S + (w->history ? w->B * w->N : 0);
	uint32_t level = g.range(1, 4), interval = g.range(1, 3);
	CFG_setInteger("BUFFER", "StaticBacklog", w->S);
	CFG_setInteger("BUFFER", "DynamicBacklog", w->B);
	CFG_setInteger("BUFFER", "DynamicIncrements", w->N);
	CFG_setInteger("BUFFER", "GCLevel", level);
	CFG_setInteger("BUFFER", "GCInterval", interval);
	CFG_setBoolean("BUFFER", "History", w->history);
	CFG_setBoolean("BUFFER", "GC", w->gc);
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	REQUIRE(BUF_comp.onConstruct(), "construction failed");
	size_t n = g.range(1, 5 + g.size() / 2), nm = g.range(0, 15);
	bool account = !w->mayFlush && g.chance(1, 2);
	note("static %u dynamic %u x %u history %d gc %d (level %u, every %u s), %zu frames, flush %d", w->S, w->N, w->B, w->history, w->gc, level, interval, n, w->mayFlush);
	sched::reset(g, g.pick<unsigned>({ 1, 2, 4, 12 }));
	struct BUFFER_Statistics st;
	int gc = -1;
	if (w->gc) gc = sched::spawn("gc", [] { BUF_comp.main(); });
	sched::spawn("producer", [n, account] { producer(n, account); });
	sched::spawn("maintenance", [nm] { maintainer(nm); });
	int cons = sched::spawn("consumer", [] { consumer(); });
	sched::onIdle = [] { return false; };
	// the consumer may be cancelled while it waits and started again
	unsigned cancels = g.chance(1, 3) ? g.range(1, 3) : 0;
	sched::spawn("control", [&] {
		while (!w->consDone) {
			if (cancels) {
				--cancels;
				sched::sleepFor("idle", g.range(0, 500) * MS, false);
				if (w->consDone) break;
				sched::cancel(cons);
				sched::block("joining", [&] { return sched::ended(cons); }, false);
				if (w->consDone) break;
				REQUIRE(!w->holding, "the consumer was cancelled with a frame");
				note("consumer cancelled");
				++w->cancels;
				cons = sched::spawn("consumer", [] { consumer(); });
			} else {
				// a consumer waiting for ever for frames which do not come
				sched::block("joining", [&] { return w->prodDone; }, false);
				sched::sleepFor("idle", 3000000 * MS, false);
				if (sched::ended(cons)) continue;
				REQUIRE(!lossless() || !w->again, "the consumer is waiting although frame %llu was put back", (unsigned long long)w->again);
				REQUIRE(!lossless() || w->lastSeq == w->committed, "the consumer is waiting although frames %llu to %llu were committed", (unsigned long long)w->lastSeq + 1, (unsigned long long)w->committed);
				break;
			}
		}
		sched::cancel(cons);
		if (gc >= 0) sched::cancel(gc);
	});
	sched::run();
	BUFFER_getStatistics(&st);
	if (!w->mayFlush) {
		REQUIRE(st.queueSize == 0, "%llu frames are left in the queue", (unsigned long long)st.queueSize);
		REQUIRE(w->released + st.discardedAll == w->committed, "%llu of %llu frames were delivered, %llu discarded",
			(unsigned long long)w->released, (unsigned long long)w->committed, (unsigned long long)st.discardedAll);
		if (st.discardedAll) label("overflow"); else label("lossless");
	} else label("flush");
	// all frames are either in the pool or in a pool about to be destroyed: all can be used again
	BUF_flush();
	uint64_t d0 = discardedNow();
	for (uint64_t i = 0; i < w->capacity; ++i) { struct OPENSKY_RawFrame * f = BUF_newFrame(); fill(f, i + 1); BUF_commitFrame(f); }
	REQUIRE(discardedNow() == d0, "%llu frames do not fit into the buffer any more, which has room for %llu", (unsigned long long)(discardedNow() - d0), (unsigned long long)w->capacity);
	for (uint64_t i = 0; i < w->capacity; ++i) { const struct OPENSKY_RawFrame * f = BUF_getFrame(); REQUIRE(seqOf(f) == i + 1, "wrong frame in the end"); BUF_releaseFrame(f); }
	if (w->cancels) label("consumer cancelled");
	if (w->timeouts) label("timeouts");
	if (st.GCruns) label("garbage collection");
	if (st.dynPoolsAll) label("dynamic pools");
	if (st.uncollectedPools) label("pools uncollected");
	if (w->released > 3) nontrivial();
	BUF_comp.onDestruct();
	delete w;
}
int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c05_schedules", race, 20000, 1000000, 1, 30,
			"producer, consumer (waiting, polling, cancelled, putting frames back), maintenance (flush, gc, statistics) and the garbage collector on one buffer, in "
			"random schedules down to single memory accesses and virtual time; non-trivial: more than 3 frames delivered" },
	});
}
