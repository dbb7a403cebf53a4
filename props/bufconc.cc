// C05: the frame buffer under concurrency (src/core/buffer.c), built with the thread sanitizer
#include "pbt.hh"
#include "stub_log.hh"
#include <atomic>
#include <cstring>
#include <vector>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
extern "C" {
#include "core/buffer.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

/* perturbation of the schedule: choices are made in advance by the generator */
static std::vector<uint8_t> jitter;
static std::atomic<unsigned> jpos;
static void perturb()
{
	if (jitter.empty()) return;
	uint8_t j = jitter[jpos.fetch_add(1, std::memory_order_relaxed) % jitter.size()];
	if (j < 6) return;
	if (j < 10) { sched_yield(); return; }
	usleep(j * 3);
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { perturb(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { int r = __real_pthread_mutex_unlock(m); perturb(); return r; }
}

struct Op { uint8_t kind; uint8_t pause; };
static std::vector<Op> prodOps, consOps, maintOps;
static std::atomic<bool> prodDone, consDone;
static bool mayFlush, mayOverflow;
static uint64_t committed;             // written by the producer, read after join
static uint64_t lastSeq, delivered, lostFromSeq;
static bool blockingConsumer;

static void fill(struct OPENSKY_RawFrame * f, uint64_t seq)
{
	f->rawLen = 16 + seq % 30;
	for (size_t i = 0; i < f->rawLen; ++i) f->raw[i] = (uint8_t)(seq >> (8 * (i % 8))) ^ (uint8_t)i;
}
static uint64_t seqOf(const struct OPENSKY_RawFrame * f)
{
	REQUIRE(f->rawLen >= 16 && f->rawLen <= 46, "delivered frame is corrupted (length %zu)", f->rawLen);
	uint64_t seq = 0;
	for (int i = 7; i >= 0; --i) seq = seq << 8 | (uint8_t)(f->raw[i] ^ i);
	REQUIRE(f->rawLen == 16 + seq % 30, "delivered frame is corrupted (length %zu)", f->rawLen);
	for (size_t i = 0; i < f->rawLen; ++i)
		REQUIRE(f->raw[i] == (uint8_t)((uint8_t)(seq >> (8 * (i % 8))) ^ (uint8_t)i), "delivered frame is corrupted at byte %zu", i);
	return seq;
}

static void * producer(void *)
{
	uint64_t seq = 0;
	for (auto & o : prodOps) {
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		REQUIRE(f, "no new frame");
		memset(f->raw, 0xEE, sizeof f->raw);
		if (o.pause) usleep(o.pause);
		if (o.kind == 0) BUF_abortFrame(f);
		else { fill(f, ++seq); BUF_commitFrame(f); }
	}
	committed = seq;
	if (blockingConsumer) { // final frame: ends the blocking consumer
		struct OPENSKY_RawFrame * f = BUF_newFrame();
		fill(f, ~0ull);
		BUF_commitFrame(f);
	}
	prodDone = true;
	return nullptr;
}

static void * consumer(void *)
{
	size_t k = 0;
	uint64_t expectAgain = 0;
	while (true) {
		Op o = consOps[k++ % consOps.size()];
		bool wasDone = prodDone;
		const struct OPENSKY_RawFrame * f;
		if (blockingConsumer) f = BUF_getFrame();
		else {
			f = BUF_getFrameTimeout(o.pause % 3);
			if (!f) { if (wasDone) break; continue; }
		}
		REQUIRE(f, "no frame");
		uint64_t s = seqOf(f);
		if (s == ~0ull) { BUF_releaseFrame(f); break; }
		if (expectAgain && !mayFlush)
			REQUIRE(s == expectAgain || (mayOverflow && s > expectAgain),
				"frame %llu delivered after frame %llu was put back", (unsigned long long)s, (unsigned long long)expectAgain);
		if (expectAgain) REQUIRE(s >= expectAgain, "frame %llu delivered after frame %llu", (unsigned long long)s, (unsigned long long)expectAgain);
		else REQUIRE(s > lastSeq, "frame %llu delivered after frame %llu", (unsigned long long)s, (unsigned long long)lastSeq);
		if (!mayFlush && !mayOverflow && !expectAgain)
			REQUIRE(s == lastSeq + 1, "frame %llu delivered after frame %llu: frames were lost", (unsigned long long)s, (unsigned long long)lastSeq);
		if (o.pause) usleep(o.pause);
		REQUIRE(seqOf(f) == s, "frame %llu changed while the consumer owned it", (unsigned long long)s);
		if (o.kind == 0) { BUF_putFrame(f); expectAgain = s; }
		else { BUF_releaseFrame(f); expectAgain = 0; ++delivered; }
		lastSeq = s;
	}
	consDone = true;
	return nullptr;
}

static void * maintainer(void *)
{
	struct BUFFER_Statistics st;
	for (size_t i = 0; i < maintOps.size() && !consDone; ++i) {
		switch (maintOps[i].kind) {
		case 0: BUFFER_getStatistics(&st); break;
		case 1: BUF_runGC(); break;
		case 2: if (mayFlush) BUF_flush(); break;
		case 3: if (mayFlush) BUF_flushUnlessHistoryEnabled(); break;
		}
		usleep(maintOps[i].pause);
	}
	return nullptr;
}

static void concurrent(Gen & g)
{
	CFG_unregisterAll();
	CFG_registerSection(BUF_comp.config);
	CFG_loadDefaults();
	uint32_t S = g.small(2, 40), B = g.range(1, 10), N = g.range(0, 6);
	bool history = g.chance(2, 3);
	mayFlush = g.chance(1, 3);
	blockingConsumer = !mayFlush && g.chance(1, 2);
	size_t n = 20 + g.range(0, 4 * g.size());
	bool lossless = g.chance(1, 2);
	if (lossless) { S = n + 4; if (history && N && g.chance(1, 2)) { S = 2; B = n / N + 2; } }
	uint64_t capacity = S + (history ? (uint64_t)B * N : 0);
	mayOverflow = capacity < n + 3;
	CFG_setInteger("BUFFER", "StaticBacklog", S);
	CFG_setInteger("BUFFER", "DynamicBacklog", B);
	CFG_setInteger("BUFFER", "DynamicIncrements", N);
	CFG_setBoolean("BUFFER", "History", history);
	CFG_setBoolean("BUFFER", "GC", history);
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	REQUIRE(BUF_comp.onConstruct(), "construction failed");
	prodOps.clear(); consOps.clear(); maintOps.clear();
	unsigned prodPause = g.raw(2), consPause = g.raw(2);
	for (size_t i = 0; i < n; ++i)
		prodOps.push_back({ (uint8_t)(g.chance(9, 10) ? 1 : 0), (uint8_t)(prodPause && g.chance(1, 3) ? g.raw(prodPause * 20) : 0) });
	for (size_t i = 0; i < 40; ++i)
		consOps.push_back({ (uint8_t)(g.chance(4, 5) ? 1 : 0), (uint8_t)(consPause && g.chance(1, 3) ? g.raw(consPause * 20) : 0) });
	consOps.push_back({ 1, 0 }); // progress is possible
	size_t nm = g.range(0, 60);
	for (size_t i = 0; i < nm; ++i) maintOps.push_back({ (uint8_t)g.raw(3), (uint8_t)g.raw(100) });
	size_t nj = g.range(0, 64);
	jitter.clear();
	for (size_t i = 0; i < nj; ++i) jitter.push_back(g.raw(15));
	jpos = 0;
	committed = lastSeq = delivered = 0;
	prodDone = consDone = false;
	note("static %u dynamic %u x %u history %d, %zu frames, flush %d, may overflow %d, blocking %d, %zu maintenance operations, jitter %zu",
		S, N, B, history, n, mayFlush, mayOverflow, blockingConsumer, nm, nj);
	bool consumerFirst = g.chance(1, 2);
	pthread_t tp, tc, tm;
	if (consumerFirst) pthread_create(&tc, nullptr, consumer, nullptr);
	pthread_create(&tm, nullptr, maintainer, nullptr);
	pthread_create(&tp, nullptr, producer, nullptr);
	if (!consumerFirst) pthread_create(&tc, nullptr, consumer, nullptr);
	pthread_join(tp, nullptr);
	pthread_join(tc, nullptr);
	pthread_join(tm, nullptr);
	struct BUFFER_Statistics st;
	BUFFER_getStatistics(&st);
	REQUIRE(st.queueSize == 0, "%llu frames are left in the queue", (unsigned long long)st.queueSize);
	if (!mayFlush && !mayOverflow) {
		REQUIRE(st.discardedAll == 0, "%llu frames were discarded without need", (unsigned long long)st.discardedAll);
		REQUIRE(delivered == committed, "%llu of %llu frames were delivered", (unsigned long long)delivered, (unsigned long long)committed);
		label("lossless");
	} else if (!mayFlush) {
		// the last frame may be a sacrificed end mark only if it was delivered
		REQUIRE(delivered + st.discardedAll == committed, "%llu of %llu frames were delivered, but %llu discarded",
			(unsigned long long)delivered, (unsigned long long)committed, (unsigned long long)st.discardedAll);
		if (st.discardedAll) label("overflow");
	} else label("flush");
	if (blockingConsumer) label("blocking consumer");
	if (st.GCruns) label("garbage collection");
	if (st.dynPoolsAll) label("dynamic pools");
	if (delivered > 5) nontrivial();
	BUF_comp.onDestruct();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c05_concurrent", concurrent, 6000, 200000, 1, 40,
			"generated workloads for a producer, a consumer (blocking or polling, putting frames back) and a maintenance thread (flush, gc, statistics) on one "
			"buffer, with generated scheduling perturbations around every lock operation; thread sanitizer plus sequence-number oracle. "
			"Non-trivial: more than 5 frames delivered" },
	});
}
