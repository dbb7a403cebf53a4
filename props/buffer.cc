// C04: the frame buffer against a sequential model (src/core/buffer.c)
#include "pbt.hh"
#include "memtrack.hh"
#include "stub_log.hh"
#include <deque>
#include <vector>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
extern "C" {
#include "core/buffer.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

/* ---------------------------------------------------------- virtual time */
static int64_t vnow = 1500000000ll * 1000000000ll; // ns
static bool virt;
static bool timedOut;
static int64_t waitedUntil;
static pthread_mutex_t gcM = PTHREAD_MUTEX_INITIALIZER;
static int gcSleeps, gcTicks;
static unsigned gcSlept;

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec * ts)
{
	if (!virt) return __real_clock_gettime(c, ts);
	ts->tv_sec = vnow / 1000000000;
	ts->tv_nsec = vnow % 1000000000;
	return 0;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval * tv, void * tz)
{
	if (!virt) return __real_gettimeofday(tv, tz);
	tv->tv_sec = vnow / 1000000000;
	tv->tv_usec = vnow % 1000000000 / 1000;
	return 0;
}
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	if (!virt) return __real_pthread_cond_timedwait(c, m, ts);
	REQUIRE(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "invalid time for waiting: %ld s %ld ns", (long)ts->tv_sec, (long)ts->tv_nsec);
	timedOut = true;
	waitedUntil = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	vnow = waitedUntil > vnow ? waitedUntil : vnow;
	return ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *)
{
	fail("waiting although the queue is not empty");
}
// the garbage collector thread sleeps until it is ticked
unsigned __wrap_sleep(unsigned s)
{
	pthread_mutex_lock(&gcM);
	gcSlept = s;
	int my = ++gcSleeps;
	struct timespec ts;
	while (gcTicks < my) {
		pthread_mutex_unlock(&gcM);
		usleep(200);
		pthread_testcancel();
		pthread_mutex_lock(&gcM);
	}
	(void)ts;
	pthread_mutex_unlock(&gcM);
	return 0;
}
}
static void waitGcSleeping(int n)
{
	pthread_mutex_lock(&gcM);
	while (gcSleeps < n) {
		pthread_mutex_unlock(&gcM);
		usleep(100);
		pthread_mutex_lock(&gcM);
	}
	pthread_mutex_unlock(&gcM);
}
static void * gcThread(void *) { BUF_comp.main(); return nullptr; }

/* ------------------------------------------------------------------ model */
struct Item { uint64_t id; struct OPENSKY_RawFrame content; };

struct Model {
	uint32_t S, B, N, gcInterval, gcLevel;
	bool history, gc;
	std::deque<Item> queue;
	bool hasNew = false, hasCur = false;
	Item cur;
	struct OPENSKY_RawFrame * newPtr = nullptr;
	const struct OPENSKY_RawFrame * curPtr = nullptr;
	uint64_t dyn = 0;
	uint64_t nmax() const { return history ? N : 0; }
	bool gcRan = false, starved = false;
	struct BUFFER_Statistics st;
	uint64_t allocated() const { return S + dyn * (uint64_t)B; }
	uint64_t used() const { return queue.size() + hasCur; }
};
static Model m;
static bool big;
static uint64_t nextId;

static void fillFrame(struct OPENSKY_RawFrame * f, uint64_t id)
{
	memset(f, 0, sizeof *f);
	f->rawLen = id * 7 % (sizeof f->raw + 1);
	for (size_t i = 0; i < sizeof f->raw; ++i) f->raw[i] = (id * 0x9e3779b97f4a7c15ull >> (i % 8 * 8)) + i;
	memcpy(f->raw, &id, sizeof id);
}

static void checkStats(const char * after)
{
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
#define EQ(f, v) REQUIRE(s.f == (v), "after %s: statistics " #f " is %llu, expected %llu", after, (unsigned long long)s.f, (unsigned long long)(v))
	EQ(queueSize, m.queue.size());
	EQ(maxQueueSize, m.st.maxQueueSize);
	EQ(discardedCur, m.st.discardedCur);
	EQ(discardedAll, m.st.discardedAll);
	EQ(discardedMax, m.st.discardedMax);
	EQ(dynPools, m.dyn);
	EQ(dynPoolsAll, m.st.dynPoolsAll);
	EQ(dynPoolsMax, m.st.dynPoolsMax);
	EQ(flushes, m.st.flushes);
	EQ(GCruns, m.st.GCruns);
#undef EQ
	uint64_t freeFrames = m.allocated() - m.used() - m.hasNew;
	REQUIRE(s.poolSize <= freeFrames, "after %s: pool holds %llu frames, but only %llu are free", after,
		(unsigned long long)s.poolSize, (unsigned long long)freeFrames);
	if (!m.gcRan) {
		REQUIRE(s.poolSize == freeFrames, "after %s: pool holds %llu frames, but %llu are free", after,
			(unsigned long long)s.poolSize, (unsigned long long)freeFrames);
		REQUIRE(s.uncollectedPools == 0, "after %s: uncollected pools without garbage collection", after);
	}
}

static void newFrame(Gen & g)
{
	bool discard = false, create = false, malfail = false;
	if (m.used() < m.allocated()) { }
	else if (m.dyn < m.nmax()) {
		malfail = g.chance(1, big ? 2000 : 8);
		if (malfail) { memtrack::failAfter(g.raw(1)); discard = true; }
		else create = true;
	} else discard = true;
	if (discard) {
		// the oldest frame, and only this one, goes
		m.queue.pop_front();
		++m.st.discardedCur;
		++m.st.discardedAll;
		if (m.st.discardedCur > m.st.discardedMax) m.st.discardedMax = m.st.discardedCur;
		label(malfail ? "allocation failure" : "overflow");
		if (!malfail) nontrivial();
	} else
		m.st.discardedCur = 0;
	if (create) {
		++m.dyn;
		++m.st.dynPoolsAll;
		if (m.dyn > m.st.dynPoolsMax) m.st.dynPoolsMax = m.dyn;
		label("pool created");
	}
	m.newPtr = BUF_newFrame();
	memtrack::failAfter(-1);
	REQUIRE(m.newPtr, "no new frame");
	REQUIRE(m.newPtr != m.curPtr, "producer and consumer own the same frame");
	m.hasNew = true;
	memset(m.newPtr, 0xEE, sizeof *m.newPtr); // the producer may write at will
}

static void gcDone(uint64_t before)
{
	struct BUFFER_Statistics s;
	BUFFER_getStatistics(&s);
	++m.st.GCruns;
	m.gcRan = true;
	REQUIRE(s.dynPools <= before, "garbage collection created pools");
	m.dyn = s.dynPools;
	uint64_t inUse = m.used() + m.hasNew;
	REQUIRE(m.allocated() >= inUse, "garbage collection freed frames in use");
	REQUIRE(m.dyn <= inUse, "%llu dynamic pools survived the garbage collection, but only %llu frames are in use",
		(unsigned long long)m.dyn, (unsigned long long)inUse);
	REQUIRE(s.poolSize <= m.S, "garbage collection left frames of dynamic pools in the pool");
	label("garbage collection");
	if (before) { label("garbage collection with pools"); nontrivial(); }
	if (m.dyn < before) label("pools destroyed");
}

static void got(const struct OPENSKY_RawFrame * f)
{
	REQUIRE(f, "no frame although %zu are queued", m.queue.size());
	m.cur = m.queue.front();
	m.queue.pop_front();
	m.hasCur = true;
	m.curPtr = f;
	REQUIRE(f != m.newPtr, "producer and consumer own the same frame");
	uint64_t id;
	memcpy(&id, f->raw, sizeof id);
	REQUIRE(f->rawLen == m.cur.content.rawLen && !memcmp(f->raw, m.cur.content.raw, sizeof f->raw),
		"delivered frame %llu (or a corrupted one), expected frame %llu", (unsigned long long)id, (unsigned long long)m.cur.id);
}

static void configure(Gen & g)
{
	CFG_unregisterAll();
	CFG_registerSection(BUF_comp.config);
	CFG_loadDefaults();
	m.S = g.weighted({ 3, 1 }) ? g.small(0, 60) : g.range(2, 6);
	m.B = g.weighted({ 4, 1, 1 });
	m.B = m.B == 0 ? g.range(1, 4) : m.B == 1 ? g.range(1, 40) : 0;
	m.N = g.range(0, 4);
	if (big) {
		// around the limits of narrow integers, and the defaults
		m.S = g.pick<uint32_t>({ 200, 254, 255, 256, 257, 2, 1000, 65535, 65536, 65540 });
		m.B = g.pick<uint32_t>({ 1, 1000, 255, 256, 300, 40, 65536 });
		m.N = g.pick<uint32_t>({ 0, 3, 255, 256, 260, 1080 });
		while ((uint64_t)m.B * m.N > 300000) m.N /= 2;
	}
	m.history = g.chance(3, 4);
	m.gc = g.chance(1, 2);
	m.gcInterval = g.range(1, 1000);
	m.gcLevel = big ? g.pick<uint32_t>({ 2, 10, 255, 256, 0 }) : g.range(0, 4);
	CFG_setInteger("BUFFER", "StaticBacklog", m.S);
	CFG_setInteger("BUFFER", "DynamicBacklog", m.B);
	CFG_setInteger("BUFFER", "DynamicIncrements", m.N);
	CFG_setBoolean("BUFFER", "History", m.history);
	CFG_setBoolean("BUFFER", "GC", m.gc);
	CFG_setInteger("BUFFER", "GCInterval", m.gcInterval);
	CFG_setInteger("BUFFER", "GCLevel", m.gcLevel);
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	note("config: static %u dynamic %u x %u history %d gc %d level %u", m.S, m.N, m.B, m.history, m.gc, m.gcLevel);
	if (m.S < 2) m.S = 2; // documented minimum
	// a pool or threshold of zero makes no sense: expected to be at least one
	if (m.B < 1) { m.B = 1; label("DynamicBacklog 0"); }
	if (m.gcLevel < 1) { m.gcLevel = 1; label("GCLevel 0"); }
}

// many frames at once
static void bulk(Gen & g, bool prod)
{
	uint64_t cap = m.S + m.nmax() * (uint64_t)m.B;
	uint64_t n = g.chance(1, 2) ? g.raw(cap + cap / 8) : g.raw(m.S + 1);
	if (prod) {
		note("produce %llu frames", (unsigned long long)n);
		while (n--) {
			if (!m.hasNew) newFrame(g);
			Item it;
			it.id = nextId++;
			fillFrame(&it.content, it.id);
			*m.newPtr = it.content;
			BUF_commitFrame(m.newPtr);
			m.queue.push_back(it);
			m.hasNew = false;
			m.newPtr = nullptr;
			if (m.queue.size() > m.st.maxQueueSize) m.st.maxQueueSize = m.queue.size();
		}
		checkStats("producing many frames");
	} else {
		if (n > m.queue.size()) n = m.queue.size();
		note("consume %llu frames", (unsigned long long)n);
		if (m.hasCur) { BUF_releaseFrame(m.curPtr); m.hasCur = false; m.curPtr = nullptr; }
		while (n-- && !m.queue.empty()) {
			got(BUF_getFrame());
			BUF_releaseFrame(m.curPtr);
			m.hasCur = false;
			m.curPtr = nullptr;
		}
		checkStats("consuming many frames");
	}
	if (cap > 256) label("large buffer");
	if (m.queue.size() > 65535) label("more than 65535 frames queued");
	if (m.dyn > 255) label("more than 255 pools");
}
static void sequential(Gen & g)
{
	virt = true;
	vnow = 1500000000ll * 1000000000ll + g.raw(999999999);
	nextId = 1;
	unsigned lives = 1 + g.weighted({ 4, 2, 1 });
	memtrack::start();
	for (unsigned life = 0; life < lives; ++life) {
		m = Model();
		configure(g);
		size_t base = memtrack::live();
		if (g.chance(1, 30)) { // allocation failure at start
			memtrack::failAfter(0);
			REQUIRE(!BUF_comp.onConstruct(), "construction succeeded without memory");
			REQUIRE(memtrack::live() == base, "failed construction leaks memory");
			label("construct without memory");
		}
		REQUIRE(BUF_comp.onConstruct(), "construction failed");
		if (BUF_comp.onReset) BUF_comp.onReset();
		memset(&m.st, 0, sizeof m.st);
		bool gcActive = m.gc && m.history && *BUF_comp.start;
		REQUIRE(*BUF_comp.start == (m.gc && m.history), "garbage collector is %s", *BUF_comp.start ? "enabled" : "disabled");
		pthread_t gt;
		bool thread = gcActive && BUF_comp.main && g.chance(1, 3);
		if (thread) {
			gcSleeps = gcTicks = 0;
			pthread_create(&gt, nullptr, gcThread, nullptr);
			waitGcSleeping(1);
			label("garbage collector thread");
		}
		unsigned steps = 0, maxSteps = big ? 60 : 5 + 6 * g.size();
		// bias: phases of producing and consuming
		unsigned phase = 0;
		while (steps++ < maxSteps && g.more(150)) {
			if (g.chance(1, 20)) phase = g.raw(2);
			bool prod = phase == 0 ? g.chance(1, 2) : phase == 1 ? g.chance(9, 10) : g.chance(1, 10);
			if (big && g.chance(1, 6)) bulk(g, prod);
			else if (g.chance(1, 12)) {
				switch (g.weighted({ 3, 3, 4, 2, 3 })) {
				case 0:
					note("flush");
					BUF_flush();
					if (m.queue.size()) label("flush of a filled queue");
					m.queue.clear();
					++m.st.flushes;
					checkStats("flush");
					break;
				case 1:
					note("flush unless history");
					BUF_flushUnlessHistoryEnabled();
					if (!m.history) { m.queue.clear(); ++m.st.flushes; }
					checkStats("flushUnlessHistoryEnabled");
					break;
				case 2: {
					note("gc");
					uint64_t before = m.dyn;
					BUF_runGC();
					gcDone(before);
					checkStats("garbage collection");
					break; }
				case 3:
					note("reset statistics");
					if (BUF_comp.onReset) BUF_comp.onReset();
					memset(&m.st, 0, sizeof m.st);
					checkStats("reset");
					break;
				case 4:
					if (thread) {
						uint64_t before = m.dyn;
						bool run = m.queue.size() < m.dyn * m.B / m.gcLevel;
						note("gc tick");
						REQUIRE(gcSlept == m.gcInterval, "garbage collector sleeps %u s instead of %u s", gcSlept, m.gcInterval);
						pthread_mutex_lock(&gcM);
						int want = gcSleeps + 1;
						gcTicks = gcSleeps;
						pthread_mutex_unlock(&gcM);
						waitGcSleeping(want);
						if (run) gcDone(before);
						checkStats("garbage collector tick");
					}
				}
			} else if (prod) {
				if (!m.hasNew) {
					note("new frame");
					newFrame(g);
					checkStats("new frame");
				} else if (g.chance(1, 6)) {
					note("abort frame");
					BUF_abortFrame(m.newPtr);
					m.hasNew = false;
					m.newPtr = nullptr;
					checkStats("abort frame");
					label("abort");
				} else {
					Item it;
					it.id = nextId++;
					fillFrame(&it.content, it.id);
					*m.newPtr = it.content;
					note("commit frame %llu", (unsigned long long)it.id);
					BUF_commitFrame(m.newPtr);
					m.queue.push_back(it);
					m.hasNew = false;
					m.newPtr = nullptr;
					if (m.queue.size() > m.st.maxQueueSize) m.st.maxQueueSize = m.queue.size();
					checkStats("commit frame");
				}
			} else {
				if (!m.hasCur) {
					uint64_t t = g.weighted({ 3, 1, 1 });
					t = t == 0 ? g.small(0, 5000) : t == 1 ? g.pick<uint64_t>({ 0, 1, 999, 1000, 1001, 1500, 60000 }) : g.raw(UINT32_MAX);
					timedOut = false;
					if (g.chance(1, 8)) { // the time to wait for ends with a second
						int64_t end = (vnow + (int64_t)t * 1000000 + 999999999) / 1000000000 * 1000000000;
						vnow = end - (int64_t)t * 1000000;
					}
					int64_t start = vnow;
					const struct OPENSKY_RawFrame * f;
					bool blocking = m.queue.size() && g.chance(1, 2);
					note("get frame (%s %llu)", blocking ? "blocking" : "timeout", (unsigned long long)t);
					f = blocking ? BUF_getFrame() : BUF_getFrameTimeout(t);
					if (m.queue.empty()) {
						REQUIRE(!f, "got a frame although none is queued");
						REQUIRE(timedOut, "gave up without waiting");
						REQUIRE(std::abs(waitedUntil - start - (int64_t)t * 1000000) < 1000, "waits until %lld ns instead of %lld ns (timeout %llu ms)",
							(long long)(waitedUntil - start), (long long)t * 1000000, (unsigned long long)t);
						label("timeout");
					} else
						got(f);
					checkStats("get frame");
				} else if (g.chance(1, 3)) {
					note("put back");
					BUF_putFrame(m.curPtr);
					m.queue.push_front(m.cur);
					m.hasCur = false;
					m.curPtr = nullptr;
					checkStats("put back");
					label("put back");
				} else {
					note("release");
					REQUIRE(m.curPtr->rawLen == m.cur.content.rawLen && !memcmp(m.curPtr->raw, m.cur.content.raw, sizeof m.curPtr->raw),
						"frame changed while the consumer owned it");
					BUF_releaseFrame(m.curPtr);
					m.hasCur = false;
					m.curPtr = nullptr;
					checkStats("release");
				}
			}
		}
		// stop: producer and consumer return what they hold
		if (m.hasNew) { BUF_abortFrame(m.newPtr); m.hasNew = false; m.newPtr = nullptr; }
		if (m.hasCur) { BUF_putFrame(m.curPtr); m.queue.push_front(m.cur); m.hasCur = false; m.curPtr = nullptr; }
		checkStats("stop");
		if (thread) {
			pthread_cancel(gt);
			pthread_join(gt, nullptr);
		}
		if (g.chance(1, 2)) { // everything still queued comes out
			while (!m.queue.empty()) {
				got(BUF_getFrame());
				BUF_releaseFrame(m.curPtr);
				m.hasCur = false;
				m.curPtr = nullptr;
			}
			REQUIRE(!BUF_getFrameTimeout(0), "additional frame after the last one");
			label("drained");
		}
		BUF_comp.onDestruct();
		REQUIRE(memtrack::live() == base, "%zu heap blocks are left after destruction", memtrack::live() - base);
	}
	if (lives > 1) label("restarted");
}

static void large(Gen & g)
{
	big = true;
	sequential(g);
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c04_sequential", sequential, 60000, 2000000, 1, 30,
			"buffer configuration (incl. minimal and zero sizes) and up to 600 producer/consumer/flush/gc/statistics operations, 1-3 life cycles, "
			"allocation failures; every result and all statistics compared with a FIFO model after each step. "
			"Non-trivial: overflow, or garbage collection with dynamic pools" },
		{ "c04_large", large, 500, 12000, 1, 120,
			"the same with buffers of up to 300000 frames and 1080 pools (limits of narrow integers, the defaults) and bulk operations" },
	});
}
