// C08: the uplink (src/core/relay.c with src/core/buffer.c)
#include <sys/time.h>
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <deque>
#include <cerrno>
#include <pthread.h>
#include <time.h>
extern "C" {
#include "core/relay.h"
#include "core/buffer.h"
#include "core/network.h"
#include "core/login.h"
#include "util/cfgfile.h"
#include "util/component.h"
}
using namespace pbt;

namespace {
enum State { WAIT, CONNECTED, LOGGED };
struct World {
	Gen * g;
	unsigned S, B, N, timeout;
	bool history;
	State state = WAIT;
	bool cancelled = false;
	std::deque<Bytes> queue;
	bool hasCur = false;
	Bytes cur;
	int64_t now = 1500000000ll * 1000000000ll, idleSince = 0;
	bool expired = false;
	unsigned budget = 0;
	unsigned sentFrames = 0, failedSends = 0, keepalives = 0, logins = 0, overflow = 0, flushed = 0, stops = 0, resent = 0;
	unsigned cap() const { return S + (history ? B * N : 0); }
	uint32_t serial = 0;
};
World w;
bool active;
}

static void produce(unsigned n)
{
	Gen & g = *w.g;
	for (unsigned i = 0; i < n; ++i) {
		Bytes c = genBytes(g, g.range(1, 40));
		++w.serial;
		Bytes f { 0x1a, '3', (uint8_t)(w.serial >> 16), (uint8_t)(w.serial >> 8), (uint8_t)w.serial };
		append(f, c);
		while (w.queue.size() + w.hasCur + 1 > w.cap()) { w.queue.pop_front(); ++w.overflow; }
		struct OPENSKY_RawFrame * fr = BUF_newFrame();
		memset(fr, 0x55, sizeof *fr);
		memcpy(fr->raw, f.data(), f.size());
		fr->rawLen = f.size();
		BUF_commitFrame(fr);
		w.queue.push_back(f);
		note("    + frame %u", w.serial);
	}
}
static void maybeProduce()
{
	Gen & g = *w.g;
	if (g.chance(1, 2)) produce(g.chance(1, 10) ? g.small(0, 2 * w.cap()) : g.small(0, 4));
}
static void stop(const char * where)
{
	note("  stop in %s", where);
	w.cancelled = true;
	++w.stops;
	pthread_cancel(pthread_self());
	pthread_testcancel();
	fail("the relay cannot be stopped in %s", where);
}
static void step(const char * where)
{
	REQUIRE(!w.cancelled, "%s after the relay was stopped", where);
	if (!w.budget || w.g->chance(1, 60)) stop(where);
	--w.budget;
	w.now += w.g->small(0, 3000000000ll);
}

extern "C" {
void NET_waitConnected()
{
	REQUIRE(w.state == WAIT, "waiting for a connection although it was not reported as broken");
	maybeProduce();
	step("wait for connection");
	maybeProduce();
	note("  connected");
	w.state = CONNECTED;
}
bool LOGIN_login()
{
	REQUIRE(w.state == CONNECTED, "login without a new connection");
	maybeProduce();
	step("login");
	maybeProduce();
	bool ok = !w.g->chance(1, 5);
	note("  login -> %d", ok);
	w.state = ok ? LOGGED : WAIT;
	if (ok) {
		++w.logins;
		if (!w.history) { w.flushed += w.queue.size(); w.queue.clear(); }
		w.idleSince = w.now;
	}
	return ok;
}
bool NET_send(const void * buf, size_t len)
{
	Gen & g = *w.g;
	Bytes m((const uint8_t *)buf, (const uint8_t *)buf + len);
	REQUIRE(w.state == LOGGED, "sending %s without login on this connection", hex(m).c_str());
	bool keep = m == Bytes { 0x1a, '6' };
	if (keep) {
		REQUIRE(w.expired, "keep-alive was sent before the timeout of %u ms", w.timeout);
		++w.keepalives;
	} else {
		REQUIRE(!w.queue.empty(), "%s was sent, but no frame is queued", hex(m).c_str());
		REQUIRE(m == w.queue.front(), "%s was sent, expected %s", hex(m).c_str(), hex(w.queue.front()).c_str());
		w.cur = m;
		w.hasCur = true;
		w.queue.pop_front();
	}
	w.expired = false;
	maybeProduce();
	bool ok = !g.chance(1, 8);
	if (!w.budget || g.chance(1, 40)) {
		// stopped while sending: not sent
		if (w.hasCur) { w.queue.push_front(w.cur); w.hasCur = false; }
		w.state = WAIT;
		stop("send");
	}
	REQUIRE(!w.cancelled, "sending after the relay was stopped");
	--w.budget;
	w.now += g.small(0, 3000000000ll);
	note("  send %s -> %d", keep ? "keep-alive" : hex(m).substr(4, 6).c_str(), ok);
	if (keep) { if (!ok) w.state = WAIT; }
	else if (ok) { ++w.sentFrames; w.hasCur = false; }
	else {
		++w.failedSends;
		w.queue.push_front(w.cur);
		w.hasCur = false;
		w.state = WAIT;
	}
	w.idleSince = w.now;
	return ok;
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec * ts)
{
	if (!active) return __real_clock_gettime(c, ts);
	ts->tv_sec = w.now / 1000000000;
	ts->tv_nsec = w.now % 1000000000;
	return 0;
}
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval * tv, void * tz)
{
	if (!active) return __real_gettimeofday(tv, tz);
	tv->tv_sec = w.now / 1000000000;
	tv->tv_usec = w.now % 1000000000 / 1000;
	return 0;
}
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * mx, const struct timespec * ts)
{
	if (!active) return __real_pthread_cond_timedwait(c, mx, ts);
	Gen & g = *w.g;
	REQUIRE(w.state == LOGGED, "waiting for frames without login");
	REQUIRE(w.queue.empty(), "waiting for frames although %zu are queued", w.queue.size());
	int64_t until = ts->tv_sec * 1000000000ll + ts->tv_nsec;
	REQUIRE(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "invalid time");
	REQUIRE(std::abs(until - (int64_t)(w.idleSince + w.timeout * 1000000ll)) < 1000, "waiting until %lld ms after the last message, expected %u ms",
		(long long)(until - w.idleSince) / 1000000, w.timeout);
	if (!w.budget || g.chance(1, 60)) {
		w.state = WAIT;
		stop("wait for frames");
	}
	--w.budget;
	switch (g.weighted({ 4, 3, 1 })) {
	case 0:
		pthread_mutex_unlock(mx);
		w.now += (until - w.now) * (int64_t)g.range(0, 99) / 100;
		produce(1 + g.small(0, 3));
		pthread_mutex_lock(mx);
		return 0;
	case 1:
		w.now = until > w.now ? until : w.now;
		w.expired = true;
		note("  timeout");
		return ETIMEDOUT;
	default: // spurious wakeup
		w.now += (until - w.now) * (int64_t)g.range(0, 99) / 100;
		note("  spurious wakeup");
		return 0;
	}
}
}

static void * thread(void *) { RELAY_comp.main(); fail("the relay returned"); }

static void session(Gen & g)
{
	w = World();
	w.g = &g;
	w.S = g.pick<unsigned>({ 50, 2, 3, 5, 10 });
	w.B = g.range(1, 10);
	w.N = g.range(0, 3);
	w.history = g.chance(1, 2);
	w.timeout = g.pick<unsigned>({ 1500, 1, 999, 1000, 2500, 60000 });
	w.now += g.weighted({ 2, 1, 1 }) == 0 ? 0 : g.chance(1, 2) ? g.raw(999999999) : 60000000000ll - w.timeout * 1000000ll;
	CFG_unregisterAll();
	CFG_registerSection(BUF_comp.config);
	CFG_registerSection(RELAY_comp.config);
	CFG_loadDefaults();
	CFG_setInteger("BUFFER", "StaticBacklog", w.S);
	CFG_setInteger("BUFFER", "DynamicBacklog", w.B);
	CFG_setInteger("BUFFER", "DynamicIncrements", w.N);
	CFG_setBoolean("BUFFER", "History", w.history);
	if (w.timeout != 1500) CFG_setInteger("NETWORK", "Timeout", w.timeout);
	if (BUF_comp.config->fix) BUF_comp.config->fix(BUF_comp.config);
	if (RELAY_comp.config->fix) RELAY_comp.config->fix(RELAY_comp.config);
	REQUIRE(BUF_comp.onConstruct(), "construct");
	if (RELAY_comp.onConstruct) REQUIRE(RELAY_comp.onConstruct(), "construct");
	note("static %u, history %d %u x %u, timeout %u", w.S, w.history, w.N, w.B, w.timeout);
	unsigned runs = 1 + g.small(0, 3);
	active = true;
	for (unsigned r = 0; r < runs; ++r) {
		w.cancelled = false;
		w.budget = 4 + g.small(0, 60);
		note("start");
		pthread_t t;
		REQUIRE(!pthread_create(&t, nullptr, thread, nullptr), "pthread_create");
		pthread_join(t, nullptr);
		REQUIRE(w.cancelled, "the relay ended");
		w.state = WAIT;
		struct BUFFER_Statistics st;
		BUFFER_getStatistics(&st);
		REQUIRE(st.queueSize == w.queue.size(), "after the stop, %llu frames are queued, expected %zu", (unsigned long long)st.queueSize, w.queue.size());
		REQUIRE(st.queueSize + st.poolSize == w.S + st.dynPools * w.B, "after the stop, a frame is missing");
		if (g.chance(1, 3)) produce(g.small(0, 4));
	}
	active = false;
	while (!w.queue.empty()) {
		const struct OPENSKY_RawFrame * f = BUF_getFrameTimeout(0);
		REQUIRE(f, "frame %s is missing", hex(w.queue.front()).c_str());
		REQUIRE(Bytes(f->raw, f->raw + f->rawLen) == w.queue.front(), "frame %s queued, expected %s", hex(f->raw, f->rawLen).c_str(), hex(w.queue.front()).c_str());
		BUF_releaseFrame(f);
		w.queue.pop_front();
	}
	BUF_comp.onDestruct();
	if (w.sentFrames && w.logins > 1) nontrivial();
	if (w.sentFrames) label("frames sent");
	if (w.failedSends) label("failed sends");
	if (w.keepalives) label("keep-alives");
	if (w.flushed) label("flushed by login");
	if (w.overflow) label("overflow");
	if (runs > 1) label("restarted");
	if (w.history) label("history");
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "relay_session", session, 100000, 3000000, 20, 20,
			"frames committed at every point of the uplink (waiting, login, sending, idle), failing logins and sends, timeouts and spurious wakeups in virtual time, stops and restarts at every cancellation point; "
			"non-trivial: frames sent and at least two logins" },
	});
}
