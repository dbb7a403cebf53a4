#include "sched.hh"
#include <cerrno>
#include <cstring>
#include <map>
#include <memory>
#include <vector>
#include <semaphore.h>
#include <pthread.h>
#include <time.h>
#include <algorithm>
#include <sys/time.h>
#include <unistd.h>

#ifdef SCHED_THREADS // the code under test creates threads, which are managed, too
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_cancel(pthread_t);
}
#define PT(n) __real_pthread_##n
#else
#define PT(n) pthread_##n
#endif

namespace sched {
struct Thr {
	std::string name;
	std::function<void()> fn;
	pthread_t th;
	sem_t sem;
	bool done = false, cancelReq = false, started = false;
	const char * what = nullptr;
	std::function<bool()> ready;
	bool cancelPoint = false;
	int64_t wake = -1;
};
static pbt::Gen * G;
// never destroyed: left over threads use them while the process ends
static auto & thr = *new std::vector<std::unique_ptr<Thr>>;
static auto & owner = *new std::map<void *, int>;          // mutex -> thread
struct Waiter { void * cond; bool signaled; };
static auto & waiters = *new std::map<int, Waiter>;
static unsigned preempt = 4;
static int64_t vnow;
static uint64_t nsteps;
static sem_t mainSem;
static auto & stopCond = *new std::function<bool()>;
static bool running;
static thread_local int me = -1;
std::function<bool()> onIdle;
int64_t (*overslept)();
std::function<void()> onStep;
bool spurious;

int self() { return me; }
void detach() { me = -1; }
bool active() { return me >= 0; }
int64_t now() { return vnow; }
void advance(int64_t ns) { vnow += ns; }
uint64_t steps() { return nsteps; }
bool ended(int t) { return thr[t]->done; }
bool cancelled(int t) { return thr[t]->cancelReq; }
void cancel(int t) { thr[t]->cancelReq = true; }

std::string where()
{
	std::string r;
	for (auto & t : thr) if (!t->done) { r += " " + t->name + ": " + (t->what ? t->what : "running") + ";"; }
	return r;
}

static bool runnable(Thr & t)
{
	if (t.done) return false;
	if (!t.ready) return true;
	if (t.cancelPoint && t.cancelReq) return true;
	if (t.wake >= 0 && t.wake <= vnow) return true;
	return t.ready();
}

bool quiet(int except)
{
	for (size_t i = 0; i < thr.size(); ++i) if ((int)i != except && runnable(*thr[i])) return false;
	return true;
}
std::string name() { return me < 0 ? "" : thr[me]->name; }

static bool deciding;  // the harness is called by the scheduler
static int decide(int cur);
// choose the next thread; -1: back to main
static int choose(int cur)
{
	// what the harness calls from there is not subject to scheduling: there is
	// no way back to a thread which ends
	int m = me;
	me = -1;
	deciding = true;
	int n = decide(cur);
	deciding = false;
	me = m;
	return n;
}
static int decide(int cur)
{
	while (true) {
		if (stopCond && stopCond()) return -1;
		if (onStep) onStep();
		++nsteps;
		std::vector<int> r;
		for (size_t i = 0; i < thr.size(); ++i) if (runnable(*thr[i])) r.push_back(i);
		if (!r.empty()) {
			bool curOk = false;
			for (int i : r) curOk |= i == cur;
			if (curOk && (r.size() == 1 || !G->chance(1, preempt))) return cur;
			return r[G->raw(r.size() - 1)];
		}
		bool all = true;
		for (auto & t : thr) all &= t->done;
		if (all) return -1;
		// time passes
		int64_t next = -1;
		for (auto & t : thr) if (!t->done && t->wake >= 0 && (next < 0 || t->wake < next)) next = t->wake;
		if (onIdle && onIdle()) continue;
		if (next >= 0) { vnow = next; continue; }
		pbt::fail("deadlock:%s", where().c_str());
	}
}
#ifdef SCHED_MEM
// Accesses of the code under test to memory which is not on the stack are
// scheduling points, too: after "left" of them another thread goes on.
static unsigned memScale;
static uint64_t left;
static void nextAccess() { left = 1 + G->raw(2 * memScale); }
#endif
static void handover(int next)
{
	if (next < 0) sem_post(&mainSem);
	else sem_post(&thr[next]->sem);
}
static void sw()
{
	int c = me;
	int n = choose(c);
	if (n == c) return;
	Thr * t = thr[c].get(); // from now on the others change the list
	int st;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st);
	handover(n);
	while (sem_wait(&t->sem)) { }
	pthread_setcancelstate(st, nullptr);
}

#ifdef SCHED_MEM
static inline __attribute__((always_inline)) void access(void * p)
{
	if (me < 0 || !memScale || deciding) return;
	if ((uintptr_t)p - ((uintptr_t)__builtin_frame_address(0) - 65536) < 8u << 20) return;
	if (--left) return;
	nextAccess();
	std::vector<int> r;
	int c = me;
	deciding = true;
	for (size_t i = 0; i < thr.size(); ++i) if ((int)i != c && runnable(*thr[i])) r.push_back(i);
	deciding = false;
	if (r.empty()) return;
	int n = r[G->raw(r.size() - 1)];
	Thr * t = thr[c].get();
	t->what = "running (preempted)";
	int st;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st);
	handover(n);
	while (sem_wait(&t->sem)) { }
	pthread_setcancelstate(st, nullptr);
	t->what = nullptr;
}
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t *) { }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) { }
#define A(n) void __sanitizer_cov_load##n(void * p) { access(p); } \
	void __sanitizer_cov_store##n(void * p) { access(p); }
A(1) A(2) A(4) A(8) A(16)
#undef A
}
#endif

void reset(pbt::Gen & g, unsigned p)
{
	G = &g;
	preempt = p ? p : 1;
	deciding = false;
	overslept = nullptr;
#ifdef SCHED_MEM
	memScale = g.pick<unsigned>({ 0, 0, 3, 15, 100 });
	if (memScale) nextAccess();
#endif
	thr.clear();
	owner.clear();
	waiters.clear();
	vnow = 1500000000ll * 1000000000ll;
	nsteps = 0;
	onIdle = nullptr;
	onStep = nullptr;
	spurious = false;
	running = false;
	sem_init(&mainSem, 0, 0);
}

static void finish(void * a)
{
	Thr & t = *(Thr *)a;
	t.done = true;
	int c = me;
	for (auto & o : owner) if (o.second == c) pbt::fail("thread %s ended holding a mutex", t.name.c_str());
	int n = choose(c);
	me = -1;
	handover(n);
}
static void * entry(void * a)
{
	Thr & t = *(Thr *)a;
	int st;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st);
	while (sem_wait(&t.sem)) { }
	pthread_setcancelstate(st, nullptr);
	for (size_t i = 0; i < thr.size(); ++i) if (thr[i].get() == &t) me = i;
	pthread_cleanup_push(finish, &t);
	t.fn();
	pthread_cleanup_pop(1);
	return nullptr;
}
int spawn(const std::string & name, std::function<void()> fn)
{
	thr.emplace_back(new Thr);
	Thr & t = *thr.back();
	t.name = name;
	t.fn = fn;
	sem_init(&t.sem, 0, 0);
	if (PT(create)(&t.th, nullptr, entry, &t)) pbt::fail("pthread_create failed");
	return thr.size() - 1;
}
void run(std::function<bool()> cond)
{
	stopCond = cond;
	int n = choose(-1);
	if (n >= 0) {
		handover(n);
		while (sem_wait(&mainSem)) { }
	}
	for (auto & t : thr)
		if (t->done && !t->started) { t->started = true; PT(join)(t->th, nullptr); }
	stopCond = nullptr;
}

static void doCancel()
{
	Thr & t = *thr[me];
	int st;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st);
	pthread_setcancelstate(st, nullptr);
	if (st != PTHREAD_CANCEL_ENABLE) return;
	PT(cancel)(pthread_self());
	pthread_testcancel();
	(void)t;
}
static bool cancelEnabled()
{
	int st;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st);
	pthread_setcancelstate(st, nullptr);
	return st == PTHREAD_CANCEL_ENABLE;
}
static thread_local bool dying;

void yield()
{
	if (me < 0) return;
	sw();
}
// true: woken because of a cancellation request
static bool wait(const char * what, std::function<bool()> ready, bool cp, int64_t wake)
{
	Thr & t = *thr[me];
	t.what = what;
	t.ready = ready;
	t.cancelPoint = cp && !dying && cancelEnabled();
	t.wake = wake;
	sw();
	bool c = t.cancelPoint && t.cancelReq;
	t.ready = nullptr;
	t.what = nullptr;
	t.wake = -1;
	t.cancelPoint = false;
	return c;
}
void block(const char * what, std::function<bool()> ready, bool cp)
{
	while (true) {
		if (wait(what, ready, cp, -1)) { dying = true; doCancel(); }
		if (ready()) return;
	}
}
bool blockUntil(const char * what, std::function<bool()> ready, int64_t until, bool cp)
{
	while (true) {
		if (wait(what, ready, cp, until)) { dying = true; doCancel(); }
		if (ready()) return true;
		if (vnow >= until) return false;
	}
}
void point(const char * what)
{
	if (wait(what, [] { return true; }, true, -1)) { dying = true; doCancel(); }
}
void sleepFor(const char * what, int64_t ns, bool cp)
{
	int64_t until = vnow + ns;
	if (wait(what, [until] { return vnow >= until; }, cp, until)) { dying = true; doCancel(); }
}
static void lock(void * m)
{
	int c = me;
	if (owner.count(m) && owner[m] == c) pbt::fail("thread %s locks a mutex it holds already", thr[c]->name.c_str());
	while (true) {
		wait("locking a mutex", [m] { return !owner.count(m); }, false, -1);
		if (!owner.count(m)) break;
	}
	owner[m] = c;
}
static void unlock(void * m)
{
	auto o = owner.find(m);
	if (o == owner.end() || o->second != me) pbt::fail("thread %s unlocks a mutex it does not hold", thr[me]->name.c_str());
	owner.erase(o);
}
static int condWait(void * c, void * m, int64_t until)
{
	int t = me;
	if (!owner.count(m) || owner[m] != t) pbt::fail("waiting on a condition without the mutex");
	unlock(m);
	waiters[t] = { c, false };
	bool sp = spurious && G->chance(1, 8);
	bool cc = wait("waiting on a condition", [t, sp] { return sp || waiters[t].signaled; }, true, until);
	bool sig = waiters[t].signaled;
	waiters.erase(t);
	lock(m);
	if (cc) { dying = true; doCancel(); }
	if (!sig && until >= 0 && vnow >= until) return ETIMEDOUT;
	return 0;
}
} // namespace sched
using namespace sched;

extern "C" {
#define R(name) __real_##name
int R(pthread_mutex_lock)(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
	if (me < 0) return R(pthread_mutex_lock)(m);
	lock(m);
	return 0;
}
int R(pthread_mutex_trylock)(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
	if (me < 0) return R(pthread_mutex_trylock)(m);
	yield();
	if (owner.count(m)) return EBUSY;
	owner[m] = me;
	return 0;
}
int R(pthread_mutex_unlock)(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
	if (me < 0) return R(pthread_mutex_unlock)(m);
	unlock(m);
	yield();
	return 0;
}
int R(pthread_cond_wait)(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
	if (me < 0) return R(pthread_cond_wait)(c, m);
	return condWait(c, m, -1);
}
int R(pthread_cond_timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{
	if (me < 0) return R(pthread_cond_timedwait)(c, m, ts);
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	return condWait(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int R(pthread_cond_broadcast)(pthread_cond_t *);
int __wrap_pthread_cond_broadcast(pthread_cond_t * c)
{
	if (me < 0) return R(pthread_cond_broadcast)(c);
	for (auto & w : waiters) if (w.second.cond == c) w.second.signaled = true;
	return 0;
}
int R(pthread_cond_signal)(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t * c)
{
	if (me < 0) return R(pthread_cond_signal)(c);
	std::vector<int> ws;
	for (auto & w : waiters) if (w.second.cond == c && !w.second.signaled) ws.push_back(w.first);
	if (!ws.empty()) waiters[ws[G->raw(ws.size() - 1)]].signaled = true;
	return 0;
}
static void sleepNs(int64_t ns)
{
	sleepFor("sleeping", ns, true);
	if (sched::overslept) if (int64_t more = sched::overslept()) sleepFor("sleeping longer", more, true);
}
void R(pthread_testcancel)();
void __wrap_pthread_testcancel()
{
	if (me < 0 || dying) { R(pthread_testcancel)(); return; }
	if (thr[me]->cancelReq && cancelEnabled()) { dying = true; doCancel(); }
}
unsigned R(sleep)(unsigned);
unsigned __wrap_sleep(unsigned s)
{
	if (me < 0) return R(sleep)(s);
	sleepNs(s * 1000000000ll);
	return 0;
}
// weak: some harnesses have their own
int R(usleep)(useconds_t);
__attribute__((weak)) int __wrap_usleep(useconds_t us)
{
	if (me < 0) return R(usleep)(us);
	sleepNs(us * 1000ll);
	return 0;
}
int R(nanosleep)(const struct timespec *, struct timespec *);
__attribute__((weak)) int __wrap_nanosleep(const struct timespec * t, struct timespec * rem)
{
	if (me < 0) return R(nanosleep)(t, rem);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) { errno = EINVAL; return -1; }
	sleepNs(t->tv_sec * 1000000000ll + t->tv_nsec);
	return 0;
}
int R(clock_nanosleep)(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec * t, struct timespec * rem)
{
	if (me < 0) return R(clock_nanosleep)(c, flags, t, rem);
	if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) return EINVAL;
	int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec;
	sleepNs(flags & TIMER_ABSTIME ? std::max<int64_t>(0, ns - vnow) : ns);
	return 0;
}
int R(gettimeofday)(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval * tv, void * tz)
{
	if (me < 0) return R(gettimeofday)(tv, tz);
	tv->tv_sec = vnow / 1000000000;
	tv->tv_usec = vnow % 1000000000 / 1000;
	return 0;
}
int R(clock_gettime)(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec * ts)
{
	if (me < 0) return R(clock_gettime)(c, ts);
	ts->tv_sec = vnow / 1000000000;
	ts->tv_nsec = vnow % 1000000000;
	return 0;
}
time_t R(time)(time_t *);
time_t __wrap_time(time_t * t)
{
	if (me < 0) return R(time)(t);
	time_t v = vnow / 1000000000;
	if (t) *t = v;
	return v;
}
}

#ifdef SCHED_THREADS
extern "C" {
int __wrap_pthread_create(pthread_t * t, const pthread_attr_t * a, void * (* fn)(void *), void * arg)
{
	if (me < 0) return PT(create)(t, a, fn, arg);
	int id = spawn("thread " + std::to_string(thr.size()), [fn, arg] { fn(arg); });
	*t = (pthread_t)(id + 1);
	yield();
	return 0;
}
static size_t idOf(pthread_t t, const char * what)
{
	if (pthread_equal(t, pthread_self())) return me;
	if (thr.size() < (size_t)t || !t) pbt::fail("%s unknown thread", what);
	return (size_t)t - 1;
}
int __real_pthread_setname_np(pthread_t, const char *);
int __wrap_pthread_setname_np(pthread_t t, const char * n)
{
	if (me < 0) return __real_pthread_setname_np(t, n);
	thr[idOf(t, "naming an")]->name = n;
	return 0;
}
int __wrap_pthread_cancel(pthread_t t)
{
	if (me < 0) return PT(cancel)(t);
	cancel(idOf(t, "cancelling an"));
	yield();
	return 0;
}
int __wrap_pthread_join(pthread_t t, void ** r)
{
	if (me < 0) return PT(join)(t, r);
	size_t id = idOf(t, "joining an");
	block("joining", [id] { return thr[id]->done; }, true);
	return 0;
}
int __real_pthread_timedjoin_np(pthread_t, void **, const struct timespec *);
int __wrap_pthread_timedjoin_np(pthread_t t, void ** r, const struct timespec * ts)
{
	if (me < 0) return __real_pthread_timedjoin_np(t, r, ts);
	size_t id = idOf(t, "joining an");
	return blockUntil("joining", [id] { return thr[id]->done; }, ts->tv_sec * 1000000000ll + ts->tv_nsec, true) ? 0 : ETIMEDOUT;
}
}
#endif
