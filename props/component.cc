// C19: life cycle of components (src/util/component.c)
// Threads are stand-ins: creation, cancellation and joining are recorded.
#include "pbt.hh"
#include "stub_log.hh"
#include <pthread.h>
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <set>
#include <string>
extern "C" {
#include "util/component.h"
#include "util/cfgfile.h"
}
using namespace pbt;

static const int N = 12;
enum Kind { SELF, THREAD, PASSIVE, STARTONLY };
struct Comp {
	Component * c = nullptr;
	std::string name;
	Kind kind = PASSIVE;
	std::vector<int> deps;
	std::set<int> allDeps;
	bool enabled = true, start = true, hasEnabled = false, hasStart = false;
	bool closure = false;        // registered, directly or as a dependency
	bool construct = false, destruct = false;
	// plan of the current operation
	bool failConstruct = false, failStart = false;
	int stopFails = 0;           // -1: for ever
	int stopAfter = -1;          // can be stopped only after this component
	// state
	int registered = 0;
	bool constructed = false, started = false;
	bool alive = false, cancelled = false;
	int tried = 0;
};
enum Ev { CONSTRUCT, DESTRUCT, START, STOP, RESET };
static const char * const EV[] = { "construct", "destruct", "start", "stop", "reset" };
struct Event { Ev ev; int i; bool ok, deferred; };
static Comp C[N];
static std::vector<Event> trace;

static bool canStop(int i)
{
	Comp & c = C[i];
	if (c.stopAfter >= 0 && C[c.stopAfter].started) return false;
	if (c.stopFails < 0) return false;
	return c.tried >= c.stopFails;
}
static void ev(Ev e, int i, bool ok, bool deferred = false)
{
	trace.push_back({ e, i, ok, deferred });
	note("  %s %s%s -> %s", EV[e], C[i].name.size() < 30 ? C[i].name.c_str() : ("component " + std::to_string(i) + " (long name)").c_str(), deferred ? " (deferred)" : "", ok ? "ok" : "failed");
}
static int ranMain; // component whose main loop was called last
template <int I> struct F {
	static void onRegister() { ++C[I].registered; }
	static bool onConstruct()
	{
		bool ok = !C[I].failConstruct;
		ev(CONSTRUCT, I, ok);
		REQUIRE(!C[I].constructed, "component %d is constructed twice", I);
		C[I].constructed = ok;
		return ok;
	}
	static void onDestruct()
	{
		ev(DESTRUCT, I, true);
		REQUIRE(C[I].constructed || !C[I].construct, "component %d is destructed without having been constructed", I);
		C[I].constructed = false;
	}
	static void main() { ranMain = I; }
	static bool onStart()
	{
		bool ok = !C[I].failStart;
		ev(START, I, ok);
		REQUIRE(!C[I].started, "component %d is started twice", I);
		C[I].started = ok;
		C[I].tried = 0;
		return ok;
	}
	static bool onStop(bool deferred)
	{
		bool ok = canStop(I);
		++C[I].tried;
		ev(STOP, I, ok, deferred);
		REQUIRE(C[I].started, "component %d is stopped, but not running", I);
		if (ok) C[I].started = false;
		return ok;
	}
	static void onReset() { ev(RESET, I, true); }
};
template <int I> static void bind(Comp & c, bool extra)
{
	c.c->onRegister = &F<I>::onRegister;
	if (c.construct) c.c->onConstruct = &F<I>::onConstruct;
	if (c.destruct) c.c->onDestruct = &F<I>::onDestruct;
	if (c.kind == THREAD) c.c->main = &F<I>::main;
	if (c.kind == SELF || c.kind == STARTONLY) c.c->onStart = &F<I>::onStart;
	if (c.kind == SELF) c.c->onStop = &F<I>::onStop;
	if (c.kind == SELF && extra) c.c->main = &F<I>::main; // manages its thread itself
	c.c->onReset = &F<I>::onReset;
}
static void bindAny(int i, Comp & c, bool extra)
{
	switch (i) {
#define B(x) case x: bind<x>(c, extra); break;
	B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10) B(11)
	}
}
// ---------------------------------------------------------------- threads
static bool managed;
static const pthread_t THR = 0x7000;
static int ofThread(pthread_t t)
{
	REQUIRE(t >= THR && t < THR + N, "operation on an unknown thread");
	return t - THR;
}
static bool join(pthread_t t, bool wait)
{
	int i = ofThread(t);
	Comp & c = C[i];
	REQUIRE(c.alive, "joining the thread of component %d again: it was joined already", i);
	bool ok = canStop(i);
	if (!ok && wait) { REQUIRE(c.stopFails >= 0 && c.stopAfter < 0, "waiting without limit for the thread of component %d, which cannot end", i); ok = true; }
	if (ok) REQUIRE(c.cancelled, "joining the thread of component %d, which was not cancelled", i);
	return ok;
}
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
int __wrap_pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
	if (!managed) return __real_pthread_create(t, a, fn, arg);
	ranMain = -1;
	for (int i = 0; i < N; ++i) if (C[i].c && (void *)C[i].c->main == (void *)fn) ranMain = i;
	if (ranMain < 0) fn(arg); // something which calls the main loop
	for (int i = 0; i < N; ++i)
		if (C[i].c && C[i].closure && ranMain == i) {
			REQUIRE(C[i].c->main, "component %d has no main loop", i);
			bool ok = !C[i].failStart;
			ev(START, i, ok);
			REQUIRE(!C[i].started, "component %d is started twice", i);
			if (!ok) return EAGAIN;
			C[i].started = C[i].alive = true;
			C[i].cancelled = false;
			C[i].tried = 0;
			*t = THR + i;
			return 0;
		}
	fail("a thread was created which is not the main loop of a component");
}
int __real_pthread_cancel(pthread_t);
int __wrap_pthread_cancel(pthread_t t)
{
	if (!managed) return __real_pthread_cancel(t);
	int i = ofThread(t);
	REQUIRE(C[i].alive, "cancelling the thread of component %d after it was joined", i);
	C[i].cancelled = true;
	return 0;
}
static std::vector<char> firstTry; // per component: the next join is the first of this stop
static bool inDeferred[N];
int __real_pthread_join(pthread_t, void **);
static int joinEv(pthread_t t, bool wait)
{
	bool ok = join(t, wait);
	int i = ofThread(t);
	++C[i].tried;
	ev(STOP, i, ok, inDeferred[i]);
	inDeferred[i] = true;
	if (ok) C[i].started = C[i].alive = false;
	return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_join(pthread_t t, void ** r) { return managed ? joinEv(t, true) : __real_pthread_join(t, r); }
int __real_pthread_timedjoin_np(pthread_t, void **, const struct timespec *);
int __wrap_pthread_timedjoin_np(pthread_t t, void ** r, const struct timespec * ts)
{
	if (!managed) return __real_pthread_timedjoin_np(t, r, ts);
	struct timespec now;
	clock_gettime(CLOCK_REALTIME, &now);
	double d = ts->tv_sec - now.tv_sec + (ts->tv_nsec - now.tv_nsec) / 1e9;
	REQUIRE(d < 5, "waiting for a thread for %.1f s", d);
	return joinEv(t, false);
}
int __wrap_pthread_setname_np(pthread_t t, const char *) { if (managed && !pthread_equal(t, pthread_self())) ofThread(t); return 0; }
}

static bool depends(int a, int b) { return C[a].allDeps.count(b); } // a needs b

// events of one kind in order; every component after (or before) all it depends on
static std::vector<int> order(Ev e, bool okOnly = true)
{
	std::vector<int> r;
	for (auto & t : trace) if (t.ev == e && (t.ok || !okOnly)) r.push_back(t.i);
	return r;
}
static void checkOrder(const std::vector<int> & r, bool depsFirst, const char * what)
{
	for (size_t x = 0; x < r.size(); ++x)
		for (size_t y = x + 1; y < r.size(); ++y)
			REQUIRE(!(depsFirst ? depends(r[x], r[y]) : depends(r[y], r[x])), "component %d is %s before component %d, although %d depends on %d", r[x], what, r[y],
				depsFirst ? r[x] : r[y], depsFirst ? r[y] : r[x]);
}
static void onlyEvents(std::initializer_list<Ev> l, const char * when)
{
	for (auto & t : trace) {
		bool ok = false;
		for (Ev e : l) ok |= t.ev == e;
		REQUIRE(ok, "component %d: %s during %s", t.i, EV[t.ev], when);
	}
}
static std::string list(const std::vector<int> & v)
{
	std::string s;
	for (int i : v) s += " " + std::to_string(i);
	return s;
}
// expected stop events for running components, in the order they were started
static std::vector<Event> expectStop(std::vector<int> running)
{
	std::vector<Event> out;
	std::map<int, int> tried;
	std::set<int> up(running.begin(), running.end());
	for (int i : running) tried[i] = C[i].tried;
	std::set<int> upAll;
	for (int i = 0; i < N; ++i) if (C[i].started) upAll.insert(i);
	auto attempt = [&](int i, bool def) {
		Comp & c = C[i];
		bool ok = true;
		if (c.stopAfter >= 0 && upAll.count(c.stopAfter)) ok = false;
		if (c.stopFails < 0 || tried[i] < c.stopFails) ok = false;
		++tried[i];
		out.push_back({ STOP, i, ok, def });
		if (ok) upAll.erase(i);
		return ok;
	};
	std::vector<int> left(running.rbegin(), running.rend());
	bool progress = true, def = false;
	while (!left.empty() && progress) {
		progress = !def;
		std::vector<int> again;
		for (int i : left) { if (attempt(i, def)) progress = true; else again.push_back(i); }
		left = again;
		def = true;
	}
	return out;
}
static std::vector<int> startOrder; // running components with observable stop, as they were started

static void compareStop(const std::vector<Event> & want, size_t from, const char * when)
{
	std::vector<Event> got;
	for (size_t i = from; i < trace.size(); ++i) {
		REQUIRE(trace[i].ev == STOP, "component %d: %s during %s", trace[i].i, EV[trace[i].ev], when);
		got.push_back(trace[i]);
	}
	auto str = [](const std::vector<Event> & v) { std::string s; for (auto & e : v) s += " " + std::to_string(e.i) + (e.deferred ? "(deferred)" : "") + (e.ok ? "" : "!"); return s; };
	REQUIRE(str(got) == str(want), "%s: stopped%s, expected%s", when, str(got).c_str(), str(want).c_str());
}
static void stopped()
{
	std::vector<int> s;
	for (int i : startOrder) if (C[i].started) s.push_back(i);
	startOrder = s;
	// components without a stop callback
	for (int i = 0; i < N; ++i) if (C[i].kind == STARTONLY) C[i].started = false;
}
static void beginStop() { for (auto & x : inDeferred) x = false; for (int i = 0; i < N; ++i) C[i].tried = 0; }

static const char * expected; // reason why the registry has to give up now
static void emerg(const LogLine & l)
{
	note("emergency: %s", l.msg.c_str());
	managed = false;
	if (expected) { label("%s refused", expected); done(); }
	fail("unrecoverable error: %s", l.msg.c_str());
}

static void lifecycle(Gen & g)
{
	COMP_unregisterAll(); // (left over when a case ended with an emergency)
	managed = true;
	trace.clear();
	startOrder.clear();
	logstub::onEmerg = emerg;
	expected = nullptr;
	for (auto & c : C) c = Comp();
	int n = g.chance(1, 3) ? 1 + g.small(0, N - 1) : g.range(3, N);
	bool cyc = g.chance(1, 40), silent = g.chance(1, 3), longNames = g.chance(1, 12), inconsistent = g.chance(1, 20);
	// random acyclic graph: permutation plus edges from later to earlier
	std::vector<int> perm(n);
	for (int i = 0; i < n; ++i) perm[i] = i;
	for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[g.raw(i)]);
	unsigned dens = g.range(1, 5);
	for (int x = 0; x < n; ++x) {
		Comp & c = C[perm[x]];
		for (int y = 0; y < x; ++y) if (g.chance(dens, 10)) c.deps.push_back(perm[y]);
		if (g.chance(1, 2)) std::reverse(c.deps.begin(), c.deps.end());
	}
	if (cyc && n >= 2) { // close a cycle
		int a = perm[0], b = perm[n - 1];
		C[a].deps.push_back(b);
		if (!std::count(C[b].deps.begin(), C[b].deps.end(), a)) C[b].deps.push_back(a);
	} else cyc = false;
	for (int i = 0; i < n; ++i) {
		Comp & c = C[i];
		c.kind = (Kind)g.weighted({ 5, 5, 2, 1 });
		c.construct = !g.chance(1, 5);
		c.destruct = !g.chance(1, 5);
		c.hasEnabled = g.chance(1, 2);
		c.hasStart = g.chance(1, 3);
		c.name = "C" + std::to_string(i);
		if (longNames) c.name += std::string(g.range(100, 900), 'n');
		c.c = (Component *)calloc(1, sizeof(Component) + (c.deps.size() + 1) * sizeof(Component *));
		c.c->description = c.name.c_str();
		if (c.hasEnabled) c.c->enabled = &c.enabled;
		if (c.hasStart) c.c->start = &c.start;
		bindAny(i, c, g.chance(1, 4));
	}
	for (int i = 0; i < n; ++i)
		for (size_t d = 0; d < C[i].deps.size(); ++d) C[i].c->dependencies[d] = C[C[i].deps[d]].c;
	// transitive dependencies
	for (int i = 0; i < n; ++i) {
		std::vector<int> todo = C[i].deps;
		while (!todo.empty()) {
			int d = todo.back();
			todo.pop_back();
			if (C[i].allDeps.insert(d).second) for (int e : C[d].deps) todo.push_back(e);
		}
	}
	// what is registered
	std::vector<int> reg;
	for (int i = 0; i < n; ++i) if (g.chance(2, 3)) reg.push_back(i);
	if (cyc && !std::count(reg.begin(), reg.end(), perm[0])) reg.push_back(perm[0]);
	for (size_t i = reg.size(); i > 1; --i) std::swap(reg[i - 1], reg[g.raw(i - 1)]);
	for (int i = 0; i < n; ++i) { std::string d = list(C[i].deps); note("component %d: kind %d, needs%s", i, C[i].kind, d.empty() ? " nothing" : d.c_str()); }
	note("registered:%s", list(reg).c_str());
	COMP_setSilent(silent);
	for (int i : reg) {
		C[i].closure = true;
		COMP_register(C[i].c);
		for (int d : C[i].allDeps) C[d].closure = true;
	}
	if (!reg.empty() && g.chance(1, 60)) {
		expected = "component registered twice";
		COMP_register(C[reg[g.raw(reg.size() - 1)]].c);
		fail("a component can be registered twice");
	}
	if (cyc) expected = "cycle";
	COMP_fixup();
	REQUIRE(!cyc, "a cycle of dependencies was not detected");
	if (g.chance(1, 4)) COMP_fixup();
	size_t members = 0;
	for (int i = 0; i < n; ++i) {
		REQUIRE(C[i].registered == (C[i].closure ? 1 : 0), "component %d was registered %d times%s", i, C[i].registered, C[i].closure ? "" : ", but nothing needs it");
		members += C[i].closure;
	}
	REQUIRE(trace.empty(), "callbacks while registering");

	size_t cycles = 1 + g.small(0, 2), ran = 0;
	for (size_t cy = 0; cy < cycles; ++cy) {
		// flags: a disabled component disables what needs it
		for (int x = 0; x < n; ++x) {
			Comp & c = C[perm[x]];
			c.enabled = !(c.hasEnabled && g.chance(1, 4));
			c.start = !(c.hasStart && g.chance(1, 2));
		}
		bool bad = false;
		for (int x = 0; x < n; ++x) {
			Comp & c = C[perm[x]];
			for (int d : c.deps)
				if (c.enabled && !C[d].enabled) {
					if (inconsistent) bad |= c.closure;
					else if (c.hasEnabled) c.enabled = false;
					else { // cannot be disabled: enable its dependencies
						for (int e : c.allDeps) C[e].enabled = true;
					}
				}
		}
		if (!inconsistent) // until consistent
			for (int r = 0; r < n; ++r)
				for (int i = 0; i < n; ++i)
					if (C[i].enabled) for (int d : C[i].allDeps) C[d].enabled = true;
		size_t failing = 0;
		for (int i = 0; i < n; ++i) {
			Comp & c = C[i];
			c.failConstruct = c.construct && g.chance(1, 40);
			c.failStart = (c.kind != PASSIVE) && g.chance(1, 40);
			c.stopFails = longNames ? (g.chance(1, 2) ? 0 : -1) : g.chance(3, 4) ? 0 : g.chance(1, 8) ? -1 : (int)g.small(1, 3);
			c.stopAfter = g.chance(1, 8) ? (int)g.raw(n - 1) : -1;
			failing += c.failConstruct || c.failStart || c.stopFails || c.stopAfter >= 0;
		}
		auto member = [&](int i) { return C[i].closure && C[i].enabled; };
		// ---- construct
		note("construct all");
		trace.clear();
		if (bad) expected = "disabled dependency";
		bool ok = COMP_initAll();
		REQUIRE(!bad, "a component was enabled although one it needs is disabled, and that was not noticed");
		auto cons = order(CONSTRUCT, false);
		checkOrder(cons, true, "constructed");
		auto consOk = order(CONSTRUCT);
		std::vector<int> need;
		for (int i = 0; i < n; ++i) if (member(i) && C[i].construct) need.push_back(i);
		for (int i : cons) REQUIRE(member(i), "component %d is constructed although it is disabled", i);
		auto checkDestruct = [&](const char * when) {
			auto d = order(DESTRUCT);
			checkOrder(d, false, "destructed");
			// exactly the reverse order
			std::vector<int> a, b;
			for (int i : consOk) if (C[i].destruct) a.push_back(i);
			std::reverse(a.begin(), a.end());
			for (int i : d) if (C[i].construct) b.push_back(i);
			REQUIRE(a == b, "%s: destructed%s, expected%s", when, list(b).c_str(), list(a).c_str());
			for (int i : d) REQUIRE(std::count(d.begin(), d.end(), i) == 1, "component %d is destructed twice", i);
		};
		if (consOk.size() != cons.size()) {
			label("construction fails");
			REQUIRE(!ok, "construction of component %d failed, but success was reported", cons.back());
			REQUIRE(consOk.size() + 1 == cons.size() && C[cons.back()].failConstruct, "construction went on after a failure");
			onlyEvents({ CONSTRUCT, DESTRUCT }, "construction");
			bool des = false;
			for (auto & t : trace) { if (t.ev == DESTRUCT) des = true; else REQUIRE(!des, "construction went on after a failure"); }
			checkDestruct("failed construction");
			for (int i = 0; i < n; ++i) REQUIRE(!C[i].constructed || !C[i].destruct, "component %d stays constructed after a failed construction", i);
			for (int i = 0; i < n; ++i) C[i].constructed = false;
			continue;
		}
		REQUIRE(ok, "construction failed without a reason");
		auto sorted = cons;
		std::sort(sorted.begin(), sorted.end());
		REQUIRE(sorted == need, "constructed%s, expected%s", list(sorted).c_str(), list(need).c_str());
		onlyEvents({ CONSTRUCT }, "construction");
		// ---- start and stop, possibly several times
		size_t runs = 1 + g.small(0, 2);
		for (size_t r = 0; r < runs; ++r) {
			note("start all");
			trace.clear();
			beginStop();
			std::set<int> already;
			for (int i = 0; i < n; ++i) if (C[i].started) already.insert(i);
			std::vector<int> keep = startOrder;
			ok = COMP_startAll();
			auto st = order(START, false), stOk = order(START);
			checkOrder(st, true, "started");
			for (int i : st) REQUIRE(member(i) && C[i].start && !already.count(i), "component %d is started although it should not be", i);
			// the stop order is the reverse order of the components; those still running from before have their place
			std::vector<int> run;
			for (int i : stOk) if (C[i].kind != STARTONLY) run.push_back(i);
			bool leftovers = !keep.empty();
			if (st.size() != stOk.size()) {
				label("start fails");
				REQUIRE(!ok, "starting component %d failed, but success was reported", st.back());
				REQUIRE(stOk.size() + 1 == st.size() && C[st.back()].failStart, "starting went on after a failure");
				size_t k = 0;
				while (k < trace.size() && trace[k].ev == START) ++k;
				// expected rollback, computed on the state before it
				if (!leftovers) {
					auto save = std::vector<Comp>(C, C + N);
					for (int i : stOk) C[i].started = true;
					for (int i = 0; i < N; ++i) C[i].tried = 0;
					auto want = expectStop(run);
					for (int i = 0; i < N; ++i) C[i] = save[i];
					compareStop(want, k, "rollback of a failed start");
				}
				startOrder = run;
				for (int i : keep) if (!std::count(startOrder.begin(), startOrder.end(), i)) startOrder.push_back(i);
				stopped();
			} else {
				REQUIRE(ok, "starting failed without a reason");
				std::vector<int> want, got = stOk;
				for (int i = 0; i < n; ++i) if (member(i) && C[i].start && C[i].kind != PASSIVE && !already.count(i)) want.push_back(i);
				std::sort(got.begin(), got.end());
				REQUIRE(got == want, "started%s, expected%s", list(got).c_str(), list(want).c_str());
				onlyEvents({ START }, "start");
				startOrder = run;
				for (int i : keep) startOrder.push_back(i);
				if (run.size() >= 2) ++ran;
				if (g.chance(1, 3)) {
					trace.clear();
					COMP_resetAll();
					onlyEvents({ RESET }, "reset");
					auto rs = order(RESET);
					for (int i = 0; i < n; ++i) if (member(i)) REQUIRE(std::count(rs.begin(), rs.end(), i) == 1, "component %d was reset %zu times", i, (size_t)std::count(rs.begin(), rs.end(), i));
				}
				note("stop all");
				trace.clear();
				beginStop();
				if (!leftovers) {
					auto exp = expectStop(startOrder);
					COMP_stopAll();
					compareStop(exp, 0, "stop");
				} else COMP_stopAll();
				for (auto & t : trace) if (t.deferred) label("deferred stop");
				stopped();
			}
			if (!startOrder.empty()) label("cannot be stopped");
			if (!startOrder.empty() && g.chance(2, 3)) break;
		}
		// ---- everything has to be stopped before the destruction
		if (!startOrder.empty()) {
			for (int i = 0; i < n; ++i) { C[i].stopFails = 0; C[i].stopAfter = -1; }
			note("stop the rest");
			trace.clear();
			beginStop();
			COMP_stopAll();
			auto o = order(STOP);
			checkOrder(o, false, "stopped");
			stopped();
			REQUIRE(startOrder.empty(), "component %d is not stopped", startOrder[0]);
		}
		for (int i = 0; i < n; ++i) REQUIRE(!C[i].started && !C[i].alive, "component %d still runs", i);
		note("destruct all");
		trace.clear();
		COMP_destructAll();
		onlyEvents({ DESTRUCT }, "destruction");
		checkDestruct("destruction");
		for (int i = 0; i < n; ++i) if (member(i) && C[i].destruct) { bool f = false; for (auto & t : trace) f |= t.i == i; REQUIRE(f, "component %d is not destructed", i); }
		for (auto & t : trace) REQUIRE(member(t.i), "component %d is destructed although it is disabled", t.i);
		for (int i = 0; i < n; ++i) C[i].constructed = false;
	}
	if (members >= 3 && ran) nontrivial();
	COMP_unregisterAll();
	CFG_unregisterAll();
	for (auto & c : C) free(c.c);
	managed = false;
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "lifecycle", lifecycle, 150000, 5000000, 25, 20,
			"random acyclic dependency graphs of up to 12 components (threaded, self managed, passive), registration subsets, flags, failing callbacks and deferred stops over several construct/start/stop/destruct cycles; "
			"non-trivial: at least 3 components and 2 of them ran" },
	});
}
