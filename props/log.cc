// C33: log messages (util/log_stdio.c and log_lib.cc of both libraries): each call writes one complete
// line, whatever other threads log at the same time, and emergencies end the process after the message
// has been written
#include "pbt.hh"
#include "sched.hh"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <pthread.h>
#include <streambuf>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef STDIO
#include <stdio_ext.h>
#ifdef GPLIB
#include "gplib/opensky.hh"
#else
#include "radarcape/lib/opensky.hh"
#endif
#else
#include <stdio_ext.h>
#endif
#include "util/log.h"
using namespace pbt;

namespace {
enum Call { LOGF, LOG, ERRNO, ERRNO2, ERRNET };
struct M { int level; bool hasPrefix; std::string prefix, msg; Call call; int err; int fmt; int num; };
const char * const NAMES[] = { "INFO", "DEBUG", "WARN", "ERROR", "EMERG" };
std::string out[2]; // messages, errors
bool yields;
}
static void put(int which, const char * p, size_t n)
{
	for (size_t i = 0; i < n; ++i) {
		if (yields && sched::active() && i < 100 && (i % 16) == 0) sched::point("writing");
		out[which].push_back(p[i]);
	}
	if (yields && sched::active()) sched::point("writing");
}
#ifdef STDIO
static ssize_t cookieWrite(void *, const char * b, size_t n) { put(0, b, n); return n; }
static void redirect()
{
	cookie_io_functions_t io = { nullptr, cookieWrite, nullptr, nullptr };
	FILE * f = fopencookie(nullptr, "w", io);
	setvbuf(f, nullptr, _IONBF, 0);
	__fsetlocking(f, FSETLOCKING_BYCALLER); // the threads are on the scheduler
	stdout = f;
}
#else
struct Sink : std::streambuf {
	int which;
	Sink(int w) : which(w) { }
	int overflow(int c) override { char x = c; if (c != EOF) put(which, &x, 1); return c; }
	std::streamsize xsputn(const char * s, std::streamsize n) override { put(which, s, n); return n; }
};
static Sink s0(0), s1(1);
static std::ostream o0(&s0), o1(&s1);
static void redirect() { OpenSky::setLogStreams(o0, o1); }
#endif
static int streamOf(int level)
{
#ifdef STDIO
	return 0;
#else
	return level >= LOG_LEVEL_ERROR;
#endif
}
static const char * FMTS[] = { "%s", "a %d b %s", "100%% %s", "%5d|%-8s|", "%s %s", "" };
static std::string text(const M & m)
{
	if (m.call == LOG) return m.msg;
	std::vector<char> b(m.msg.size() * 2 + 100);
	int n = 0;
	switch (m.fmt) {
	case 0: n = snprintf(b.data(), b.size(), "%s", m.msg.c_str()); break;
	case 1: n = snprintf(b.data(), b.size(), "a %d b %s", m.num, m.msg.c_str()); break;
	case 2: n = snprintf(b.data(), b.size(), "100%% %s", m.msg.c_str()); break;
	case 3: n = snprintf(b.data(), b.size(), "%5d|%-8s|", m.num, m.msg.c_str()); break;
	case 4: n = snprintf(b.data(), b.size(), "%s %s", m.msg.c_str(), m.msg.c_str()); break;
	default: n = 0;
	}
	return std::string(b.data(), n);
}
#define EMIT(fn, ...) switch (m.fmt) { \
	case 0: fn(__VA_ARGS__, FMTS[0], m.msg.c_str()); break; \
	case 1: fn(__VA_ARGS__, FMTS[1], m.num, m.msg.c_str()); break; \
	case 2: fn(__VA_ARGS__, FMTS[2], m.msg.c_str()); break; \
	case 3: fn(__VA_ARGS__, FMTS[3], m.num, m.msg.c_str()); break; \
	case 4: fn(__VA_ARGS__, FMTS[4], m.msg.c_str(), m.msg.c_str()); break; \
	default: fn(__VA_ARGS__, "%s", ""); }
static void emit(const M & m)
{
	LOG_LEVEL l = (LOG_LEVEL)m.level;
	const char * p = m.hasPrefix ? m.prefix.c_str() : nullptr;
	errno = m.err;
	switch (m.call) {
	case LOGF: EMIT(LOG_logf, l, p); break;
	case LOG: LOG_log(l, p, m.msg.c_str()); break;
	case ERRNO: EMIT(LOG_errno, l, p); break;
	case ERRNO2: errno = 0; EMIT(LOG_errno2, l, m.err, p); break;
	case ERRNET: EMIT(LOG_errnet, l, p); break;
	}
}
static std::string show(const std::string & s) { return s.size() > 200 ? s.substr(0, 150) + "..." + s.substr(s.size() - 40) : s; }
// does the line (without newline) belong to this message?
static bool matches(const std::string & line, const M & m)
{
	std::string head = std::string("[") + NAMES[m.level] + "] " + (m.hasPrefix ? "[" + m.prefix + "] " : ""), t = text(m);
	if (line.compare(0, head.size(), head)) return false;
	std::string rest = line.substr(head.size());
	auto tailOk = [&] (const std::string & tail) {
		if (m.call == LOGF || m.call == LOG) return tail.empty();
		std::string no = "(" + std::to_string(m.err) + ")", name = strerror(m.err);
		if (tail.empty() || tail[0] != ':' || tail.size() < no.size() || tail.compare(tail.size() - no.size(), no.size(), no)) return false;
		return !name.compare(0, 7, "Unknown") || tail.find(name) != std::string::npos;
	};
	if (!rest.compare(0, t.size(), t) && tailOk(rest.substr(t.size()))) return true;
#ifndef STDIO
	// long ones may be cut off, except if nothing had to be formatted
	if (m.call != LOG && t.size() >= 2048) {
		size_t n = 0;
		while (n < rest.size() && n < t.size() && rest[n] == t[n]) ++n;
		for (size_t k = n; k >= 2000; --k) if (tailOk(rest.substr(k))) return true;
	}
#endif
	return false;
}
static M genMsg(Gen & g, unsigned thread)
{
	M m;
	m.level = g.pick<int>({ LOG_LEVEL_INFO, LOG_LEVEL_DEBUG, LOG_LEVEL_WARN, LOG_LEVEL_ERROR });
	m.call = (Call)g.range(0, 4);
	m.hasPrefix = g.chance(4, 5);
	m.prefix = g.pick<const char *>({ "NET", "A", "", "MAIN long prefix", "%s" });
	size_t n = g.chance(1, 12) ? g.pick<size_t>({ 2047, 2048, 2049, 2046, 5000, 70000, 0 }) : g.small(0, 60);
	m.msg = std::string(1, 'a' + thread);
	while (m.msg.size() < n) m.msg += g.size() < 10 || m.msg.size() > 100 ? 'x' : g.pick<char>({ 'x', ' ', '%', '[', ']', ':', 'n', '\t', (char)0xc3 });
	if (m.hasPrefix) m.prefix += 'a' + thread;
	if (n == 0 && m.hasPrefix) m.msg.clear();
	m.err = g.chance(1, 6) ? g.pick<int>({ 0, -1, 100000, 133, 134, INT32_MAX, INT32_MIN }) : g.range(1, 133);
	m.fmt = g.weighted({ 6, 2, 2, 2, 1, 1 });
	if (m.fmt == 5 && !m.hasPrefix) m.fmt = 0;
	m.num = (int)g.raw(2000) - 1000;
	return m;
}
static std::vector<std::string> lines(int which)
{
	std::vector<std::string> r;
	size_t p = 0;
	while (p < out[which].size()) {
		size_t e = out[which].find('\n', p);
		REQUIRE(e != std::string::npos, "the log ends with an incomplete line '%s'", show(out[which].substr(p)).c_str());
		r.push_back(out[which].substr(p, e - p));
		p = e + 1;
	}
	return r;
}
static void concurrent(Gen & g)
{
	unsigned nt = g.range(1, 4);
	sched::reset(g, g.pick<unsigned>({ 1, 2, 4 }));
	yields = true;
	out[0].clear();
	out[1].clear();
#ifdef STDIO
	FILE * real = stdout;
#endif
	redirect();
	static std::vector<std::vector<M>> todo;
	todo.assign(nt, {});
	static std::vector<unsigned> begun, ended;
	begun.assign(nt, 0);
	ended.assign(nt, 0);
	std::vector<int> tids;
	unsigned total = 0;
	for (unsigned t = 0; t < nt; ++t) {
		unsigned n = 1 + g.small(0, 8);
		total += n;
		for (unsigned i = 0; i < n; ++i) {
			todo[t].push_back(genMsg(g, t));
			auto & m = todo[t].back();
			note("thread %u: %s call %d '%s' err %d", t, NAMES[m.level], m.call, show(m.msg).c_str(), m.err);
		}
		tids.push_back(sched::spawn("T" + std::to_string(t), [t] {
			for (auto & m : todo[t]) {
				++begun[t];
				emit(m);
				++ended[t];
				sched::point("between");
			}
		}));
	}
	bool canc = g.chance(1, 3);
	uint64_t at = canc ? g.raw(60) : 0;
	unsigned victim = g.raw(nt - 1);
	bool done1 = false;
	sched::onStep = [&] { if (canc && !done1 && sched::steps() >= at) { done1 = true; sched::cancel(tids[victim]); } };
	sched::run();
	sched::onStep = nullptr;
	yields = false;
#ifdef STDIO
	fflush(stdout);
	stdout = real;
#endif
	std::vector<unsigned> pos(nt, 0);
	std::vector<std::vector<unsigned>> seen(nt);
	for (int which = 0; which < 2; ++which) {
		std::vector<unsigned> next(nt, 0);
		for (auto & l : lines(which)) {
			// the next message of some thread on this stream
			bool found = false;
			for (unsigned t = 0; t < nt && !found; ++t) {
				unsigned i = next[t];
				while (i < todo[t].size() && streamOf(todo[t][i].level) != which) ++i;
				if (i < todo[t].size() && matches(l, todo[t][i])) { next[t] = i + 1; seen[t].push_back(i); found = true; }
			}
			REQUIRE(found, "line '%s' on the %s stream is none of the messages which are to follow", show(l).c_str(), which ? "error" : "message");
		}
	}
	for (unsigned t = 0; t < nt; ++t) {
		REQUIRE(begun[t] == ended[t] , "thread %u was cancelled within a log call", t);
		REQUIRE(seen[t].size() == ended[t], "thread %u made %u log calls, %zu lines of them are in the log", t, ended[t], seen[t].size());
		if (!sched::cancelled(tids[t])) REQUIRE(ended[t] == todo[t].size(), "thread %u has not finished", t);
	}
	if (done1) label("cancelled");
	if (nt > 1) label("%u threads", nt);
	if (nt > 1 && total > 2) nontrivial();
	done();
}
static void emergency(Gen & g)
{
	M m = genMsg(g, 0), before = genMsg(g, 1);
	m.level = LOG_LEVEL_EMERG;
	bool useBefore = g.chance(1, 2);
	note("EMERG call %d '%s' err %d", m.call, show(m.msg).c_str(), m.err);
	std::string file[2] = { scratch() + "/out", scratch() + "/err" };
	pid_t p = fork();
	if (!p) {
		signal(SIGABRT, SIG_DFL);
		struct rlimit rl = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rl);
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 2);
#ifdef STDIO
		fd = open(file[0].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 1);
		setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
#else
		std::ofstream * a = new std::ofstream(file[0]), * b = new std::ofstream(file[1]);
		OpenSky::setLogStreams(*a, *b);
#endif
		if (useBefore) emit(before);
		emit(m);
		_exit(3);
	}
	int st;
	waitpid(p, &st, 0);
	REQUIRE(!(WIFEXITED(st) && WEXITSTATUS(st) == 3), "an emergency does not end the process");
	REQUIRE(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "an emergency ends the process with status %x, expected an abort", st);
	for (int i = 0; i < 2; ++i) {
		std::ifstream f(file[i]);
		out[i] = std::string(std::istreambuf_iterator<char>(f), {});
		unlink(file[i].c_str());
	}
	auto e = lines(streamOf(LOG_LEVEL_EMERG));
	REQUIRE(!e.empty() && matches(e.back(), m), "the emergency is not in the log (%s)", e.empty() ? "empty" : show(e.back()).c_str());
	if (useBefore) {
		auto b = lines(streamOf(before.level));
		REQUIRE(!b.empty() && matches(b.front(), before), "an earlier message is lost with the emergency");
		nontrivial();
	}
	done();
}
int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "log_concurrent", concurrent, 30000, 1000000, 50, 60, "up to four threads making random log calls of all kinds (levels, prefixes, formats, lengths, error codes) in random schedules, one may be cancelled; nontrivial: several threads" },
		{ "log_emergency", emergency, 1500, 20000, 50, 60, "random emergencies in a process of their own; nontrivial: after an earlier message" },
	});
}
