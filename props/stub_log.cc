#include "stub_log.hh"
#include "pbt.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <pthread.h>
extern "C" {
#include "util/log.h"
}

namespace logstub {
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static std::vector<LogLine> lines;
bool record = false;
bool echo = false;
void (*onEmerg)(const LogLine &) = nullptr;

std::vector<LogLine> take()
{
	pthread_mutex_lock(&m);
	std::vector<LogLine> r;
	r.swap(lines);
	pthread_mutex_unlock(&m);
	return r;
}
bool contains(const std::vector<LogLine> & l, const char * part, int minLevel)
{
	for (auto & x : l)
		if (x.level >= minLevel && x.msg.find(part) != std::string::npos) return true;
	return false;
}

static void out(int level, const char * prefix, const char * msg)
{
	int r;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &r);
	if (record || level == LOG_LEVEL_EMERG || echo) {
		pthread_mutex_lock(&m);
		LogLine l { level, prefix ? prefix : "", msg };
		if (echo) fprintf(stderr, "[%d] [%s] %s\n", level, l.prefix.c_str(), msg);
		if (record) lines.push_back(l);
		pthread_mutex_unlock(&m);
		if (level == LOG_LEVEL_EMERG) {
			if (onEmerg) onEmerg(l);
			pbt::fail("unrecoverable error logged: [%s] %s", l.prefix.c_str(), msg);
		}
	}
	pthread_setcancelstate(r, nullptr);
}
static void vout(int level, const char * prefix, const char * fmt, va_list ap, int err)
{
	char b[8192];
	int r;
	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &r);
	// formats all arguments, so that the sanitizers see every string
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (err && n >= 0 && n < (int)sizeof b - 64)
		snprintf(b + n, sizeof b - n, ": error %d", err);
	out(level, prefix, b);
	pthread_setcancelstate(r, nullptr);
}
}

extern "C" {
void LOG_logf(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	logstub::vout(level, prefix, fmt, ap, 0);
	va_end(ap);
}
void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str)
{
	logstub::out(level, prefix, str);
}
void LOG_flush() { }
void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	int e = errno;
	va_list ap;
	va_start(ap, fmt);
	logstub::vout(level, prefix, fmt, ap, e);
	va_end(ap);
}
void LOG_errno2(enum LOG_LEVEL level, int err, const char * prefix, const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	logstub::vout(level, prefix, fmt, ap, err);
	va_end(ap);
}
void LOG_errnet(enum LOG_LEVEL level, const char * prefix, const char * fmt, ...)
{
	int e = errno;
	va_list ap;
	va_start(ap, fmt);
	logstub::vout(level, prefix, fmt, ap, e);
	va_end(ap);
}
}
