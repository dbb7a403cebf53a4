#include "memtrack.hh"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <pthread.h>
#include <unordered_map>

namespace memtrack {
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static std::unordered_map<void *, size_t> * blocks;
static bool active, didFail;
static long failCount = -1;
static size_t limit, nAlloc;

void start()
{
	pthread_mutex_lock(&m);
	if (!blocks) blocks = new std::unordered_map<void *, size_t>;
	blocks->clear();
	active = true; didFail = false; failCount = -1; limit = 0; nAlloc = 0;
	pthread_mutex_unlock(&m);
}
void stop() { active = false; failCount = -1; limit = 0; }
size_t live() { pthread_mutex_lock(&m); size_t n = blocks ? blocks->size() : 0; pthread_mutex_unlock(&m); return n; }
size_t liveBytes() { size_t n = 0; pthread_mutex_lock(&m); if (blocks) for (auto & b : *blocks) n += b.second; pthread_mutex_unlock(&m); return n; }
size_t allocations() { return nAlloc; }
void failAfter(long n) { failCount = n; }
void failOver(size_t b) { limit = b; }
bool failed() { return didFail; }

static bool refuse(size_t sz)
{
	if (!active) return false;
	pthread_mutex_lock(&m);
	bool r = false;
	if (limit && sz > limit) r = true;
	else if (failCount == 0) { r = true; failCount = -1; }
	else if (failCount > 0) --failCount;
	if (r) didFail = true;
	pthread_mutex_unlock(&m);
	if (r) errno = ENOMEM;
	return r;
}
static void add(void * p, size_t sz)
{
	if (!active || !p) return;
	pthread_mutex_lock(&m);
	(*blocks)[p] = sz;
	++nAlloc;
	pthread_mutex_unlock(&m);
}
static void del(void * p)
{
	if (!p || !blocks) return;
	pthread_mutex_lock(&m);
	blocks->erase(p);
	pthread_mutex_unlock(&m);
}
}

extern "C" {
void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void __real_free(void *);
char * __real_strdup(const char *);
void * __wrap_malloc(size_t n)
{
	if (memtrack::refuse(n)) return nullptr;
	void * p = __real_malloc(n);
	memtrack::add(p, n);
	return p;
}
void * __wrap_calloc(size_t a, size_t b)
{
	if (memtrack::refuse(a * b)) return nullptr;
	void * p = __real_calloc(a, b);
	memtrack::add(p, a * b);
	return p;
}
void * __wrap_realloc(void * o, size_t n)
{
	if (memtrack::refuse(n)) return nullptr;
	void * p = __real_realloc(o, n);
	if (p || !n) memtrack::del(o);
	memtrack::add(p, n);
	return p;
}
char * __wrap_strdup(const char * s)
{
	if (memtrack::refuse(strlen(s) + 1)) return nullptr;
	char * p = __real_strdup(s);
	memtrack::add(p, strlen(s) + 1);
	return p;
}
void __wrap_free(void * p)
{
	memtrack::del(p);
	__real_free(p);
}
}
