#include "pbt.hh"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <ftw.h>
#include <sys/prctl.h>

namespace pbt {

enum { EXIT_OK = 0, EXIT_FAIL = 3, EXIT_DISCARD_UNUSED = 4, EXIT_SAN = 99 };
enum { MAX_TAPE = 400000, MAX_NOTES = 96 * 1024, MAX_MSG = 6000, MAX_LABELS = 160, LABEL_LEN = 64,
	MAX_BATCH = 1024, N_SAMPLES = 3, SAMPLE_LEN = 1500, MAX_KNOWN = 16 };

struct Shared {
	// current case
	volatile uint64_t current;       // case index being run
	size_t nTape;
	uint64_t tape[MAX_TAPE];
	size_t nNotes;
	char notes[MAX_NOTES];
	char msg[MAX_MSG];
	bool failed;
	bool nontriv, discarded;
	int nCurLabels;
	char curLabels[MAX_LABELS][LABEL_LEN];
	// accumulated by the children of a worker
	uint64_t evaluations, nontrivial, discards;
	struct { char name[LABEL_LEN]; uint64_t count; } labels[MAX_LABELS];
	int nLabels;
	uint64_t knownHits[MAX_KNOWN];
	uint64_t hashes[MAX_BATCH];
	int nHashes;
	int nSamples;
	char samples[N_SAMPLES][SAMPLE_LEN];
	bool tapeOverflow;
	uint64_t flaky;
	int nFlakyMsg;
	char flakyMsg[1500];
};

static Shared * S;          // of this worker
static bool replaying;
static std::vector<std::string> knownKeys;

bool isReplay() { return replaying; }

/* ---------------------------------------------------------------- random */
static uint64_t splitmix(uint64_t & x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Gen::rnd()
{
	uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
	s[2] ^= t; s[3] = rotl(s[3], 45);
	return result;
}
static uint64_t record(Gen & g, uint64_t v)
{
	if (S->nTape < MAX_TAPE)
		S->tape[S->nTape++] = v;
	else
		S->tapeOverflow = true;
	++g.pos;
	return v;
}
uint64_t Gen::raw(uint64_t max)
{
	uint64_t v;
	if (replay)
		v = pos < replay->size() ? (*replay)[pos] : 0;
	else
		v = max == UINT64_MAX ? rnd() : rnd() % (max + 1);
	if (v > max)
		v = max;
	return record(*this, v);
}
int64_t Gen::small(int64_t lo, int64_t hi)
{
	uint64_t max = (uint64_t)(hi - lo), v;
	if (replay) {
		v = pos < replay->size() ? (*replay)[pos] : 0;
		if (v > max) v = max;
	} else {
		// log-uniform magnitude
		unsigned bits = 0;
		while (bits < 63 && (max >> bits)) ++bits;
		unsigned b = bits ? rnd() % (bits + 1) : 0;
		uint64_t m = b >= 63 ? max : std::min<uint64_t>(max, (1ull << b) - 1);
		v = m == UINT64_MAX ? rnd() : rnd() % (m + 1);
	}
	return lo + (int64_t)record(*this, v);
}
bool Gen::chance(unsigned num, unsigned den)
{
	uint64_t v;
	if (replay)
		v = pos < replay->size() ? !!(*replay)[pos] : 0;
	else
		v = rnd() % den < num;
	return record(*this, v);
}
bool Gen::more(double avg)
{
	uint64_t v;
	if (replay)
		v = pos < replay->size() ? !!(*replay)[pos] : 0;
	else
		v = (rnd() >> 11) * (1. / 9007199254740992.) < avg / (avg + 1.);
	return record(*this, v);
}
size_t Gen::weighted(std::initializer_list<unsigned> w)
{
	uint64_t sum = 0, v;
	for (unsigned x : w) sum += x;
	if (replay) {
		v = pos < replay->size() ? (*replay)[pos] : 0;
		if (v >= w.size()) v = w.size() - 1;
		// an impossible alternative must stay impossible
		while (v && !w.begin()[v]) --v;
		if (!w.begin()[v])
			for (v = 0; v < w.size() && !w.begin()[v]; ++v) {}
	} else {
		uint64_t r = rnd() % sum;
		for (v = 0; r >= w.begin()[v]; ++v)
			r -= w.begin()[v];
	}
	return record(*this, v);
}
uint64_t Gen::u64()
{
	switch (weighted({ 3, 3, 4, 2 })) {
	case 0: return (uint64_t)small(0, INT64_MAX);
	case 1: return pick<uint64_t>({ 0, 1, 2, 0x1a, 0x1a1a1a1a, 0x1a1a1a1a1a1a1a1aull, 0x7f, 0x80, 0xff, 0x100,
		0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull,
		0xffffffffffffull, 0x1000000000000ull, INT64_MAX, 1ull << 63, UINT64_MAX });
	case 2: return raw(UINT64_MAX);
	default: {
		uint64_t r = 0;
		for (int i = 0; i < 8; ++i)
			r = r << 8 | pick<uint64_t>({ 0, 0x1a, 0xff, 0x10, 0x03, 0x31, 0x80 });
		return r;
	}
	}
}

/* ------------------------------------------------------------ case context */
static pthread_mutex_t ctxMutex = PTHREAD_MUTEX_INITIALIZER;

void note(const char * fmt, ...)
{
	pthread_mutex_lock(&ctxMutex);
	va_list ap;
	va_start(ap, fmt);
	if (S->nNotes < MAX_NOTES - 1) {
		int n = vsnprintf(S->notes + S->nNotes, MAX_NOTES - S->nNotes, fmt, ap);
		S->nNotes = std::min<size_t>(MAX_NOTES - 1, S->nNotes + n);
		if (S->nNotes < MAX_NOTES - 1) {
			S->notes[S->nNotes++] = '\n';
			S->notes[S->nNotes] = 0;
		}
	}
	va_end(ap);
	pthread_mutex_unlock(&ctxMutex);
}
void label(const char * fmt, ...)
{
	char b[LABEL_LEN];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	pthread_mutex_lock(&ctxMutex);
	int i;
	for (i = 0; i < S->nCurLabels; ++i)
		if (!strcmp(S->curLabels[i], b)) break;
	if (i == S->nCurLabels && i < MAX_LABELS)
		strcpy(S->curLabels[S->nCurLabels++], b);
	pthread_mutex_unlock(&ctxMutex);
}
void nontrivial() { S->nontriv = true; }

struct Unwind { };

static void vfail(const char * fmt, va_list ap)
{
	vsnprintf(S->msg, MAX_MSG, fmt, ap);
	S->failed = true;
	_exit(EXIT_FAIL);
}
void fail(const char * fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vfail(fmt, ap);
	abort();
}
void done()
{
	throw Unwind();
}
void discard(const char * why)
{
	S->discarded = true;
	label("discarded: %s", why);
	throw Unwind();
}
void failKnown(const char * key, const char * fmt, ...)
{
	for (size_t i = 0; i < knownKeys.size() && i < MAX_KNOWN; ++i)
		if (knownKeys[i] == key) {
			++S->knownHits[i];
			throw Unwind();
		}
	va_list ap;
	va_start(ap, fmt);
	vfail(fmt, ap);
	abort();
}

std::string hex(const void * p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	std::string r;
	const uint8_t * b = (const uint8_t *)p;
	for (size_t i = 0; i < n; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
	return r;
}

/* ------------------------------------------------------------- case running */
static uint64_t gSeed = 1;
static bool gThorough = false;
static int logFd = -1;

static void resetCase()
{
	S->nTape = 0; S->nNotes = 0; S->notes[0] = 0; S->msg[0] = 0;
	S->failed = S->nontriv = S->discarded = false; S->nCurLabels = 0;
}

static void initGen(Gen & g, const Prop & p, uint64_t idx, uint64_t total)
{
	uint64_t x = gSeed * 0x9e3779b97f4a7c15ull ^ idx * 0xd1342543de82ef95ull;
	for (const char * c = p.name; *c; ++c)
		x = (x ^ (uint8_t)*c) * 0x100000001b3ull;
	for (auto & v : g.s) v = splitmix(x);
	(void)total;
	g.sz = 1 + idx % 100;
	// the size is part of the case: put it on the tape
}

static uint64_t tapeHash()
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (size_t i = 0; i < S->nTape; ++i) { h ^= S->tape[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
	return h;
}

static void armTimer(unsigned sec)
{
	struct itimerval it = {};
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_REAL, &it, nullptr);
}

static void runOne(const Prop & p, Gen & g)
{
	resetCase();
	armTimer(p.timeoutSec);
	g.sz = 1 + (g.replay ? g.raw(99) : record(g, g.sz - 1));
	try {
		p.fn(g);
	} catch (Unwind &) {
	}
	armTimer(0);
}

static void childSetup()
{
	setpgid(0, 0);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGALRM, SIG_DFL);
	sigset_t s;
	sigemptyset(&s);
	sigaddset(&s, SIGALRM);
	sigprocmask(SIG_UNBLOCK, &s, nullptr);
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	if (logFd >= 0) {
		if (ftruncate(logFd, 0)) {}
		lseek(logFd, 0, SEEK_SET);
		dup2(logFd, 1);
		dup2(logFd, 2);
	}
}

struct Outcome {
	bool ok;
	int kind;           // 0 ok, 1 oracle, 2 signal, 3 sanitizer, 4 hang, 5 other exit
	std::string what;
};

static std::string logTail(size_t max)
{
	if (logFd < 0) return "";
	off_t sz = lseek(logFd, 0, SEEK_END);
	// the head of a sanitizer report is what matters
	std::string b(std::min<off_t>(sz, 200000), 0);
	ssize_t r = pread(logFd, &b[0], b.size(), sz > 200000 ? sz - 200000 : 0);
	b.resize(r > 0 ? r : 0);
	size_t a = b.find("==ERROR:");
	if (a == std::string::npos) a = b.find("runtime error:");
	if (a == std::string::npos) a = b.find("WARNING: ThreadSanitizer");
	if (a == std::string::npos) a = b.size() > max ? b.size() - max : 0;
	else a = a > 200 ? a - 200 : 0;
	return b.substr(a, max);
}

static Outcome classify(int st)
{
	Outcome o;
	o.ok = false;
	if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_OK) {
		o.ok = true; o.kind = 0;
	} else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) {
		o.kind = 1; o.what = S->msg;
	} else if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_SAN) {
		o.kind = 3; o.what = "sanitizer report:\n" + logTail(2500);
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
		o.kind = 4; o.what = "no progress within the case timeout (hang or deadlock)";
	} else if (WIFSIGNALED(st)) {
		o.kind = 2;
		o.what = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + "\n" + logTail(1500);
	} else {
		o.kind = 5;
		o.what = "unexpected exit status " + std::to_string(WEXITSTATUS(st)) + "\n" + logTail(1500);
	}
	return o;
}

static int waitChild(pid_t pid)
{
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	kill(-pid, SIGKILL); // stragglers of the case
	return st;
}

static Outcome runTape(const Prop & p, const std::vector<uint64_t> & tape)
{
	resetCase();
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(2); }
	if (!pid) {
		childSetup();
		Gen g{};
		g.replay = &tape;
		runOne(p, g);
		_exit(EXIT_OK);
	}
	return classify(waitChild(pid));
}

// several cases one after another in the same process
static Outcome runSeq(const Prop & p, const std::vector<std::vector<uint64_t>> & tapes)
{
	resetCase();
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(2); }
	if (!pid) {
		childSetup();
		for (auto & t : tapes) {
			Gen g{};
			g.replay = &t;
			runOne(p, g);
		}
		_exit(EXIT_OK);
	}
	return classify(waitChild(pid));
}

/* ---------------------------------------------------------------- shrinking */
static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::vector<uint64_t> shrink(const Prop & p, std::vector<uint64_t> best, int kind, double budget)
{
	double end = now() + budget;
	auto attempt = [&](const std::vector<uint64_t> & cand) {
		if (now() > end) return false;
		Outcome o = runTape(p, cand);
		if (o.ok || o.kind != kind || S->discarded) return false;
		// take what was actually consumed
		std::vector<uint64_t> used(S->tape, S->tape + S->nTape);
		if (used.size() < best.size() || (used.size() == best.size() && used < best)) {
			best = used;
			return true;
		}
		return false;
	};
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		// delete chunks
		for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
			for (size_t i = best.size(); i-- > 0 && now() < end;) {
				if (i >= best.size()) continue;
				size_t start = i + 1 >= chunk ? i + 1 - chunk : 0;
				std::vector<uint64_t> c(best.begin(), best.begin() + start);
				c.insert(c.end(), best.begin() + std::min(best.size(), start + chunk), best.end());
				if (attempt(c)) { progress = true; }
				if (chunk > 1) i = i >= chunk / 2 ? i - chunk / 2 + 1 : 0;
				if (!i) break;
			}
			if (chunk == 1) break;
		}
		// reduce values
		for (size_t i = 0; i < best.size() && now() < end; ++i) {
			if (!best[i]) continue;
			std::vector<uint64_t> c = best;
			c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0;
			while (i < best.size() && best[i] - lo > 1 && now() < end) {
				uint64_t mid = lo + (best[i] - lo) / 2;
				c = best; c[i] = mid;
				if (attempt(c)) { progress = true; if (i >= best.size() || best[i] > mid) break; }
				else lo = mid;
			}
		}
	}
	return best;
}

/* --------------------------------------------------------------------- main */
static std::string jsonStr(const std::string & s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

static bool writeTape(const std::string & path, const Prop & p, const std::vector<std::vector<uint64_t>> & ts,
	const std::string & what)
{
	FILE * f = fopen(path.c_str(), "w");
	if (!f) return false;
	fprintf(f, "check %s", p.name);
	for (auto & t : ts) {
		fprintf(f, "\ntape");
		for (uint64_t v : t) fprintf(f, " %llu", (unsigned long long)v);
	}
	fprintf(f, "\n--- failure\n%s\n--- case\n%s\n", what.c_str(), S->notes);
	fclose(f);
	return true;
}

static Shared * newShared()
{
	void * m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared *)m;
}

struct WorkerResult { bool failed; uint64_t failIndex; };

static void worker(const Prop & p, unsigned w, unsigned n, uint64_t total, double deadline,
	volatile uint64_t * firstFail, const std::string & hashFile)
{
	std::unordered_set<uint64_t> distinct;
	uint64_t perBatch = std::max(1u, std::min<unsigned>(p.batch, MAX_BATCH));
	uint64_t idx = (uint64_t)w * perBatch;
	uint64_t inBatch = 0;
	while (idx < total && now() < deadline && *firstFail == UINT64_MAX) {
		uint64_t end = std::min(total, idx - inBatch + perBatch);
		auto runBatch = [&] {
		S->nHashes = 0;
		S->current = idx;
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); _exit(2); }
		if (!pid) {
			childSetup();
			for (uint64_t i = idx; i < end; ++i) {
				S->current = i;
				Gen g{};
				initGen(g, p, i, total);
				runOne(p, g);
				if (S->discarded) ++S->discards;
				else ++S->evaluations;
				if (S->nontriv && !S->discarded) {
					++S->nontrivial;
					S->hashes[S->nHashes++] = tapeHash();
					if (S->nSamples < N_SAMPLES && (S->nSamples == 0 || i > total / 3) && S->nNotes) {
						snprintf(S->samples[S->nSamples], SAMPLE_LEN, "%s", S->notes);
						++S->nSamples;
					}
				}
				for (int l = 0; l < S->nCurLabels; ++l) {
					int k;
					for (k = 0; k < S->nLabels; ++k)
						if (!strcmp(S->labels[k].name, S->curLabels[l])) break;
					if (k == S->nLabels && k < MAX_LABELS) {
						strcpy(S->labels[k].name, S->curLabels[l]);
						++S->nLabels;
					}
					if (k < MAX_LABELS) ++S->labels[k].count;
				}
			}
			_exit(EXIT_OK);
		}
		return waitChild(pid);
		};
		int st = runBatch();
		for (int i = 0; i < S->nHashes; ++i) distinct.insert(S->hashes[i]);
		Outcome o = classify(st);
		if (!o.ok) {
			uint64_t me = S->current;
			// run the batch again: something that cannot be met again must not end the exploration
			bool met = false;
			uint64_t ev = S->evaluations, nt = S->nontrivial, di = S->discards;
			for (int k = 0; k < 4 && !met; ++k) {
				Outcome again = classify(runBatch());
				if (!again.ok) { met = true; me = S->current; }
				S->evaluations = ev; S->nontrivial = nt; S->discards = di;
			}
			if (!met) {
				++S->flaky;
				if (S->nFlakyMsg == 0) { snprintf(S->flakyMsg, sizeof S->flakyMsg, "case %llu: %s", (unsigned long long)me, o.what.c_str()); ++S->nFlakyMsg; }
				idx += perBatch * n;
				continue;
			}
			// first failure: lowest index wins
			uint64_t old = __atomic_load_n(firstFail, __ATOMIC_SEQ_CST);
			while (me < old && !__atomic_compare_exchange_n(firstFail, &old, me, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
			++S->evaluations;
			break;
		}
		idx = idx - inBatch + perBatch * n;
		inBatch = 0;
	}
	FILE * f = fopen(hashFile.c_str(), "wb");
	if (f) {
		for (uint64_t h : distinct) fwrite(&h, sizeof h, 1, f);
		fclose(f);
	}
	_exit(0);
}

static std::string scratchBase;
static int rmEntry(const char * p, const struct stat *, int, struct FTW *) { return remove(p); }
const std::string & scratch()
{
	static std::string dir;
	static pid_t owner;
	if (owner != getpid()) {
		owner = getpid();
		std::string t = scratchBase + "/XXXXXX";
		if (!mkdtemp(&t[0])) fail("cannot create %s", t.c_str());
		dir = t;
	}
	return dir;
}

int run(int argc, char ** argv, const std::vector<Prop> & props)
{
	std::string replayFile, outFile, replayDir = ".";
	std::set<std::string> only;
	uint64_t cases = 0;
	unsigned nWorkers = 8;
	double cap = 0;
	if (getenv("VERIF_SEED")) gSeed = strtoull(getenv("VERIF_SEED"), nullptr, 0);
	gThorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--replay") replayFile = val();
		else if (a == "--out") outFile = val();
		else if (a == "--replay-dir") replayDir = val();
		else if (a == "--only") {
			std::string v = val();
			for (size_t b = 0; b <= v.size();) {
				size_t e = v.find(',', b);
				if (e == std::string::npos) e = v.size();
				if (e > b) only.insert(v.substr(b, e - b));
				b = e + 1;
			}
		}
		else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--workers") nWorkers = atoi(val().c_str());
		else if (a == "--cap") cap = atof(val().c_str());
		else if (a == "--seed") gSeed = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--known") knownKeys.push_back(val());
		else if (a == "--thorough") gThorough = true;
		else if (a == "--list") { for (auto & p : props) puts(p.name); return 0; }
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	if (cap == 0) cap = gThorough ? 780 : 200;
	signal(SIGPIPE, SIG_DFL);

	struct ScratchGuard {
		pid_t owner;
		~ScratchGuard() { if (owner == getpid() && !scratchBase.empty()) nftw(scratchBase.c_str(), rmEntry, 16, FTW_DEPTH | FTW_PHYS); }
	} scratchGuard { getpid() };
	{
		char b[] = "/tmp/pbtscratchXXXXXX";
		if (!mkdtemp(b)) { perror("mkdtemp"); return 2; }
		chmod(b, 0755);
		scratchBase = b;
	}
	char logName[] = "/tmp/pbtlogXXXXXX";
	logFd = mkstemp(logName);
	if (logFd < 0) { perror("mkstemp"); return 2; }
	unlink(logName);
	fcntl(logFd, F_SETFD, FD_CLOEXEC);
	fcntl(logFd, F_SETFL, O_APPEND);

	if (!replayFile.empty()) {
		FILE * f = fopen(replayFile.c_str(), "r");
		if (!f) { perror(replayFile.c_str()); return 2; }
		char name[256];
		std::vector<std::vector<uint64_t>> tapes;
		if (fscanf(f, "check %255s", name) != 1) { fprintf(stderr, "bad replay file\n"); return 2; }
		char word[16];
		while (fscanf(f, "%15s", word) == 1 && !strcmp(word, "tape")) {
			unsigned long long v;
			tapes.emplace_back();
			while (fscanf(f, "%llu", &v) == 1) tapes.back().push_back(v);
		}
		fclose(f);
		if (tapes.empty()) { fprintf(stderr, "bad replay file\n"); return 2; }
		S = newShared();
		replaying = true;
		for (auto & p : props)
			if (p.name == std::string(name)) {
				Outcome o = runSeq(p, tapes);
				printf("%s\n", S->notes);
				if (o.ok) { printf("PASS\n"); return 0; }
				printf("FAIL: %s\n", o.what.c_str());
				return 1;
			}
		fprintf(stderr, "no such check: %s\n", name);
		return 2;
	}

	double t0 = now();
	int rc = 0;
	std::string json = "{\"checks\":[";
	std::vector<uint64_t> knownTotal(knownKeys.size());
	bool first = true;
	// share of the time cap by estimated weight: all sub checks get the same
	size_t nProps = 0;
	for (auto & p : props) if (only.empty() || only.count(p.name)) ++nProps;
	size_t kProp = 0;
	for (auto & p : props) {
		if (!only.empty() && !only.count(p.name)) continue;
		++kProp;
		uint64_t total = cases ? cases : gThorough ? p.thorough : p.quick;
		// what earlier checks did not use of their share is available
		double deadline = t0 + cap * kProp / nProps;
		double ts = now();
		auto * firstFail = (volatile uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		*firstFail = UINT64_MAX;
		std::vector<Shared *> sh(nWorkers);
		std::vector<pid_t> pids(nWorkers);
		std::vector<std::string> hf(nWorkers);
		fflush(stdout);
		for (unsigned w = 0; w < nWorkers; ++w) {
			sh[w] = newShared();
			char t[] = "/tmp/pbthashXXXXXX";
			int fd = mkstemp(t);
			close(fd);
			hf[w] = t;
			pid_t pid = fork();
			if (pid < 0) { perror("fork"); return 2; }
			if (!pid) {
				S = sh[w];
				char l[] = "/tmp/pbtlogXXXXXX";
				logFd = mkstemp(l);
				unlink(l);
				fcntl(logFd, F_SETFD, FD_CLOEXEC);
				fcntl(logFd, F_SETFL, O_APPEND);
				worker(p, w, nWorkers, total, deadline, firstFail, hf[w]);
			}
			pids[w] = pid;
		}
		bool workerDied = false;
		for (unsigned w = 0; w < nWorkers; ++w) {
			int st;
			while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {}
			if (!WIFEXITED(st) || WEXITSTATUS(st)) workerDied = true;
		}
		if (workerDied) { fprintf(stderr, "%s: a worker died\n", p.name); return 2; }
		uint64_t ev = 0, nt = 0, di = 0;
		std::map<std::string, uint64_t> labels;
		std::unordered_set<uint64_t> distinct;
		std::vector<std::string> samples;
		bool overflow = false;
		uint64_t nFlaky = 0;
		std::string flakyMsg;
		for (unsigned w = 0; w < nWorkers; ++w) {
			ev += sh[w]->evaluations; nt += sh[w]->nontrivial; di += sh[w]->discards;
			overflow |= sh[w]->tapeOverflow;
			nFlaky += sh[w]->flaky;
			if (sh[w]->nFlakyMsg && flakyMsg.empty()) flakyMsg = sh[w]->flakyMsg;
			for (int i = 0; i < sh[w]->nLabels; ++i) labels[sh[w]->labels[i].name] += sh[w]->labels[i].count;
			for (int i = 0; i < sh[w]->nSamples; ++i)
				if (samples.size() < 4) samples.push_back(sh[w]->samples[i]);
			for (size_t k = 0; k < knownKeys.size() && k < MAX_KNOWN; ++k) knownTotal[k] += sh[w]->knownHits[k];
			FILE * f = fopen(hf[w].c_str(), "rb");
			uint64_t h;
			while (f && fread(&h, sizeof h, 1, f) == 1) distinct.insert(h);
			if (f) fclose(f);
			unlink(hf[w].c_str());
		}
		if (overflow) fprintf(stderr, "%s: warning: tape overflow\n", p.name);
		uint64_t ff = *firstFail;
		std::string replayPath, what;
		bool violated = false, flaky = false;
		if (ff != UINT64_MAX) {
			// reproduce: regenerate the case alone, then shrink it
			S = newShared();
			resetCase();
			fflush(stdout);
			pid_t pid = fork();
			if (!pid) {
				childSetup();
				Gen g{};
				initGen(g, p, ff, total);
				runOne(p, g);
				_exit(EXIT_OK);
			}
			Outcome o = classify(waitChild(pid));
			std::vector<uint64_t> tape(S->tape, S->tape + S->nTape);
			int bad = !o.ok;
			Outcome o2 = o;
			for (int k = 0; k < 3; ++k) {
				Outcome t = runTape(p, tape);
				if (!t.ok) { ++bad; o2 = t; }
			}
			if (bad >= 3) {
				tape = shrink(p, tape, o2.kind, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : gThorough ? 120 : 45);
				int again = 0;
				Outcome last = o2;
				for (int k = 0; k < 3; ++k) {
					Outcome t = runTape(p, tape);
					if (!t.ok) { ++again; last = t; }
				}
				if (again < 2) fprintf(stderr, "%s: shrunk case is unstable (%d/3)\n", p.name, again);
				violated = true;
				what = last.what;
				replayPath = replayDir + "/" + p.name + ".replay";
				writeTape(replayPath, p, { tape }, what);
			} else {
				// schedule dependent: rerun the very case more often before judging
				int hits = bad, tries = 4;
				for (; tries < 40 && hits < 3; ++tries) {
					Outcome t = runTape(p, tape);
					if (!t.ok) { ++hits; o2 = t; }
				}
				unsigned per = std::max(1u, std::min<unsigned>(p.batch, MAX_BATCH));
				std::vector<std::vector<uint64_t>> seq;
				Outcome so { true, 0, "" };
				if (hits == 0 && ff % per) {
					// does it depend on the cases run before it in the same process?
					// (generated in one process, too: what is drawn can depend on the state left behind)
					char tn[] = "/tmp/pbthashXXXXXX";
					int tfd = mkstemp(tn);
					if (tfd < 0) { perror("mkstemp"); return 2; }
					unlink(tn);
					resetCase();
					fflush(stdout);
					pid_t pid = fork();
					if (!pid) {
						childSetup();
						for (uint64_t i = ff - ff % per; i <= ff; ++i) {
							Gen g{};
							initGen(g, p, i, total);
							runOne(p, g);
							std::vector<uint64_t> v { S->nTape };
							v.insert(v.end(), S->tape, S->tape + S->nTape);
							size_t len = v.size() * sizeof v[0];
							if (write(tfd, v.data(), len) != (ssize_t)len) _exit(2);
						}
						_exit(EXIT_OK);
					}
					bool ended = classify(waitChild(pid)).ok;
					off_t off = 0;
					uint64_t nt;
					while (pread(tfd, &nt, sizeof nt, off) == (ssize_t)sizeof nt) {
						std::vector<uint64_t> v(nt);
						if (pread(tfd, v.data(), nt * sizeof nt, off + sizeof nt) != (ssize_t)(nt * sizeof nt)) break;
						off += (1 + nt) * sizeof nt;
						seq.push_back(v);
					}
					close(tfd);
					if (!ended) seq.emplace_back(S->tape, S->tape + S->nTape);
					int n = 0;
					for (int k = 0; k < 3; ++k) { Outcome t = runSeq(p, seq); if (!t.ok) { ++n; so = t; } }
					if (n < 3) so.ok = true;
				}
				if (!so.ok) {
					double end = now() + (gThorough ? 120 : 45);
					for (size_t i = 0; i + 1 < seq.size() && now() < end; ) {
						auto c = seq;
						c.erase(c.begin() + i);
						Outcome t = runSeq(p, c);
						if (!t.ok && t.kind == so.kind) { seq = c; so = t; } else ++i;
					}
					so = runSeq(p, seq);
					violated = true;
					what = so.what + "\n(needs " + std::to_string(seq.size()) + " cases in the same process)";
					replayPath = replayDir + "/" + p.name + ".replay";
					writeTape(replayPath, p, seq, what);
				} else if (hits >= 3 && o2.kind != 4) {
					violated = true;
					what = o2.what + "\n(schedule dependent: reproduced " + std::to_string(hits) + " of "
						+ std::to_string(tries) + " runs)";
					replayPath = replayDir + "/" + p.name + ".replay";
					writeTape(replayPath, p, { tape }, what);
				} else {
					flaky = true;
					what = o2.what;
				}
			}
		}
		double dt = now() - ts;
		printf("%-28s %8llu cases, %llu non-trivial, %llu distinct, %llu discarded, %.1f s%s\n", p.name,
			(unsigned long long)ev, (unsigned long long)nt, (unsigned long long)distinct.size(),
			(unsigned long long)di, dt, violated ? "  VIOLATED" : flaky ? "  (unreproducible failure)" : "");
		for (auto & l : labels)
			printf("    %6.2f%%  %s\n", ev + di ? 100. * l.second / (ev + di) : 0., l.first.c_str());
		if (violated) {
			printf("  case %llu: %s\n", (unsigned long long)ff, what.c_str());
			printf("  replay: %s\n", replayPath.c_str());
			rc = 1;
		} else if (flaky)
			printf("  case %llu failed but did not reproduce: %s\n", (unsigned long long)ff, what.c_str());
		if (nFlaky) {
			printf("  %llu failures could not be met again; %s\n", (unsigned long long)nFlaky, flakyMsg.c_str());
			flaky = true;
			if (what.empty()) what = flakyMsg;
		}
		fflush(stdout);
		if (!first) json += ",";
		first = false;
		json += "{\"name\":" + jsonStr(p.name) + ",\"evaluations\":" + std::to_string(ev) +
			",\"requested\":" + std::to_string(total) +
			",\"nontrivial\":" + std::to_string(nt) + ",\"distinct_nontrivial\":" + std::to_string(distinct.size()) +
			",\"discarded\":" + std::to_string(di) + ",\"rule\":" + jsonStr(p.rule) +
			",\"violated\":" + (violated ? "true" : "false") + ",\"unreproducible\":" + (flaky ? "true" : "false") +
			",\"wall_s\":" + std::to_string(dt) + ",\"failure\":" + jsonStr(what) + ",\"replay\":" + jsonStr(replayPath) +
			",\"labels\":{";
		bool fl = true;
		for (auto & l : labels) {
			if (!fl) json += ",";
			fl = false;
			json += jsonStr(l.first) + ":" + std::to_string(l.second);
		}
		json += "},\"samples\":[";
		for (size_t i = 0; i < samples.size(); ++i)
			json += (i ? "," : "") + jsonStr(samples[i]);
		json += "]}";
		for (auto * m : sh) munmap(m, sizeof(Shared));
	}
	json += "],\"known\":{";
	for (size_t k = 0; k < knownKeys.size(); ++k)
		json += (k ? "," : "") + jsonStr(knownKeys[k]) + ":" + std::to_string(knownTotal[k]);
	json += "}}";
	if (!outFile.empty()) {
		FILE * f = fopen(outFile.c_str(), "w");
		if (!f) { perror(outFile.c_str()); return 2; }
		fprintf(f, "%s\n", json.c_str());
		fclose(f);
	}
	return rc;
}

} // namespace pbt
