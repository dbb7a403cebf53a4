// Small property based testing engine.
//
// A case is a sequence of integer choices (the "tape").  Generators draw all
// their randomness from Gen, so a case is a pure function of its tape: replaying
// the tape replays the case, and shrinking works on the tape (delete chunks,
// zero and reduce choices).  Cases run in forked children: crashes, sanitizer
// reports, aborts and hangs of the code under test become ordinary failures.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <initializer_list>
#include <functional>

namespace pbt {

struct Gen {
	// choice in [0, max]; shrinks towards 0
	uint64_t raw(uint64_t max);
	// uniform in [lo, hi]; shrinks towards lo
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo)); }
	// in [lo, hi] with a strong bias to small distances from lo
	int64_t small(int64_t lo, int64_t hi);
	// true with probability num/den; shrinks to false
	bool chance(unsigned num, unsigned den);
	// list continuation flag, expected length avg; shrinks to "stop"
	bool more(double avg);
	// index by weights; shrinks to index 0
	size_t weighted(std::initializer_list<unsigned> w);
	template <typename T> T pick(std::initializer_list<T> l) { return l.begin()[raw(l.size() - 1)]; }
	template <typename T> const T & pick(const std::vector<T> & l) { return l[raw(l.size() - 1)]; }
	// any 64 bit value, biased to edge values
	uint64_t u64();
	uint32_t u32() { return (uint32_t)u64(); }
	uint8_t byte() { return (uint8_t)raw(255); }
	// size parameter of this case in [1, 100] (small cases first)
	unsigned size() const { return sz; }

	// engine internals
	uint64_t s[4];
	const std::vector<uint64_t> * replay = nullptr;
	size_t pos = 0;
	unsigned sz = 100;
	uint64_t rnd();
};

typedef void (*PropFn)(Gen &);

struct Prop {
	const char * name;      // sub check name
	PropFn fn;
	uint64_t quick;         // number of cases, quick tier
	uint64_t thorough;      // number of cases, thorough tier
	unsigned batch;         // cases per forked child
	unsigned timeoutSec;    // per case; a hang is a failure only if it reproduces
	const char * rule;      // generation rule and non-triviality rule
};

// trace line of the current case (shown in replay files and samples)
void note(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
// classify the current case
void label(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
// the current case exercises what the property is about
void nontrivial();
// the property does not hold
[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
// end the case successfully (out of any nesting)
[[noreturn]] void done();
// give up on this case: counted as discarded
[[noreturn]] void discard(const char * why);
// a listed finding: fails like fail() unless key is listed as known finding
[[noreturn]] void failKnown(const char * key, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
bool isReplay();
// directory of this process, removed at the end of the run
const std::string & scratch();

#define REQUIRE(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

std::string hex(const void * p, size_t n);
inline std::string hex(const std::vector<uint8_t> & v) { return hex(v.data(), v.size()); }

int run(int argc, char ** argv, const std::vector<Prop> & props);

} // namespace pbt
