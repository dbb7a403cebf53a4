// C29: the dummy input (src/radarcape/dummy.c) and what the parser makes of it
#include "pbt.hh"
#include "beastmodel.hh"
#include "stub_log.hh"
#include <cerrno>
#include <ctime>
extern "C" {
#include "core/input.h"
#include "radarcape/rc-input.h"
#include "radarcape/rc-parser.h"
}
using namespace pbt;

namespace {
struct Read { timespec clock; std::vector<long> rnd; bool sync = false; };
struct World {
	bool on = false, direct = false;
	std::vector<Read> reads;    // what the environment delivers, replayed in the second pass
	size_t cur = 0, rndPos = 0;
	bool second = false;
	Bytes stream;
	std::vector<size_t> ends;   // end of each read
	std::vector<unsigned> pauses;
	int64_t slept = 0;
	Gen * g = nullptr;
	uint8_t poison = 0;
	int day = 0;
};
World w;
}
static Read & cur()
{
	while (w.reads.size() <= w.cur) {
		Gen & g = *w.g;
		Read r;
		static const time_t base[] = { 0, 1, 86399, 86400, 1500000000, 2147483647, 4102444800 };
		r.clock.tv_sec = g.chance(1, 2) ? base[g.raw(6)] : (time_t)g.raw(0xffffffff);
		if (g.chance(1, 6)) r.clock.tv_sec = r.clock.tv_sec / 86400 * 86400 + g.pick<int>({ 0x1a << 2, 0x1a1a, 0x1a68, 86399, 0x6868 }); // sync bytes in the timestamp
		r.clock.tv_nsec = g.chance(1, 3) ? g.pick<long>({ 0, 999999999, 0x1a1a1a1a, 0x1a, 0x1a00, 1 }) : (long)g.raw(999999999);
		if (g.chance(1, 20)) { // (almost) everything has to be escaped
			r.sync = true;
			r.clock.tv_sec = 26729 + 86400 * (time_t)g.raw(20000);
			r.clock.tv_nsec = 0x1a1a1a1a;
		}
		w.reads.push_back(r);
	}
	return w.reads[w.cur];
}
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec * tp)
{
	if (!w.on) return __real_clock_gettime(id, tp);
	REQUIRE(id == CLOCK_REALTIME, "clock %d asked for the time of day", (int)id);
	*tp = cur().clock;
	return 0;
}
long __real_random(void);
long __wrap_random(void)
{
	if (!w.on) return __real_random();
	Read & r = cur();
	if (w.rndPos == r.rnd.size()) {
		Gen & g = *w.g;
		r.rnd.push_back(r.sync && !g.chance(1, 40) ? (r.rnd.empty() ? 0x99 : 0x1a) : g.chance(1, 3) ? g.pick<long>({ 0x1a, 0x1a1a1a1a, 0, 0x7fffffff, 0x99, 0xff, 99999 }) : (long)g.raw(0x7fffffff));
	}
	return r.rnd[w.rndPos++];
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us)
{
	if (!w.on) return __real_usleep(us);
	REQUIRE(us < 1000000, "sleeping %u us: not allowed by usleep", us);
	w.pauses.push_back(us);
	w.slept += us;
	return 0;
}
static void sleepNs(const struct timespec * t)
{
	REQUIRE(t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "invalid time for sleeping");
	w.pauses.push_back(t->tv_sec * 1000000 + t->tv_nsec / 1000);
	w.slept += w.pauses.back();
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec * t, struct timespec * rem)
{
	if (!w.on) return __real_nanosleep(t, rem);
	sleepNs(t);
	return 0;
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec * t, struct timespec * rem)
{
	if (!w.on || flags) return __real_clock_nanosleep(c, flags, t, rem);
	sleepNs(t);
	return 0;
}
size_t __real_RC_INPUT_read(uint8_t *, size_t);
static __attribute__((noinline)) void poison(uint8_t v)
{
	volatile uint8_t a[4096];
	for (auto & b : a) b = v;
}
size_t __wrap_RC_INPUT_read(uint8_t * buf, size_t len)
{
	poison(w.poison);
	w.rndPos = 0;
	uint8_t * mem = (uint8_t *)malloc(len); // exactly sized
	memset(mem, 0, len);
	size_t n = __real_RC_INPUT_read(mem, len);
	REQUIRE(n > 0 && n <= len, "read %zu bytes into a buffer of %zu", n, len);
	memcpy(buf, mem, n);
	free(mem);
	w.stream.insert(w.stream.end(), buf, buf + n);
	w.ends.push_back(w.stream.size());
	++w.cur;
	return n;
}
}
// decodes one frame at pos strictly; returns its end
static size_t frameAt(const Bytes & s, size_t pos, BFrame & f)
{
	REQUIRE(s[pos] == 0x1a, "byte %zu is %02x, expected the start of a frame", pos, s[pos]);
	REQUIRE(pos + 1 < s.size(), "frame ends after its start");
	f.type = s[pos + 1];
	size_t len = payloadLenOf(f.type);
	REQUIRE(len, "frame of unknown type %02x", f.type);
	Bytes c;
	size_t p = pos + 2;
	while (c.size() < 7 + len) {
		REQUIRE(p < s.size(), "frame cut off after %zu bytes", c.size());
		if (s[p] == 0x1a) {
			REQUIRE(p + 1 < s.size() && s[p + 1] == 0x1a, "unescaped synchronization byte within a frame");
			++p;
		}
		c.push_back(s[p++]);
	}
	f.mlat = 0;
	for (int i = 0; i < 6; ++i) f.mlat = f.mlat << 8 | c[i];
	f.siglevel = c[6];
	f.payload.assign(c.begin() + 7, c.end());
	return p;
}
static void stream(Gen & g)
{
	unsigned lives = 1 + g.chance(1, 4);
	unsigned reads = 1 + g.small(0, 900);
	bool small = g.chance(1, 8);
	size_t bufLen = small ? g.range(1, 44) : g.pick<size_t>({ 43, 44, 64, 128, 1024 });
	Bytes first;
	w = World();
	w.g = &g;
	for (int pass = 0; pass < 2; ++pass) { // the same again with other garbage in memory
		w.second = pass;
		w.poison = pass ? 0x5a : 0;
		w.stream.clear();
		w.ends.clear();
		w.cur = 0;
		for (unsigned life = 0; life < lives; ++life) {
			size_t start = w.stream.size(), startRead = w.cur;
			w.on = true;
			RC_INPUT_init();
			RC_INPUT_connect();
			for (unsigned i = 0; i < reads; ++i) {
				uint8_t b[1024];
				size_t pauses = w.pauses.size();
				__wrap_RC_INPUT_read(b, bufLen);
				REQUIRE(w.pauses.size() > pauses, "no pause after a frame");
			}
			RC_INPUT_disconnect();
			w.on = false;
			if (bufLen < 43) continue; // only what is written counts
			size_t pos = start;
			unsigned n = 0;
			while (pos < w.stream.size()) {
				BFrame f;
				pos = frameAt(w.stream, pos, f);
				const timespec & t = w.reads[startRead + n].clock;
				uint64_t want = (uint64_t)(t.tv_sec % 86400) << 30 | t.tv_nsec;
				REQUIRE(f.mlat == want, "timestamp %012llx in frame %u, expected %012llx (%lld.%09ld)", (unsigned long long)f.mlat, n, (unsigned long long)want, (long long)t.tv_sec, t.tv_nsec);
				REQUIRE(pos == w.ends[startRead + n], "read %u does not end with the frame", n);
				if (!n) REQUIRE(f.type == '4', "the first frame is of type %c", f.type);
				else {
					REQUIRE(f.type == '3', "frame %u is of type %c", n, f.type);
					REQUIRE(f.payload[0] >> 3 == 17 || f.payload[0] >> 3 == 18, "frame %u has downlink format %u", n, f.payload[0] >> 3);
				}
				++n;
			}
			REQUIRE(n == reads, "%u frames after %u reads", n, reads);
		}
		if (!pass) first = w.stream;
	}
	REQUIRE(first == w.stream, "the frames contain uninitialized memory");
	note("%u lives of %u reads with a buffer of %zu, %zu bytes", lives, reads, bufLen, w.stream.size());
	if (small) label("small buffer");
	if (lives > 1) label("restarted");
	if (bufLen >= 43 && reads > 1) nontrivial();
}
static void parsed(Gen & g)
{
	w = World();
	w.g = &g;
	unsigned n = 1 + g.small(0, 400);
	w.on = true;
	if (INPUT_comp.onReset) INPUT_comp.onReset();
	REQUIRE(!INPUT_comp.onConstruct || INPUT_comp.onConstruct(), "construct");
	INPUT_connect();
	size_t pos = 0;
	for (unsigned i = 0; i < n; ++i) {
		OPENSKY_RawFrame raw;
		OPENSKY_DecodedFrame dec;
		REQUIRE(INPUT_getFrame(&raw, &dec), "no frame %u", i);
		BFrame f;
		size_t end = frameAt(w.stream, pos, f);
		REQUIRE(dec.frameType == f.type && dec.mlat == f.mlat && (uint8_t)dec.siglevel == f.siglevel && dec.payloadLen == f.payload.size() && !memcmp(dec.payload, f.payload.data(), f.payload.size()), "frame %u (%s) is decoded differently: type %d mlat %llx sig %x len %zu %s", i, f.str().c_str(), dec.frameType, (unsigned long long)dec.mlat, dec.siglevel, (size_t)dec.payloadLen, hex(Bytes(dec.payload, dec.payload + 14)).c_str());
		REQUIRE(raw.rawLen == end - pos && !memcmp(raw.raw, &w.stream[pos], end - pos), "frame %u has another raw form", i);
		pos = end;
		if (g.chance(1, 200)) { INPUT_disconnect(); INPUT_connect(); label("reconnected"); }
	}
	w.on = false;
	RC_PARSER_Statistics st;
	RC_PARSER_getStatistics(&st);
	REQUIRE(!st.outOfSync && !st.frameTypeUnknown, "out of sync %llu times, %llu unknown frames", (unsigned long long)st.outOfSync, (unsigned long long)st.frameTypeUnknown);
	note("%u frames", n);
	if (n > 1) nontrivial();
}
int main(int argc, char ** argv)
{
	return run(argc, argv, {
#ifdef RAW
		{ "dummy_uninitialized", stream, 6000, 100000, 100, 60, "as dummy_stream, without sanitizers such that the contents of the stack are known" },
#endif
		{ "dummy_stream", stream, 6000, 100000, 100, 60, "clock values (any day, sync bytes in the timestamp), random sequences, buffer sizes, repeated lives of up to 900 reads; each history is replayed with other garbage on the stack; nontrivial: complete frames of several reads" },
		{ "dummy_parsed", parsed, 6000, 100000, 100, 60, "the stream decoded by the parser of the daemon; nontrivial: more than one frame" },
	});
}
