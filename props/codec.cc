// C03: escaping and number codecs (src/core/beast.c, src/util/endec.h)
#include "pbt.hh"
#include "beastmodel.hh"
extern "C" {
#include "core/beast.h"
#include "util/endec.h"
}
using namespace pbt;

static void escaping(Gen & g)
{
	size_t n = g.chance(1, 50) ? g.range(0, 70000) : g.small(0, 300);
	Bytes in = genBytes(g, n);
	Bytes want = escape(in);
	note("in %s", hex(in.data(), in.size() < 500 ? in.size() : 500).c_str());
	// exact allocations: any access beyond them is reported by the sanitizer
	uint8_t * src = (uint8_t *)malloc(n ? n : 1);
	memcpy(src, in.data(), n);
	uint8_t fillv = g.byte();
	bool tight = g.chance(1, 2);
	size_t room = tight ? want.size() : 2 * n;
	uint8_t * dst = (uint8_t *)malloc(room ? room : 1);
	memset(dst, fillv, room);
	size_t r = BEAST_encode(dst, src, n);
	REQUIRE(r == want.size(), "returned length %zu, expected %zu", r, want.size());
	REQUIRE(!r || !memcmp(dst, want.data(), r), "output %s", hex(dst, r).c_str());
	for (size_t i = r; i < room; ++i)
		REQUIRE(dst[i] == fillv, "byte %zu behind the output was written", i);
	REQUIRE(!n || !memcmp(src, in.data(), n), "input was modified");
	// unescape restores the input
	Bytes back;
	for (size_t i = 0; i < r; ++i) {
		back.push_back(dst[i]);
		if (dst[i] == 0x1a) { REQUIRE(i + 1 < r && dst[i + 1] == 0x1a, "lone sync at %zu", i); ++i; }
	}
	REQUIRE(back == in, "unescaping does not restore the input");
	free(src);
	free(dst);
	if (want.size() != n) { nontrivial(); label("with sync"); }
	if (n && in.back() == 0x1a) label("sync at the end");
	if (!n) label("empty");
}

static void numbers(Gen & g)
{
	uint8_t * b = (uint8_t *)malloc(10);
	uint64_t v = g.u64();
	unsigned off = g.raw(2); // unaligned access is part of the interface
	note("value %016llx offset %u", (unsigned long long)v, off);
	auto put = [&](unsigned n) { memset(b, 0xA5, 10); for (unsigned i = 0; i < n; ++i) b[off + i] = v >> (8 * (n - 1 - i)); };
	auto be = [&](unsigned n) { uint64_t r = 0; for (unsigned i = 0; i < n; ++i) r = r << 8 | b[off + i]; return r; };
	auto rest = [&](unsigned n) { for (unsigned i = 0; i < 10; ++i) if (i < off || i >= off + n) REQUIRE(b[i] == 0xA5, "byte %u outside was written", i); };
	put(2);
	REQUIRE(ENDEC_tou16(b + off) == (uint16_t)v, "tou16");
	REQUIRE(ENDEC_toi16(b + off) == (int16_t)v, "toi16");
	put(4);
	REQUIRE(ENDEC_tou32(b + off) == (uint32_t)v, "tou32");
	REQUIRE(ENDEC_toi32(b + off) == (int32_t)v, "toi32");
	float f = ENDEC_tofloat(b + off);
	uint32_t fu = v;
	REQUIRE(!memcmp(&f, &fu, 4) || f != f, "tofloat");
	put(8);
	REQUIRE(ENDEC_tou64(b + off) == v, "tou64");
	double d = ENDEC_todouble(b + off);
	REQUIRE(!memcmp(&d, &v, 8) || d != d, "todouble");
	memset(b, 0xA5, 10);
	ENDEC_fromu32(v, b + off);
	REQUIRE(be(4) == (uint32_t)v, "fromu32");
	rest(4);
	memset(b, 0xA5, 10);
	ENDEC_fromu64(v, b + off);
	REQUIRE(be(8) == v, "fromu64");
	rest(8);
	memset(b, 0xA5, 10);
	memcpy(&d, &v, 8);
	ENDEC_fromdouble(d, b + off);
	REQUIRE(be(8) == v || d != d, "fromdouble");
	rest(8);
	free(b);
	if (v > 255) nontrivial();
	label("%d significant bytes", v ? (63 - __builtin_clzll(v)) / 8 + 1 : 0);
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "c03_escape", escaping, 1500000, 20000000, 200, 20,
			"byte strings of 0..70000 bytes (log-uniform length, sync-heavy contents) in exactly sized heap blocks. Non-trivial: contains a sync byte" },
		{ "c03_numbers", numbers, 1500000, 20000000, 200, 20,
			"64 bit patterns (edge values, byte patterns, uniform) through every encoder and decoder at offsets 0..2. Non-trivial: more than one significant byte" },
	});
}
