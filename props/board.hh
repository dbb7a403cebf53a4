// Simulated GPIO controllers of the Radarcape with the FPGA and the watchdog attached to them.
// The register pages are inaccessible: every access of the code traps, is shown
// to the model and then executed as a single step.
#pragma once
#include "pbt.hh"
#include "sched.hh"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <map>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
// microseconds
#ifndef BOARD_NOW
#define BOARD_NOW vtime
#endif
using namespace pbt;

static const long BASES[4] = { 0x44e07000, 0x4804c000, 0x481ac000, 0x481ae000 };
enum { OE = 0x134, IN = 0x138, CLEAR = 0x190, SET = 0x194 };

namespace {
struct Board { unsigned confd, dclk, nstat, data0, nconf; };
const Board boards[2] = { { 45, 47, 46, 44, 61 }, { 38, 39, 34, 44, 37 } }; // black, white

int64_t vtime;               // microseconds (where no other clock is given)
char * pages;                // four pages
bool mappedPage[4];
uint32_t latch[4], oe[4], noise[4];
unsigned accesses;

// what the current operation may do; nullptr: anything of the pins listed
bool (*mayWrite)(unsigned ctrl, unsigned reg, uint32_t val);

struct Attempt { int kind; uint64_t errorBit; int64_t syncDelay, doneDelay; };
struct Device {
	bool present = false;
	Board b;
	std::vector<Attempt> plan;
	size_t attempt = 0;      // resets so far
	bool inReset = false, synced = false, error = false, poweredUpDone = false;
	int64_t resetAt = 0, releasedAt = -1, completeAt = -1;
	std::vector<bool> bits;
	const Bytes * file = nullptr;
	bool nconf = false, dclk = false;
	bool success = false;
} dev;
int wdEdges; std::vector<int64_t> wdPulses; bool wdHigh, wdOn;

bool pinLevel(unsigned pin) { return (latch[pin >> 5] >> (pin & 31) & 1) && !(oe[pin >> 5] >> (pin & 31) & 1); }
bool released(unsigned pin) { return pinLevel(pin) || (oe[pin >> 5] >> (pin & 31) & 1); } // pulled up
const Attempt & cur() { static const Attempt none {}; return dev.attempt && dev.attempt <= dev.plan.size() ? dev.plan[dev.attempt - 1] : none; }
bool nstat()
{
	if (!dev.attempt) return true;
	if (dev.inReset || dev.releasedAt < 0) return false;
	if (cur().kind == 1) return false; // no sync
	if (dev.error) return false;
	return BOARD_NOW - dev.releasedAt >= cur().syncDelay;
}
bool confDone()
{
	if (!dev.attempt) return dev.poweredUpDone;
	if (dev.inReset || dev.completeAt < 0 || cur().kind == 3) return false;
	return BOARD_NOW - dev.completeAt >= cur().doneDelay;
}
void pinsChanged()
{
	if (wdOn) {
		bool h = pinLevel(60);
		if (h && !wdHigh) wdPulses.push_back(sched::active() ? sched::now() : 0);
		wdHigh = h;
	}
	if (!dev.present) return;
	bool nconf = released(dev.b.nconf), dclk = pinLevel(dev.b.dclk);
	if (!nconf && !dev.inReset) {
		REQUIRE(!dev.success, "the device is reset although it is configured");
		++dev.attempt;
		if (!sched::active()) note("    reset %zu", dev.attempt); // taking notes is a scheduling point
		REQUIRE(dev.attempt <= 3, "more than three attempts");
		dev.inReset = true;
		dev.resetAt = BOARD_NOW;
		dev.releasedAt = dev.completeAt = -1;
		dev.error = false;
		dev.bits.clear();
	}
	if (nconf && dev.inReset) {
		REQUIRE(BOARD_NOW - dev.resetAt >= 40, "reset pulse of %lld us", (long long)(BOARD_NOW - dev.resetAt));
		dev.inReset = false;
		dev.releasedAt = BOARD_NOW;
	}
	dev.nconf = nconf;
	if (dclk && !dev.dclk) {
		if (!dev.inReset && dev.attempt) {
			REQUIRE(nstat() || dev.error, "data clocked into a device which is not ready");
			bool d = pinLevel(dev.b.data0);
			size_t n = dev.bits.size(), total = dev.file->size() * 8;
			dev.bits.push_back(d);
			if (n < total) {
				bool e = (*dev.file)[n / 8] >> (n % 8) & 1;
				REQUIRE(d == e, "bit %zu of %zu (attempt %zu) is %d, expected %d", n, total, dev.attempt, d, e);
			} else if (dev.completeAt >= 0 && n >= total + 64) fail("too many clock pulses");
			REQUIRE(n < total, "%zu bits clocked, the file has %zu", n + 1, total);
			if (cur().kind == 2 && n == cur().errorBit) dev.error = true;
			if (n + 1 == total && !dev.error) {
				dev.completeAt = BOARD_NOW;
				if (cur().kind == 0) dev.success = true;
			}
		}
	}
	dev.dclk = dclk;
}

// --- traps
struct Trap { unsigned ctrl, reg; bool write; uint32_t before; };
thread_local Trap trap;
struct sigaction oldSegv;
void onSegv(int, siginfo_t * si, void * u)
{
	ucontext_t * c = (ucontext_t *)u;
	char * a = (char *)si->si_addr;
	if (!pages || a < pages || a >= pages + 4 * 4096) {
		sigaction(SIGSEGV, &oldSegv, nullptr); // a real crash
		return;
	}
	++accesses;
	unsigned ctrl = (a - pages) / 4096, reg = (a - pages) % 4096;
	bool write = c->uc_mcontext.gregs[REG_ERR] & 2;
	REQUIRE(mappedPage[ctrl], "access to controller %u, which is not mapped", ctrl);
	REQUIRE(reg == OE || reg == IN || reg == CLEAR || reg == SET, "access to register 0x%x of controller %u", reg, ctrl);
	mprotect(pages + ctrl * 4096, 4096, PROT_READ | PROT_WRITE);
	uint32_t v = reg == OE ? oe[ctrl] : latch[ctrl];
	if (reg == IN) {
		v = (noise[ctrl] & oe[ctrl]) | (latch[ctrl] & ~oe[ctrl]);
		noise[ctrl] = noise[ctrl] * 1664525 + 1013904223;
		if (dev.present) {
			auto put = [&] (unsigned pin, bool on) { if (pin >> 5 == ctrl && (oe[ctrl] >> (pin & 31) & 1)) v = (v & ~(1u << (pin & 31))) | (uint32_t)on << (pin & 31); };
			put(dev.b.nstat, nstat());
			put(dev.b.confd, confDone());
		}
	}
	*(uint32_t *)(pages + ctrl * 4096 + reg) = v;
	trap = { ctrl, reg, write, v };
	c->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
void onTrap(int, siginfo_t *, void * u)
{
	ucontext_t * c = (ucontext_t *)u;
	c->uc_mcontext.gregs[REG_EFL] &= ~0x100;
	Trap & t = trap;
	uint32_t v = *(uint32_t *)(pages + t.ctrl * 4096 + t.reg);
	mprotect(pages + t.ctrl * 4096, 4096, PROT_NONE);
	if (!t.write) return;
	REQUIRE(t.reg != IN, "the input register is written");
	REQUIRE(!mayWrite || mayWrite(t.ctrl, t.reg, v), "0x%08x written to register 0x%x of controller %u", v, t.reg, t.ctrl);
	uint32_t ol = latch[t.ctrl], oo = oe[t.ctrl];
	if (t.reg == SET) latch[t.ctrl] |= v;
	else if (t.reg == CLEAR) latch[t.ctrl] &= ~v;
	else oe[t.ctrl] = v;
	if (ol != latch[t.ctrl] || oo != oe[t.ctrl]) pinsChanged();
}

int memFd = -1, failAt = -1; unsigned maps, fileMaps;
std::map<void *, size_t> live;
bool memOpens = true;
}
static bool fpgaPins(unsigned c, unsigned r, uint32_t v)
{
	uint32_t m = 0;
	for (unsigned p : { dev.b.dclk, dev.b.data0, dev.b.nconf }) if (p >> 5 == c) m |= 1u << (p & 31);
	uint32_t in = 0;
	for (unsigned p : { dev.b.confd, dev.b.nstat }) if (p >> 5 == c) in |= 1u << (p & 31);
	if (r == OE) return !((v ^ oe[c]) & ~(m | in)) && !((v ^ oe[c]) & m & v) && !((v ^ oe[c]) & in & ~v);
	return !(v & ~m);
}
// nothing mapped, any register contents
static void boardReset(pbt::Gen & g)
{
	if (!pages) {
		pages = (char *)mmap(nullptr, 4 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		struct sigaction a {};
		a.sa_sigaction = onSegv;
		a.sa_flags = SA_SIGINFO;
		sigaction(SIGSEGV, &a, &oldSegv);
		a.sa_sigaction = onTrap;
		sigaction(SIGTRAP, &a, nullptr);
	}
	dev = Device();
	wdOn = false;
	mayWrite = nullptr;
	memFd = -1; failAt = -1; maps = 0; memOpens = true; live.clear(); vtime = 0; accesses = 0;
	for (int i = 0; i < 4; ++i) {
		latch[i] = g.chance(1, 4) ? 0 : g.u32();
		oe[i] = g.chance(1, 2) ? 0xffffffff : g.u32();
		noise[i] = g.u32();
		mappedPage[i] = false;
	}
}
extern "C" {
void * __real_mmap(void *, size_t, int, int, int, off_t);
void * __wrap_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	if (memFd < 0 || fd != memFd) {
		void * r = __real_mmap(a, len, prot, flags, fd, off);
		if (fd >= 0 && r != MAP_FAILED) live[r] = len;
		return r;
	}
	for (int i = 0; i < 4; ++i) if (BASES[i] == off) {
		REQUIRE(len == 4096 && prot == (PROT_READ | PROT_WRITE) && (flags & MAP_SHARED), "controller %d mapped with size %zu, protection %d, flags %d", i, len, prot, flags);
		REQUIRE(!mappedPage[i], "controller %d mapped twice", i);
		if (failAt >= 0 && (int)maps++ == failAt) { errno = EPERM; return MAP_FAILED; }
		mappedPage[i] = true;
		return pages + i * 4096;
	}
	fail("address 0x%lx of the physical memory is mapped", (long)off);
}
void * __wrap_mmap64(void * a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __real_munmap(void *, size_t);
int __wrap_munmap(void * a, size_t len)
{
	char * p = (char *)a;
	if (p >= pages && p < pages + 4 * 4096) {
		unsigned i = (p - pages) / 4096;
		REQUIRE(p == pages + i * 4096 && len == 4096, "controller %u unmapped with size %zu at offset %ld", i, len, (long)(p - pages) % 4096);
		REQUIRE(mappedPage[i], "controller %u unmapped though it is not mapped", i);
		mappedPage[i] = false;
		return 0;
	}
	auto it = live.find(a);
	if (it != live.end()) {
		REQUIRE(it->second == len, "file mapping of %zu bytes unmapped with size %zu", it->second, len);
		live.erase(it);
	}
	return __real_munmap(a, len);
}
}
