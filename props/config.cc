// C15-C18: configuration files (src/util/cfgfile.c)
#include "pbt.hh"
#include "stub_log.hh"
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <cerrno>
#include <climits>
#include <cmath>
#include <cstring>
#include <strings.h>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <algorithm>
#include <string>
extern "C" {
#include "util/cfgfile.h"
}
using namespace pbt;
typedef std::string S;

// ---------------------------------------------------------------- exact file mapping
// the mapping has exactly the size of the file: every access beyond it is detected
static std::map<void *, size_t> maps;
static bool exactMaps = true;
extern "C" {
void * __real_mmap(void *, size_t, int, int, int, off_t);
static char * arena; // between two inaccessible pages, as functions of the C library are not instrumented
static const size_t ARENA = 1 << 16, PAGE = 4096;
static bool arenaUsed;
void * __wrap_mmap(void * a, size_t len, int prot, int flags, int fd, off_t off)
{
	struct stat st;
	if (!exactMaps || fd < 0 || !len || fstat(fd, &st) || !S_ISREG(st.st_mode)) return __real_mmap(a, len, prot, flags, fd, off);
	if (!arena) {
		arena = (char *)__real_mmap(nullptr, ARENA + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + PAGE;
		mprotect(arena, ARENA, PROT_READ | PROT_WRITE);
		memset(arena, '~', ARENA);
		ASAN_POISON_MEMORY_REGION(arena, ARENA);
	}
	void * p;
	if (arenaUsed || len > ARENA) p = malloc(len);
	else {
		arenaUsed = true;
		p = len % 3 ? arena + ARENA - len : arena;
		ASAN_UNPOISON_MEMORY_REGION(p, len);
	}
	REQUIRE(pread(fd, p, len, off) == (ssize_t)len, "mapping more than the file");
	maps[p] = len;
	return p;
}
int __real_munmap(void *, size_t);
int __wrap_munmap(void * p, size_t len)
{
	auto i = maps.find(p);
	if (i == maps.end()) return __real_munmap(p, len);
	REQUIRE(i->second == len, "unmapping %zu bytes of %zu", len, i->second);
	if ((char *)p >= arena && (char *)p < arena + ARENA) {
		memset(p, '~', len);
		ASAN_POISON_MEMORY_REGION(arena, ARENA);
		arenaUsed = false;
	} else free(p);
	maps.erase(i);
	return 0;
}
}

static void writeFile(const S & path, const S & content)
{
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	REQUIRE(fd >= 0 && write(fd, content.data(), content.size()) == (ssize_t)content.size(), "harness: cannot write %s", path.c_str());
	close(fd);
}
static S readBack(const S & path)
{
	S r;
	int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
	char b[4096];
	ssize_t n;
	while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	if (fd >= 0) close(fd);
	return r;
}
static size_t openFds()
{
	size_t n = 0;
	for (int i = 0; i < 64; ++i) if (fcntl(i, F_GETFD) >= 0) ++n;
	return n;
}
static S show(const S & s)
{
	S r;
	for (unsigned char c : s) {
		if (c == '\n') r += "\\n\n    ";
		else if (c == '\r') r += "\\r";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += c;
	}
	return r;
}
static S lower(S s) { for (auto & c : s) c = tolower((unsigned char)c); return s; }

// ---------------------------------------------------------------- sections
struct Val {
	uint64_t i = 0;
	double d = 0;
	S s;
	bool given = false;
};
struct Opt {
	S name;
	CFG_VALUE_TYPE type;
	void * var;
	bool * given;
	size_t maxlen = 0;
	bool defaultEmpty = false;
	Val def;
	char * defString = nullptr;
	Val cur; // model
};
struct Sect {
	S name;
	CFG_Section * cs;
	std::vector<Opt> opts;
	bool checkResult = true, hasFix = false;
	int fixed = 0;
};
static std::vector<Sect> * cur;
static Sect & sectOf(const CFG_Section * cs)
{
	for (auto & s : *cur) if (s.cs == cs) return s;
	fail("callback with an unknown section");
}
static void fixCb(const CFG_Section * cs) { ++sectOf(cs).fixed; }
static bool checkCb(const CFG_Section * cs) { return sectOf(cs).checkResult; }

static Val getVar(const Opt & o)
{
	Val v;
	switch (o.type) {
	case CFG_VALUE_TYPE_STRING: {
		const char * e = (const char *)memchr(o.var, 0, o.maxlen);
		REQUIRE(e, "the string option %s of %zu bytes is not terminated", o.name.c_str(), o.maxlen);
		v.s = (const char *)o.var;
		break;
	}
	case CFG_VALUE_TYPE_INT: v.i = *(uint32_t *)o.var; break;
	case CFG_VALUE_TYPE_PORT: v.i = *(uint_fast16_t *)o.var; break;
	case CFG_VALUE_TYPE_BOOL: v.i = *(unsigned char *)o.var; REQUIRE(v.i <= 1, "boolean option %s is %u", o.name.c_str(), (unsigned)v.i); break;
	case CFG_VALUE_TYPE_DOUBLE: v.d = *(double *)o.var; break;
	}
	if (o.given) { REQUIRE(*(unsigned char *)o.given <= 1, "given flag"); v.given = *o.given; }
	return v;
}
static void setVar(Opt & o, const Val & v)
{
	switch (o.type) {
	case CFG_VALUE_TYPE_STRING: memset(o.var, 0, o.maxlen); memcpy(o.var, v.s.data(), v.s.size()); break;
	case CFG_VALUE_TYPE_INT: *(uint32_t *)o.var = v.i; break;
	case CFG_VALUE_TYPE_PORT: *(uint_fast16_t *)o.var = v.i; break;
	case CFG_VALUE_TYPE_BOOL: *(bool *)o.var = v.i; break;
	case CFG_VALUE_TYPE_DOUBLE: *(double *)o.var = v.d; break;
	}
	if (o.given) *o.given = v.given;
}
static S text(const Opt & o, const Val & v)
{
	char b[64];
	switch (o.type) {
	case CFG_VALUE_TYPE_STRING: return "'" + v.s + "'";
	case CFG_VALUE_TYPE_DOUBLE: snprintf(b, sizeof b, "%.17g", v.d); return b;
	default: return std::to_string(v.i);
	}
}
static bool same(const Opt & o, const Val & a, const Val & b)
{
	if (o.type == CFG_VALUE_TYPE_STRING) return a.s == b.s;
	if (o.type == CFG_VALUE_TYPE_DOUBLE) return a.d == b.d || (std::isnan(a.d) && std::isnan(b.d));
	return a.i == b.i;
}
static void checkAll(const char * when)
{
	for (auto & s : *cur)
		for (auto & o : s.opts) {
			Val v = getVar(o);
			REQUIRE(same(o, v, o.cur), "%s: %s.%s is %s, expected %s", when, s.name.c_str(), o.name.c_str(), text(o, v).c_str(), text(o, o.cur).c_str());
			if (o.given) REQUIRE(v.given == o.cur.given, "%s: the given flag of %s.%s is %d, expected %d", when, s.name.c_str(), o.name.c_str(), v.given, o.cur.given);
		}
}
static const char * const NAMES[] = { "Alpha", "BETA", "gamma", "Delta-4", "Eps_5", "Zeta Eta", "I", "Port", "History", "GC", "GCLevel", "x1y2" };

static char genChar(Gen & g)
{
	// anything a string value can contain
	unsigned c = g.chance(3, 4) ? g.range(33, 126) : g.range(1, 255);
	if (c == '\n' || c == '\r') c = '=';
	return c;
}
static S genString(Gen & g, size_t maxLen)
{
	S s;
	size_t n = g.chance(1, 6) ? maxLen : g.small(1, maxLen);
	for (size_t i = 0; i < n; ++i) s += g.chance(1, 8) ? g.pick({ ' ', '\t', '=', ';', '#', '[', ']' }) : genChar(g);
	if (!s.empty() && isspace((unsigned char)s[0])) s[0] = 'v';
	if (!s.empty() && s.back() == '\r') s.back() = 'v';
	return s;
}
static double genDouble(Gen & g)
{
	switch (g.weighted({ 4, 2, 1, 1 })) {
	case 0: return (double)g.range(-180000000, 180000000) / 1e6;
	case 1: return g.range(-100, 100);
	case 2: { double d = g.u64() / 1e3; return g.chance(1, 2) ? -d : d; }
	default: return std::ldexp((double)g.range(-1000000, 1000000), g.range(-80, 80));
	}
}
static Val genVal(Gen & g, const Opt & o)
{
	Val v;
	switch (o.type) {
	case CFG_VALUE_TYPE_STRING: if (o.maxlen > 1) v.s = genString(g, o.maxlen - 1); break;
	case CFG_VALUE_TYPE_INT: v.i = g.u32(); break;
	case CFG_VALUE_TYPE_PORT: v.i = g.u32() & 0xffff; break;
	case CFG_VALUE_TYPE_BOOL: v.i = g.raw(1); break;
	case CFG_VALUE_TYPE_DOUBLE: v.d = genDouble(g); break;
	}
	return v;
}

struct Config {
	std::vector<Sect> sects;
	~Config()
	{
		for (auto & s : sects) {
			for (auto & o : s.opts) { free(o.var); free(o.given); free(o.defString); }
			free(s.cs);
		}
	}
};
static void addSection(Gen & g, Config & c, const S & name, size_t nOpts, bool longDefaults)
{
	c.sects.emplace_back();
	Sect & s = c.sects.back();
	s.name = name;
	std::set<S> used;
	for (auto & o : c.sects) if (lower(o.name) == lower(name)) for (auto & p : o.opts) used.insert(lower(p.name));
	for (size_t i = 0; i < nOpts; ++i) {
		Opt o;
		o.name = NAMES[g.raw(sizeof NAMES / sizeof *NAMES - 1)];
		while (used.count(lower(o.name))) o.name += (char)('a' + g.raw(25));
		used.insert(lower(o.name));
		o.type = (CFG_VALUE_TYPE)g.raw(4);
		if (o.type == CFG_VALUE_TYPE_STRING) o.maxlen = g.chance(1, 8) ? g.range(1, 4) : g.range(2, 40);
		size_t sz = o.type == CFG_VALUE_TYPE_STRING ? o.maxlen : o.type == CFG_VALUE_TYPE_INT ? sizeof(uint32_t) :
			o.type == CFG_VALUE_TYPE_PORT ? sizeof(uint_fast16_t) : o.type == CFG_VALUE_TYPE_BOOL ? sizeof(bool) : sizeof(double);
		o.var = malloc(sz);
		memset(o.var, 0xaa, sz);
		o.given = g.chance(1, 2) ? (bool *)calloc(1, 1) : nullptr;
		o.defaultEmpty = o.given && g.chance(1, 2);
		o.def = genVal(g, o);
		if (o.type == CFG_VALUE_TYPE_STRING) {
			if (longDefaults && g.chance(1, 4)) o.def.s = genString(g, o.maxlen + 5);
			if (g.chance(1, 4)) o.def.s.clear();
		}
		if (o.type == CFG_VALUE_TYPE_STRING && (!o.def.s.empty() || g.chance(1, 2))) o.defString = strdup(o.def.s.c_str());
		s.opts.push_back(o);
	}
	s.cs = (CFG_Section *)calloc(1, sizeof(CFG_Section) + nOpts * sizeof(CFG_Option));
	s.cs->n_opt = nOpts;
	s.hasFix = g.chance(1, 2);
	if (s.hasFix) s.cs->fix = fixCb;
	s.checkResult = !g.chance(1, 6);
	if (g.chance(1, 2)) s.cs->check = checkCb; else s.checkResult = true;
}
static void genConfig(Gen & g, Config & c, bool longDefaults)
{
	static const char * const SECTS[] = { "NETWORK", "Buffer", "gps", "Device 2", "a", "IN-PUT" };
	size_t n = 1 + g.small(0, 4);
	for (size_t i = 0; i < n; ++i) {
		S name = SECTS[g.raw(5)];
		if (g.chance(1, 3)) name = lower(name);
		addSection(g, c, name, g.small(0, 5) + (i == 0), longDefaults);
	}
	// pointers are stable from here on
	for (auto & s : c.sects) {
		s.cs->name = s.name.c_str();
		for (size_t i = 0; i < s.opts.size(); ++i) {
			Opt & o = s.opts[i];
			CFG_Option & p = s.cs->options[i];
			p.name = o.name.c_str();
			p.type = o.type;
			p.var = o.var;
			p.given = o.given;
			p.maxlen = o.maxlen;
			p.defaultEmpty = o.defaultEmpty;
			switch (o.type) {
			case CFG_VALUE_TYPE_STRING: p.def.string = o.defString; break;
			case CFG_VALUE_TYPE_INT: p.def.integer = o.def.i; break;
			case CFG_VALUE_TYPE_PORT: p.def.port = o.def.i; break;
			case CFG_VALUE_TYPE_BOOL: p.def.boolean = o.def.i; break;
			case CFG_VALUE_TYPE_DOUBLE: p.def.dbl = o.def.d; break;
			}
			S d;
			note("[%s] %s: type %d maxlen %zu default %s given %d", s.name.c_str(), o.name.c_str(), o.type, o.maxlen, text(o, o.def).c_str(), !!o.given);
		}
	}
	cur = &c.sects;
	CFG_unregisterAll();
	for (auto & s : c.sects) CFG_registerSection(s.cs);
}
static void modelDefaults()
{
	for (auto & s : *cur) for (auto & o : s.opts) { o.cur = o.def; o.cur.given = false; }
}
static S anyCase(Gen & g, S s)
{
	unsigned k = g.raw(3);
	if (k == 1) s = lower(s);
	else if (k == 2) for (auto & c : s) c = toupper((unsigned char)c);
	else if (k == 3) for (auto & c : s) c = g.chance(1, 2) ? toupper((unsigned char)c) : tolower((unsigned char)c);
	return s;
}
static S blanks(Gen & g)
{
	S s;
	while (g.chance(1, 3) && s.size() < 5) s += g.chance(1, 4) ? '\t' : ' ';
	return s;
}
static S numText(Gen & g, uint64_t v)
{
	char b[32];
	switch (g.weighted({ 5, 1, 1, 1 })) {
	case 0: snprintf(b, sizeof b, "%llu", (unsigned long long)v); break;
	case 1: snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); break;
	case 2: snprintf(b, sizeof b, "0X%llX", (unsigned long long)v); break;
	default: snprintf(b, sizeof b, "0%llo", (unsigned long long)v); break;
	}
	return b;
}
static S garbage(Gen & g, const S & s, size_t max)
{
	if (!g.chance(1, 8)) return s;
	S t = g.pick({ S(" "), S(",5"), S(";comment"), S("_"), S(" 7"), S("\t"), S("ghz") });
	return s.size() + t.size() <= max ? s + t : s;
}
// a value and what it means; false: unparsable
static bool genValueText(Gen & g, const Opt & o, S & txt, Val & v)
{
	bool bad = g.chance(1, 10);
	v = genVal(g, o);
	v.given = true;
	switch (o.type) {
	case CFG_VALUE_TYPE_STRING:
		if (o.maxlen == 1) { txt = "x"; return false; }
		txt = v.s;
		if (bad) { txt = genString(g, 10); while (txt.size() < o.maxlen) txt += 'l'; return false; }
		return true;
	case CFG_VALUE_TYPE_INT:
	case CFG_VALUE_TYPE_PORT:
		if (bad) {
			switch (g.raw(2)) {
			case 0: txt = g.pick({ S("abc"), S("-"), S("yes"), S("=5"), S(";"), S("none") }); break;
			case 1: { // out of range
				uint64_t top = o.type == CFG_VALUE_TYPE_PORT ? 0x10000ull : 0x100000000ull;
				uint64_t x = top + (g.chance(1, 2) ? g.small(0, 100000) : g.raw(99999999999999999ull));
				if (o.type == CFG_VALUE_TYPE_PORT && g.chance(1, 3)) x = 0x100000000ull + v.i;
				txt = std::to_string(x);
				break;
			}
			default: txt = S(g.range(20, 40), '1'); break;
			}
			return false;
		}
		txt = garbage(g, numText(g, v.i), 19);
		return true;
	case CFG_VALUE_TYPE_BOOL:
		if (bad) { txt = g.pick({ S("yes"), S("2"), S("tru"), S("truee"), S("01"), S("no"), S("0.0"), S("trux") }); return false; }
		txt = g.chance(1, 3) ? S(v.i ? "1" : "0") : anyCase(g, v.i ? "true" : "false");
		return true;
	default: {
		if (bad) { txt = g.chance(1, 2) ? g.pick({ S("north"), S("-"), S("."), S(";1"), S("e5") }) : S(g.range(60, 80), '1'); return false; }
		char b[64];
		snprintf(b, sizeof b, "%.*g", (int)g.range(1, 17), v.d);
		if (g.chance(1, 10)) snprintf(b, sizeof b, "%.*ge-%u", (int)g.range(1, 17), v.d < 0 ? -1.5 : 2.25, (unsigned)g.range(300, 420)); // denormal or zero
		if (g.chance(1, 4) && std::fabs(v.d) < 1e15) snprintf(b, sizeof b, "%.6f", v.d);
		v.d = strtod(b, nullptr);
		txt = garbage(g, b, 59);
		return true;
	}
	}
}
static Opt * findOpt(const S & section, const S & key)
{
	for (auto & s : *cur)
		if (lower(s.name) == lower(section))
			for (auto & o : s.opts) if (lower(o.name) == lower(key)) return &o;
	return nullptr;
}
struct GenFile {
	S content;
	size_t assignments = 0, bad = 0;
};
static Gen * G;
static S commentLine(Gen & g)
{
	S t = g.chance(1, 2) ? ";" : "#";
	size_t n = g.small(0, 20);
	for (size_t i = 0; i < n; ++i) t += g.chance(1, 5) ? g.pick({ '=', '[', ']', ' ', ';' }) : genChar(g);
	return t;
}
// generate a well-formed file and apply it to the model
static GenFile genFile(Gen & g, bool useDefault, bool allowBad)
{
	GenFile f;
	S section;      // current section, "" none
	bool known = false, stopped = false;
	std::vector<S> lines;
	size_t n = g.chance(1, 12) ? 0 : g.small(1, 20);
	// whatever happened before must not matter
	errno = g.pick({ 0, 0, ERANGE, EINVAL, ENOENT, EINTR });
	auto openSection = [&](const S & name, bool k) {
		section = name;
		known = k;
		lines.push_back("[" + anyCase(g, name) + "]");
	};
	if (!g.chance(1, 8)) openSection((*cur)[g.raw(cur->size() - 1)].name, true);
	for (size_t i = 0; i < n; ++i) {
		switch (g.weighted({ 24, 6, 2, 4, 4, 2, 1 })) {
		case 6: // a line which is no assignment
			if (!allowBad) break;
			lines.push_back(g.pick({ S("word"), S("two words"), S("Port"), S("x ; y"), S("]"), S("Alpha [") }));
			++f.bad;
			if (!useDefault) stopped = true;
			label("line without '='");
			break;
		case 0: { // option of the current section (or any)
			Opt * o = nullptr;
			if (known) {
				std::vector<Opt *> all;
				for (auto & s : *cur) if (lower(s.name) == lower(section)) for (auto & p : s.opts) all.push_back(&p);
				if (!all.empty() && g.chance(5, 6)) o = all[g.raw(all.size() - 1)];
			}
			S key, txt;
			Val v;
			bool ok = true;
			if (o) {
				key = o->name;
				if (g.chance(1, 7)) txt = "";
				else {
					ok = genValueText(g, *o, txt, v);
					if (!ok && !allowBad) { ok = true; txt = ""; }
				}
				if (!stopped) {
					if (txt.empty() || (!ok && useDefault)) { o->cur = o->def; o->cur.given = false; }
					else if (!ok) stopped = true;
					else o->cur = v;
				}
				++f.assignments;
				if (!ok) ++f.bad;
			} else {
				key = g.chance(1, 6) ? "" : NAMES[g.raw(11)]; // also lines without a name
				if (findOpt(section, key) && known) key += "-unknown";
				Opt dummy;
				dummy.type = CFG_VALUE_TYPE_STRING;
				dummy.maxlen = 30;
				genValueText(g, dummy, txt, v);
			}
			lines.push_back(anyCase(g, key) + blanks(g) + "=" + blanks(g) + txt);
			break;
		}
		case 1: openSection((*cur)[g.raw(cur->size() - 1)].name, true); break;
		case 2: { S nme = g.pick({ S("unknown"), S("NET"), S("BUFFER2"), S(""), S("a b") }); bool k = false; for (auto & s : *cur) k |= lower(s.name) == lower(nme); openSection(nme, k); break; }
		case 3: lines.push_back(commentLine(g)); break;
		case 4: lines.push_back(""); break;
		default: // option outside of its section
			if (!known) lines.push_back("Port = 5");
		}
	}
	bool crlf = g.chance(1, 4), mixed = g.chance(1, 8);
	for (size_t i = 0; i < lines.size(); ++i) {
		f.content += lines[i];
		if (i + 1 == lines.size() && g.chance(1, 4)) break; // no newline at the end of the file
		if (mixed ? g.chance(1, 2) : crlf) f.content += '\r';
		f.content += '\n';
	}
	return f;
}
static void apiSet(Gen & g)
{
	Sect & s = (*cur)[g.raw(cur->size() - 1)];
	if (s.opts.empty()) return;
	Opt & o = s.opts[g.raw(s.opts.size() - 1)];
	Val v = genVal(g, o);
	S sn = anyCase(g, s.name), on = anyCase(g, o.name);
	switch (o.type) {
	case CFG_VALUE_TYPE_STRING: {
		if (g.chance(1, 4)) v.s = genString(g, o.maxlen + 5);
		if (g.chance(1, 6)) v.s.clear();
		CFG_setString(sn.c_str(), on.c_str(), v.s.c_str());
		v.s = v.s.substr(0, o.maxlen - 1);
		break;
	}
	case CFG_VALUE_TYPE_INT: CFG_setInteger(sn.c_str(), on.c_str(), v.i); break;
	case CFG_VALUE_TYPE_PORT: CFG_setPort(sn.c_str(), on.c_str(), v.i); break;
	case CFG_VALUE_TYPE_BOOL: CFG_setBoolean(sn.c_str(), on.c_str(), v.i); break;
	case CFG_VALUE_TYPE_DOUBLE: CFG_setDouble(sn.c_str(), on.c_str(), v.d); break;
	}
	v.given = o.cur.given;
	note("set %s.%s to %s", sn.c_str(), on.c_str(), text(o, v).c_str());
	o.cur = v;
}

// ---------------------------------------------------------------- C15
static void cfgParse(Gen & g)
{
	Config c;
	genConfig(g, c, false);
	CFG_loadDefaults();
	modelDefaults();
	checkAll("after loading the defaults");
	S path = scratch() + "/openskyd.conf";
	size_t files = 1 + g.small(0, 2), assigned = 0;
	for (size_t i = 0; i < files; ++i) {
		if (g.chance(1, 4)) { apiSet(g); checkAll("after setting an option"); }
		bool useDefault = !g.chance(1, 3);
		GenFile f = genFile(g, useDefault, true);
		note("read with %s:\n    %s", useDefault ? "defaults on error" : "failure on error", show(f.content).c_str());
		writeFile(path, f.content);
		for (auto & s : c.sects) s.fixed = 0;
		size_t fds = openFds();
		bool ok = CFG_readFile(path.c_str(), g.chance(1, 2), g.chance(1, 2), useDefault);
		REQUIRE(openFds() == fds, "reading leaked a descriptor");
		REQUIRE(maps.empty(), "the file is still mapped");
		if (!useDefault && f.bad) {
			REQUIRE(!ok, "a value could not be parsed, but reading the file succeeded");
			label("failing read");
			CFG_loadDefaults();
			modelDefaults();
			continue;
		}
		REQUIRE(ok, "reading the file failed");
		checkAll("after reading");
		for (auto & s : c.sects) if (s.hasFix) REQUIRE(s.fixed == 1, "the fix callback of %s was called %d times", s.name.c_str(), s.fixed);
		bool all = true;
		for (auto & s : c.sects) all &= s.checkResult;
		REQUIRE(CFG_check() == all, "CFG_check is %d", !all);
		assigned += f.assignments;
		if (f.bad) label("unparsable values");
		if (f.content.find('\r') != S::npos) label("CR LF");
		if (!f.content.empty() && f.content.back() != '\n') label("no final newline");
	}
	if (assigned >= 2) nontrivial();
	REQUIRE(!CFG_readFile((scratch() + "/missing.conf").c_str(), true, true, true), "a missing file was read");
	checkAll("after reading a missing file");
	CFG_unregisterAll();
}

// ---------------------------------------------------------------- C16
static void cfgRobust(Gen & g)
{
	Config c;
	genConfig(g, c, true);
	CFG_loadDefaults();
	modelDefaults();
	for (auto & s : c.sects) for (auto & o : s.opts) if (o.type == CFG_VALUE_TYPE_STRING) o.cur.s = o.def.s.substr(0, o.maxlen - 1);
	checkAll("after loading the defaults");
	if (g.chance(1, 3)) { apiSet(g); checkAll("after setting an option"); }
	S content;
	std::vector<Val> before; // (generating a file changes the model)
	for (auto & s : c.sects) for (auto & o : s.opts) before.push_back(o.cur);
	if (g.chance(3, 4)) { content = genFile(g, true, true).content; label("mutated file"); }
	size_t bi = 0;
	for (auto & s : c.sects) for (auto & o : s.opts) o.cur = before[bi++];
	size_t n = g.small(0, 12);
	for (size_t i = 0; i < n; ++i) {
		size_t at = g.raw(content.size());
		static const char SPECIAL[] = "\n\r=[]; \t#\0" "0aA";
		switch (g.raw(6)) {
		case 0: content.insert(at, 1, SPECIAL[g.raw(sizeof SPECIAL - 2)]); break;
		case 1: content.insert(at, 1, (char)g.byte()); break;
		case 2: content.erase(at, g.small(1, 10)); break;
		case 3: content.resize(at); break;
		case 4: if (!content.empty()) content[g.raw(content.size() - 1)] = SPECIAL[g.raw(sizeof SPECIAL - 2)]; break;
		case 5: { // overlong stuff
			S t(g.chance(1, 6) ? g.range(600, 5000) : g.range(1, 80), g.pick({ 'x', ' ', '=', '[', '1', '\r' }));
			content.insert(at, t);
			break;
		}
		default: { // a real name
			Sect & s = c.sects[g.raw(c.sects.size() - 1)];
			S t = "[" + s.name + "]\n";
			if (!s.opts.empty() && g.chance(2, 3)) {
				Opt & o = s.opts[g.raw(s.opts.size() - 1)];
				t = (g.chance(1, 2) ? "\n" + t : S()) + o.name + g.pick({ S(" = "), S("="), S(""), S(" =\r\n"), S("=\r"), S("= \n"), S(" =") });
			}
			content.insert(at, t);
		}
		}
	}
	note("content (%zu bytes):\n    %s", content.size(), show(content).c_str());
	if (content.size() >= 2) nontrivial();
	if (content.empty()) label("empty file");
	if (!content.empty() && content.back() != '\n') label("no final newline");
	S path = scratch() + "/openskyd.conf";
	writeFile(path, content);
	size_t fds = openFds();
	bool ok = CFG_readFile(path.c_str(), g.chance(1, 2), g.chance(1, 2), g.chance(1, 2));
	if (ok) label("accepted");
	REQUIRE(openFds() == fds, "reading leaked a descriptor");
	REQUIRE(maps.empty(), "the file is still mapped");
	for (auto & s : c.sects)
		for (auto & o : s.opts) {
			Val v = getVar(o);
			if (same(o, v, o.cur)) continue;
			Val d = o.def;
			if (o.type == CFG_VALUE_TYPE_STRING) d.s = d.s.substr(0, o.maxlen - 1);
			if (same(o, v, d)) continue;
			// from the file
			if (o.type == CFG_VALUE_TYPE_STRING) REQUIRE(content.find(v.s) != S::npos, "%s.%s = %s is not a part of the file", s.name.c_str(), o.name.c_str(), text(o, v).c_str());
			else if (o.type == CFG_VALUE_TYPE_PORT) REQUIRE(v.i <= 0xffff, "%s.%s = %llu is not a port", s.name.c_str(), o.name.c_str(), (unsigned long long)v.i);
			if (o.type != CFG_VALUE_TYPE_STRING) {
				// some '=' is followed by a text which means this value
				bool found = false;
				for (size_t p = content.find('='); p != S::npos && !found; p = content.find('=', p + 1)) {
					size_t e = content.find('\n', p);
					S t = content.substr(p + 1, e == S::npos ? S::npos : e - p - 1);
					size_t b = t.find_first_not_of(" \t\r\v\f");
					if (b == S::npos) continue;
					t = t.substr(b);
					if (t.back() == '\r') t.pop_back();
					if (o.type == CFG_VALUE_TYPE_BOOL) found = lower(t) == (v.i ? "true" : "false") || t == (v.i ? "1" : "0");
					else if (o.type == CFG_VALUE_TYPE_DOUBLE) { double x = strtod(t.c_str(), nullptr); found = x == v.d || (std::isnan(x) && std::isnan(v.d)); }
					else found = strtoull(t.c_str(), nullptr, 0) == v.i;
				}
				REQUIRE(found, "%s.%s = %s comes neither from the file nor from the defaults", s.name.c_str(), o.name.c_str(), text(o, v).c_str());
			}
			label("value taken over");
		}
	CFG_unregisterAll();
}

// ---------------------------------------------------------------- C17
static void cfgWrite(Gen & g)
{
	Config c;
	genConfig(g, c, false);
	CFG_loadDefaults();
	modelDefaults();
	size_t changed = 0;
	std::vector<std::pair<Opt *, Val>> want;
	for (auto & s : c.sects)
		for (auto & o : s.opts) {
			Val v = o.def;
			if (g.chance(2, 3)) {
				v = genVal(g, o);
				if (o.type == CFG_VALUE_TYPE_STRING && v.s.empty()) v = o.def; // (an empty value is the default)
				v.given = true;
				++changed;
			}
			if (o.type == CFG_VALUE_TYPE_DOUBLE && !(std::fabs(v.d) < 1e15)) v.d = 0;
			if (o.type == CFG_VALUE_TYPE_DOUBLE && !(std::fabs(o.def.d) < 1e15)) v.given = true;
			setVar(o, v);
			o.cur = v;
		}
	S path = scratch() + "/openskyd.conf";
	bool single = g.chance(1, 3);
	size_t which = g.raw(c.sects.size() - 1);
	if (g.chance(1, 6)) writeFile(path, S(g.range(0, 3000), 'x')); // an old file is replaced
	size_t fds = openFds();
	bool ok = single ? CFG_writeSection(path.c_str(), c.sects[which].cs) : CFG_write(path.c_str());
	REQUIRE(ok, "writing failed");
	REQUIRE(openFds() == fds, "writing leaked a descriptor");
	S content = readBack(path);
	note("%s:\n    %s", single ? "wrote section" : "wrote", show(content).c_str());
	{ // every option is found there once, below the only heading of its section
		std::map<S, size_t> count;
		S sect;
		for (size_t at = 0; at < content.size();) {
			size_t e = content.find('\n', at), q;
			S line = content.substr(at, e - at);
			at = e == S::npos ? content.size() : e + 1;
			if (!line.empty() && line[0] == '[') { sect = lower(line); ++count[sect]; }
			else if ((q = line.find(" =")) != S::npos) ++count[sect + lower(line.substr(line.compare(0, 2, "; ") ? 0 : 2, q - (line.compare(0, 2, "; ") ? 0 : 2)))];
		}
		size_t wanted = 0;
		std::set<S> heads;
		for (size_t i = 0; i < c.sects.size(); ++i) if (!single || i == which) { heads.insert(lower(c.sects[i].name)); wanted += c.sects[i].opts.size(); }
		for (auto & x : count) REQUIRE(x.second == 1, "%s is in the file %zu times", x.first.c_str(), x.second);
		REQUIRE(count.size() == heads.size() + wanted, "%zu headings and options are in the file, expected %zu + %zu", count.size(), heads.size(), wanted);
	}
	checkAll("after writing");
	// any other state
	for (size_t i = 0; i < c.sects.size(); ++i)
		for (auto & o : c.sects[i].opts) {
			Val v = genVal(g, o);
			v.given = g.chance(1, 2);
			bool empty = o.given && !o.cur.given && o.defaultEmpty;
			if (empty) { v = o.def; v.given = false; }
			setVar(o, v);
			if ((single && i != which) || empty) o.cur = v;
			else o.cur.given = true;
			// default value written out: whether it counts as given is left open
		}
	ok = CFG_readFile(path.c_str(), true, true, g.chance(1, 2));
	REQUIRE(ok, "the written file cannot be read");
	for (size_t i = 0; i < c.sects.size(); ++i)
		for (auto & o : c.sects[i].opts) {
			Val v = getVar(o);
			if (o.type == CFG_VALUE_TYPE_DOUBLE && !(single && i != which))
				REQUIRE(std::fabs(v.d - o.cur.d) <= 0.51e-6 + std::fabs(o.cur.d) * 1e-15, "%s.%s is read back as %.17g, was %.17g", c.sects[i].name.c_str(), o.name.c_str(), v.d, o.cur.d);
			else REQUIRE(same(o, v, o.cur), "%s.%s is read back as %s, was %s", c.sects[i].name.c_str(), o.name.c_str(), text(o, v).c_str(), text(o, o.cur).c_str());
			bool strEmpty = o.type == CFG_VALUE_TYPE_STRING && o.cur.s.empty();
			if (o.given && !strEmpty) REQUIRE(v.given == o.cur.given, "the given flag of %s.%s is %d, expected %d", c.sects[i].name.c_str(), o.name.c_str(), v.given, o.cur.given);
		}
	if (changed) nontrivial();
	if (single) label("single section");
	// the device is full: must be reported
	if (!content.empty() && g.chance(1, 4)) {
		REQUIRE(!(single ? CFG_writeSection("/dev/full", c.sects[which].cs) : CFG_write("/dev/full")), "writing to a full device was reported as success");
		label("full device");
	}
	if (g.chance(1, 8))
		REQUIRE(!(single ? CFG_writeSection((scratch() + "/no/dir").c_str(), c.sects[which].cs) : CFG_write((scratch() + "/no/dir").c_str())), "writing to a missing directory was reported as success");
	REQUIRE(openFds() == fds, "a descriptor was leaked");
	CFG_unregisterAll();
}

// ---------------------------------------------------------------- C18
static int rmTree(const S & d)
{
	DIR * dir = opendir(d.c_str());
	if (!dir) return unlink(d.c_str());
	while (dirent * e = readdir(dir)) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		S p = d + "/" + e->d_name;
		struct stat st;
		if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmTree(p);
		else unlink(p.c_str());
	}
	closedir(dir);
	return rmdir(d.c_str());
}
static S genName(Gen & g, bool & counts)
{
	counts = false;
	S n;
	switch (g.weighted({ 10, 1, 1, 1, 1, 1 })) {
	case 0: {
		counts = true;
		switch (g.weighted({ 5, 3, 1, 1 })) {
		case 0: n = std::to_string(g.range(0, 12)); break;
		case 1: n = std::to_string(g.range(0, 200)); break;
		case 2: n = S(g.range(1, 4), '0') + std::to_string(g.range(0, 20)); break;
		default: n = std::to_string(g.u32()); break;
		}
		if (g.chance(2, 3)) { n += g.pick({ '-', '_', '.', 'a', ' ' }); if (g.chance(1, 2)) n += NAMES[g.raw(11)]; }
		if (g.chance(1, 20)) n += S(g.range(1, 200), 'n');
		return n + ".conf";
	}
	case 1: return S(NAMES[g.raw(11)]) + ".conf";
	case 2: return std::to_string(g.range(0, 99)) + g.pick({ S("-a.conf~"), S(".con"), S("conf"), S(".conf.bak"), S(""), S(".CONF"), S("x") });
	case 3: return g.pick({ S(".conf"), S(".5.conf"), S("-5.conf"), S("+1.conf"), S("#10-x.conf#") });
	case 4: return S("a") + std::to_string(g.range(0, 99)) + ".conf";
	default: return S(" ") + std::to_string(g.range(0, 99)) + ".conf";
	}
}
// file systems which do not tell the types of directory entries
static bool noTypes;
static int (*userFilter)(const struct dirent *);
static int untypedFilter(const struct dirent * e)
{
	if (!userFilter) return 1;
	struct dirent c;
	memset(&c, 0, sizeof c);
	memcpy(&c, e, std::min<size_t>(sizeof c, e->d_reclen));
	c.d_type = DT_UNKNOWN;
	return userFilter(&c);
}
extern "C" {
int __real_scandir(const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **));
int __wrap_scandir(const char * path, struct dirent *** list, int (*filter)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **))
{
	if (!noTypes) return __real_scandir(path, list, filter, cmp);
	userFilter = filter;
	int n = __real_scandir(path, list, untypedFilter, cmp);
	for (int i = 0; i < n; ++i) (*list)[i]->d_type = DT_UNKNOWN;
	return n;
}
struct dirent * __real_readdir(DIR *);
struct dirent * __wrap_readdir(DIR * d)
{
	struct dirent * e = __real_readdir(d);
	if (e && noTypes) e->d_type = DT_UNKNOWN;
	return e;
}
}
struct DFile {
	unsigned long long num;
	bool ok;
	bool readable;
	std::map<size_t, uint64_t> sets;
	S name;
};
static void cfgDirectory(Gen & g)
{
	Config c;
	c.sects.emplace_back();
	Sect & s = c.sects.back();
	s.name = "SECT";
	const size_t N = 4;
	s.cs = (CFG_Section *)calloc(1, sizeof(CFG_Section) + N * sizeof(CFG_Option));
	s.cs->n_opt = N;
	for (size_t i = 0; i < N; ++i) {
		Opt o;
		o.name = "Opt" + std::to_string(i);
		o.type = CFG_VALUE_TYPE_INT;
		o.var = malloc(4);
		o.given = nullptr;
		o.def.i = 1;
		s.opts.push_back(o);
	}
	s.cs->name = s.name.c_str();
	for (size_t i = 0; i < N; ++i) {
		s.cs->options[i].name = s.opts[i].name.c_str();
		s.cs->options[i].type = CFG_VALUE_TYPE_INT;
		s.cs->options[i].var = s.opts[i].var;
		s.cs->options[i].def.integer = 1;
	}
	cur = &c.sects;
	CFG_unregisterAll();
	CFG_registerSection(s.cs);
	CFG_loadDefaults();

	S dir = scratch() + "/conf.d";
	rmTree(dir);
	mkdir(dir.c_str(), 0700);
	S elsewhere = scratch() + "/target.d";
	rmTree(elsewhere);
	mkdir(elsewhere.c_str(), 0700);
	bool stop = g.chance(1, 3);
	std::vector<DFile> files;
	std::set<S> used;
	std::set<unsigned long long> nums;
	size_t n = g.chance(1, 12) ? 0 : g.small(2, 11);
	uint64_t next = 2;
	size_t ignored = 0, broken = 0;
	// a long way to the same directory
	S path = dir;
	if (g.chance(1, 12)) {
		size_t want = PATH_MAX - 1 - g.small(0, 60);
		if (g.chance(1, 3)) want = g.range(dir.size(), 4200);
		while (path.size() + 2 <= want) path += "/.";
		if (path.size() < want) path += "/";
		label("long path");
	}
	struct Types { Types(bool b) { noTypes = b; } ~Types() { noTypes = false; } } types(g.chance(1, 5));
	if (noTypes) label("no types of directory entries");
	note("directory with a path of %zu bytes, %s%s", path.size(), stop ? "stop on first error" : "continue on errors", noTypes ? ", no types of directory entries" : "");
	for (size_t i = 0; i < n; ++i) {
		bool counts;
		S name = genName(g, counts);
		if (!used.insert(name).second) continue;
		DFile f;
		f.name = name;
		f.ok = true;
		f.num = counts ? strtoull(name.c_str(), nullptr, 10) : 0;
		S content = "[SECT]\n";
		size_t k = g.small(0, 4);
		for (size_t j = 0; j < k; ++j) {
			size_t o = g.raw(N - 1);
			f.sets[o] = next;
			content += "Opt" + std::to_string(o) + " = " + std::to_string(next++) + "\n";
		}
		S p = dir + "/" + name;
		const char * kind = "file";
		size_t w = g.weighted({ 12, 2, 1, 1, 1, 1 });
		switch (w) {
		case 0: writeFile(p, content); break;
		case 1: { S t = elsewhere + "/t" + std::to_string(i); writeFile(t, content); symlink(t.c_str(), p.c_str()); kind = "link"; break; }
		case 2: f.ok = false; f.sets.clear(); writeFile(p, "[SECT\nOpt0 = 99999\n"); kind = "broken file"; break;
		case 3: f.ok = false; f.sets.clear(); symlink("missing", p.c_str()); kind = "dangling link"; break;
		case 4: mkdir(p.c_str(), 0700); counts = false; kind = "directory"; break;
		default: mkfifo(p.c_str(), 0600); counts = false; kind = "fifo"; break;
		}
		// what it is cannot be found out
		if (noTypes && w >= 4 && path.size() + 1 + name.size() >= PATH_MAX) { remove(p.c_str()); continue; }
		if (counts && path.size() + 1 + name.size() >= PATH_MAX) { f.ok = false; f.sets.clear(); kind = "file beyond the maximum path length"; }
		// an error at one of several equal numbers: order is open
		if (counts && stop && !f.ok && nums.count(f.num)) { unlink(p.c_str()); continue; }
		if (counts && stop) { bool clash = false; for (auto & x : files) clash |= x.num == f.num && (!x.ok || !f.ok); if (clash) { unlink(p.c_str()); continue; } }
		S d;
		for (auto & x : f.sets) d += " Opt" + std::to_string(x.first) + "=" + std::to_string(x.second);
		note("  %s '%s'%s%s", kind, name.size() > 60 ? (name.substr(0, 60) + "...").c_str() : name.c_str(), counts ? "" : " (ignored)", d.c_str());
		if (!counts) { ++ignored; continue; }
		nums.insert(f.num);
		if (!f.ok) ++broken;
		files.push_back(f);
	}
	std::stable_sort(files.begin(), files.end(), [](const DFile & a, const DFile & b) { return a.num < b.num; });
	bool allOk = true;
	std::vector<std::set<uint64_t>> want(N, { 1 });
	for (size_t i = 0; i < files.size(); ) {
		size_t j = i;
		std::vector<std::set<uint64_t>> group(N);
		bool halt = false;
		for (; j < files.size() && files[j].num == files[i].num; ++j) {
			allOk &= files[j].ok;
			if (!files[j].ok && stop) halt = true;
			for (auto & x : files[j].sets) group[x.first].insert(x.second);
		}
		if (halt) break;
		for (size_t o = 0; o < N; ++o) if (!group[o].empty()) want[o] = group[o];
		i = j;
	}
	bool readable = path.size() < PATH_MAX;
	size_t fds = openFds();
	bool ok = CFG_readDirectory(path.c_str(), g.chance(1, 2), g.chance(1, 2), true, stop);
	REQUIRE(openFds() == fds, "reading leaked a descriptor");
	if (!readable) { REQUIRE(!ok, "success although the path is too long"); allOk = false; }
	else {
		REQUIRE(ok == allOk, "the result is %d although %s", ok, allOk ? "everything could be read" : "not all files could be read");
		for (size_t o = 0; o < N; ++o) {
			uint64_t v = *(uint32_t *)s.opts[o].var;
			S w;
			for (uint64_t x : want[o]) w += " " + std::to_string(x);
			REQUIRE(want[o].count(v), "Opt%zu is %llu, expected%s", o, (unsigned long long)v, w.c_str());
		}
	}
	if (files.size() >= 2) nontrivial();
	if (ignored) label("ignored entries");
	if (broken) label("broken files");
	if (g.chance(1, 10)) REQUIRE(!CFG_readDirectory((scratch() + "/missing.d").c_str(), true, true, true, stop), "a missing directory was read");
	rmTree(dir);
	rmTree(elsewhere);
	CFG_unregisterAll();
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "cfg_parse", cfgParse, 100000, 2000000, 50, 20,
			"1-5 random sections (names may repeat) with options of all types; 1-3 well-formed files and API settings against a model of the last assignment; non-trivial: at least 2 assignments" },
		{ "cfg_robust", cfgRobust, 150000, 4000000, 50, 20,
			"well-formed files mutated with special characters, truncations, overlong runs and stray option starts, and random bytes; file mapped in a block of its exact size; non-trivial: at least 2 bytes" },
		{ "cfg_write", cfgWrite, 100000, 2000000, 50, 20,
			"random option values written (all sections or one) and read back over another state; non-trivial: at least one value differs from its default" },
		{ "cfg_directory", cfgDirectory, 30000, 800000, 50, 20,
			"directories of numbered files, links, broken files, other entries and long paths, against the order of the leading numbers; non-trivial: at least 2 files count" },
	});
}
