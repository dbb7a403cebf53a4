// C23: intrusive lists (src/util/list.h)
#include "pbt.hh"
#include "list_ops.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>
using namespace pbt;

typedef std::vector<int> Seq;
static const struct ListOps * o;
static const int NL = 3, NE = 14;
static void * lists[NL];
static Seq model[NL];
static char * elems[NE + 8]; // the last ones: vectors
static std::vector<int> freeEl;
static std::vector<char *> vectors;
static std::vector<void *> all;   // id -> element

static std::string str(const Seq & s)
{
	std::string r = "[";
	for (int i : s) r += " " + std::to_string(i);
	return r + " ]";
}
static int idOf(void * e) { return e ? ((struct Elem *)e)->id : -1; }
static void expectElem(const char * what, void * e, int want)
{
	for (void * a : all) if (a == e) { REQUIRE(idOf(e) == want, "%s: element %d, expected %d", what, idOf(e), want); return; }
	REQUIRE(!e && want == -1, "%s: %s, expected %d", what, e ? "no element at all" : "end of the list", want);
}
struct It { Seq got; size_t limit, stopAt; void * list; std::vector<bool> remove; bool broke; };
static bool visit(void * e, void * arg)
{
	It & it = *(It *)arg;
	bool known = false;
	for (void * a : all) known |= a == e;
	REQUIRE(known, "iteration leads to something that is no element (after %s)", str(it.got).c_str());
	it.got.push_back(idOf(e));
	REQUIRE(it.got.size() <= it.limit, "iteration does not end: %s", str(it.got).c_str());
	size_t n = it.got.size() - 1;
	if (n < it.remove.size() && it.remove[n]) o->unlink(it.list, e);
	if (n == it.stopAt && !it.broke) { it.broke = true; return false; }
	return true;
}
static Seq walk(int l, int kind, size_t stopAt = (size_t)-1)
{
	It it { {}, all.size() + 1, stopAt, lists[l], {}, false };
	o->iterate(lists[l], kind, visit, &it);
	return it.got;
}
static void check(const char * what)
{
	for (int l = 0; l < NL; ++l) {
		Seq w = model[l];
		Seq g = walk(l, 0);
		REQUIRE(g == w, "%s: list %d is %s, expected %s", what, l, str(g).c_str(), str(w).c_str());
		if (o->dbl) {
			std::reverse(w.begin(), w.end());
			g = walk(l, 2);
			REQUIRE(g == w, "%s: list %d backwards is %s, expected %s", what, l, str(g).c_str(), str(w).c_str());
		}
		REQUIRE(o->empty(lists[l]) == model[l].empty(), "%s: list %d %s: empty returns %d", what, l, str(model[l]).c_str(), o->empty(lists[l]));
	}
}
static void checkLength(int l)
{
	if (!o->counted) return;
	size_t n = o->length(lists[l]);
	REQUIRE(n == model[l].size(), "list %d %s: length is %zu", l, str(model[l]).c_str(), n);
}
static void garbage(int l) { memset(lists[l], 0xa5, o->listSize); }

static void prop(Gen & g)
{
	o = LIST_variants[g.raw(LIST_nVariants - 1)];
	label("%s", o->name);
	note("variant %s", o->name);
	all.clear(); freeEl.clear(); vectors.clear();
	auto mk = [] (char * p) { ((struct Elem *)p)->id = all.size(); all.push_back(p); };
	for (int i = 0; i < NE; ++i) {
		char * p = (char *)malloc(o->elemSize);
		memset(p, 0x5a, o->elemSize);
		freeEl.push_back(all.size());
		mk(p);
	}
	for (int l = 0; l < NL; ++l) {
		lists[l] = malloc(o->listSize);
		garbage(l);
		model[l].clear();
		if (g.chance(1, 2)) o->init(lists[l]); else o->initStatic(lists[l]);
	}
	check("initialized");
	unsigned n = 0, bulk = 0, lazyOps = 0;
	do {
		++n;
		int l = g.raw(NL - 1), d = (l + 1 + g.raw(NL - 2)) % NL;
		Seq & m = model[l];
		auto take = [&] { size_t k = g.raw(freeEl.size() - 1); int id = freeEl[k]; freeEl.erase(freeEl.begin() + k); return id; };
		const char * what = "";
		switch (g.weighted({ 4, 3, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 1, 1, 1 })) {
		case 0: if (freeEl.empty()) continue; { int e = take(); note("push %d to %d", e, l); what = "push"; o->push(lists[l], all[e]); m.push_back(e); } break;
		case 1: if (freeEl.empty()) continue; { int e = take(); note("unshift %d to %d", e, l); what = "unshift"; o->unshift(lists[l], all[e]); m.insert(m.begin(), e); } break;
		case 2: {
			note("shift from %d", l); what = "shift";
			void * e = o->shift(lists[l]);
			expectElem("shift", e, m.empty() ? -1 : m.front());
			if (m.size()) { freeEl.push_back(m.front()); m.erase(m.begin()); }
			break; }
		case 3: {
			if (!o->dbl) continue;
			note("pop from %d", l); what = "pop";
			void * e = o->pop(lists[l]);
			expectElem("pop", e, m.empty() ? -1 : m.back());
			if (m.size()) { freeEl.push_back(m.back()); m.pop_back(); }
			break; }
		case 4: {
			if (!o->dbl || freeEl.empty()) continue;
			size_t p = g.raw(m.size());
			int e = take();
			note("insert %d at %zu of %d", e, p, l); what = "insert";
			o->insertBefore(lists[l], p == m.size() ? nullptr : all[m[p]], all[e]);
			m.insert(m.begin() + p, e);
			break; }
		case 5: {
			if (!o->dbl) continue;
			size_t p = g.raw(m.size());
			note("unlink %zu of %d", p, l); what = "unlink";
			if (p == m.size()) o->unlink(lists[l], nullptr); // the anchor: nothing happens
			else { o->unlink(lists[l], all[m[p]]); freeEl.push_back(m[p]); m.erase(m.begin() + p); }
			break; }
		case 6: note("append %d to %d", d, l); what = "concatenatePush"; o->concatPush(lists[l], lists[d]); m.insert(m.end(), model[d].begin(), model[d].end()); model[d].clear(); ++bulk; break;
		case 7: note("prepend %d to %d", d, l); what = "concatenateUnshift"; o->concatUnshift(lists[l], lists[d]); m.insert(m.begin(), model[d].begin(), model[d].end()); model[d].clear(); ++bulk; break;
		case 8: case 9: {
			if (!o->dbl || model[d].size()) continue; // the target is overwritten
			bool lazy = o->lazy && g.chance(1, 3), from = g.chance(1, 2);
			size_t p = g.raw(m.size());
			note("separate %s %zu of %d into %d%s", from ? "from" : "until", p, l, d, lazy ? " (lazy)" : "");
			what = "separate";
			if (g.chance(1, 2)) garbage(d);
			void * pv = p == m.size() ? nullptr : all[m[p]];
			if (from) {
				o->separateFrom(lists[l], lists[d], pv, lazy);
				model[d].assign(m.begin() + p, m.end());
				m.resize(p);
			} else {
				o->separateUntil(lists[l], lists[d], pv, lazy);
				model[d].assign(m.begin(), m.begin() + p);
				m.erase(m.begin(), m.begin() + p);
			}
			++bulk; lazyOps += lazy;
			break; }
		case 10: {
			if (m.size() || vectors.size() == 4) continue;
			size_t k = g.small(0, 6), es = o->elemSize + g.raw(3) * 8;
			bool plain = g.chance(1, 2);
			if (plain) es = o->elemSize;
			note("list %d from %zu elements of a vector", l, k); what = "fromVector";
			char * v = (char *)malloc(k ? k * es : 1);
			for (size_t i = 0; i < k; ++i) { m.push_back(all.size()); mk(v + i * es); }
			vectors.push_back(v);
			garbage(l);
			if (plain) o->fromVector(lists[l], v, k); else o->fromVectorSize(lists[l], v, k, es);
			++bulk;
			break; }
		case 11: note("length of %d", l); checkLength(l); continue;
		case 12: {
			size_t p = g.raw(m.size());
			note("index %zu of %d", p, l);
			expectElem("at", o->at(lists[l], p), p == m.size() ? -1 : m[p]);
			size_t f = g.raw(m.size());
			size_t a = g.raw(m.size());
			if (a <= f) {
				void * base = a == m.size() ? nullptr : all[m[a]], * tgt = f == m.size() ? nullptr : all[m[f]];
				expectElem("forward", o->forward(lists[l], base, f - a), f == m.size() ? -1 : m[f]);
				if (o->dbl) expectElem("rewind", o->rewind(lists[l], tgt, f - a), a == m.size() ? -1 : m[a]);
			}
			continue; }
		case 13: { // iteration with break and continuation
			int kind = g.pick<int>({ 0, 1, 4, 6, 2, 3, 5, 7 });
			bool rev = kind == 2 || kind == 3 || kind == 5 || kind == 7, cont = kind == 6 || kind == 7;
			if (rev && !o->dbl) continue;
			size_t stop = g.chance(1, 2) ? g.raw(m.size()) : (size_t)-1;
			note("iteration kind %d over %d, stop at %zd", kind, l, (ssize_t)stop);
			Seq w = m;
			if (rev) std::reverse(w.begin(), w.end());
			if (!cont && stop < w.size()) w.resize(stop + 1);
			Seq got = walk(l, kind, stop);
			REQUIRE(got == w, "iteration kind %d over list %d visits %s, expected %s", kind, l, str(got).c_str(), str(w).c_str());
			continue; }
		case 14: case 15: { // removal while iterating
			if (!o->dbl) continue;
			bool rev = g.chance(1, 2);
			It it { {}, all.size() + 1, (size_t)-1, lists[l], {}, false };
			Seq w = m, rest;
			if (rev) std::reverse(w.begin(), w.end());
			for (size_t i = 0; i < w.size(); ++i) it.remove.push_back(g.chance(1, 2));
			note("removal while iterating over %d%s", l, rev ? " backwards" : ""); what = "safe iteration";
			o->iterate(lists[l], rev ? 5 : 4, visit, &it);
			REQUIRE(it.got == w, "safe iteration visited %s, expected %s", str(it.got).c_str(), str(w).c_str());
			for (size_t i = 0; i < w.size(); ++i) if (it.remove[i]) freeEl.push_back(w[i]); else rest.push_back(w[i]);
			if (rev) std::reverse(rest.begin(), rest.end());
			m = rest;
			break; }
		default:
			note("clear %d", l); what = "init";
			o->init(lists[l]);
			for (int e : m) freeEl.push_back(e);
			m.clear();
		}
		check(what);
	} while (n < 300 && g.more(5 + g.size() / 3.));
	for (int l = 0; l < NL; ++l) checkLength(l);
	if (n >= 4 && bulk) nontrivial();
	if (lazyOps) label("lazy counting");
	for (int l = 0; l < NL; ++l) free(lists[l]);
	for (int i = 0; i < NE; ++i) free(all[i]);
	for (char * v : vectors) free(v);
}

int main(int argc, char ** argv)
{
	return run(argc, argv, {
		{ "list_model", prop, 400000, 12000000, 60, 20,
			"sequences of all list operations (incl. lazily counted separation, continued and safe iterations) over three lists of one of five variants, compared with arrays. "
			"Non-trivial: at least 4 operations, one of them moving several elements" },
	});
}
