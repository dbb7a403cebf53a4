// Reference model of the Beast binary format.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include "pbt.hh"

typedef std::vector<uint8_t> Bytes;

inline Bytes escape(const Bytes & in)
{
	Bytes r;
	for (uint8_t b : in) { r.push_back(b); if (b == 0x1a) r.push_back(b); }
	return r;
}
inline void append(Bytes & a, const Bytes & b) { a.insert(a.end(), b.begin(), b.end()); }

struct BFrame {
	uint8_t type = '3';
	uint64_t mlat = 0;
	uint8_t siglevel = 0;
	Bytes payload;
	bool operator == (const BFrame & o) const
	{
		return type == o.type && mlat == o.mlat && siglevel == o.siglevel && payload == o.payload;
	}
	Bytes content() const
	{
		Bytes c;
		for (int i = 5; i >= 0; --i) c.push_back(mlat >> (8 * i));
		c.push_back(siglevel);
		append(c, payload);
		return c;
	}
	Bytes raw() const
	{
		Bytes r { 0x1a, type };
		append(r, escape(content()));
		return r;
	}
	std::string str() const
	{
		char b[64];
		snprintf(b, sizeof b, "%c mlat=%012llx sig=%02x ", type, (unsigned long long)mlat, siglevel);
		return b + pbt::hex(payload);
	}
};
inline size_t payloadLenOf(uint8_t type)
{
	switch (type) { case '1': return 2; case '2': return 7; case '3': return 14; case '4': return 14; default: return 0; }
}

inline uint8_t genByte(pbt::Gen & g)
{
	switch (g.weighted({ 4, 3, 2, 1 })) {
	case 0: return g.byte();
	case 1: return 0x1a;
	case 2: return g.pick<uint8_t>({ '1', '2', '3', '4', '5', 0x00, 0xff, 0x19, 0x1b });
	default: return 0;
	}
}
inline Bytes genBytes(pbt::Gen & g, size_t n)
{
	Bytes r(n);
	switch (g.weighted({ 4, 2, 1, 1 })) {
	case 0: for (auto & b : r) b = genByte(g); break;
	case 1: for (auto & b : r) b = g.byte(); break;
	case 2: for (auto & b : r) b = 0x1a; break;
	default: { uint8_t v = g.byte(); for (auto & b : r) b = v; }
	}
	return r;
}
inline BFrame genFrame(pbt::Gen & g)
{
	BFrame f;
	f.type = g.pick<uint8_t>({ '3', '2', '1', '4' });
	Bytes h = genBytes(g, 7);
	for (int i = 0; i < 6; ++i) f.mlat = f.mlat << 8 | h[i];
	f.siglevel = h[6];
	f.payload = genBytes(g, payloadLenOf(f.type));
	if (f.type != '4' && g.chance(1, 2) && f.payload.size() > 2) // valid downlink formats
		f.payload[0] = (g.pick<uint8_t>({ 17, 18, 11, 4, 5, 20, 21, 0, 16, 24, 31 }) << 3) | (f.payload[0] & 7);
	return f;
}

// Position based decoder on the complete byte stream of one connection
struct BModel {
	const Bytes & s;
	size_t pos = 0;
	uint64_t outOfSync = 0, unknown = 0;
	explicit BModel(const Bytes & st) : s(st) { }
	// false: the stream ends before the next frame is complete
	bool next(BFrame & f)
	{
		if (pos >= s.size()) return false;
		if (s[pos++] != 0x1a) {
			++outOfSync;
			if (!sync()) return false;
		}
		while (true) {
			if (pos >= s.size()) return false;
			uint8_t type = s[pos++];
			size_t plen = payloadLenOf(type);
			if (!plen) {
				if (type == 0x1a) ++outOfSync; else ++unknown;
				if (!sync()) return false;
				continue;
			}
			Bytes c;
			bool resync = false;
			while (c.size() < 7 + plen) {
				if (pos >= s.size()) return false;
				uint8_t b = s[pos++];
				if (b == 0x1a) {
					if (pos >= s.size()) return false;
					if (s[pos] != 0x1a) { resync = true; break; }
					++pos;
				}
				c.push_back(b);
			}
			if (resync) { ++outOfSync; continue; }
			f.type = type;
			f.mlat = 0;
			for (int i = 0; i < 6; ++i) f.mlat = f.mlat << 8 | c[i];
			f.siglevel = c[6];
			f.payload.assign(c.begin() + 7, c.end());
			return true;
		}
	}
private:
	bool sync()
	{
		while (pos < s.size()) {
			if (s[pos++] != 0x1a) continue;
			if (pos >= s.size()) return false;
			if (s[pos] != 0x1a) return true;
			++pos;
		}
		return false;
	}
};

// Piece of line noise, in terms of what confuses a decoder
inline Bytes genNoise(pbt::Gen & g)
{
	Bytes r;
	switch (g.weighted({ 3, 3, 2, 2, 2, 3, 2 })) {
	case 0: r = genBytes(g, 1 + g.small(0, 40)); break;
	case 1: { // truncated frame
		Bytes f = genFrame(g).raw();
		r.assign(f.begin(), f.begin() + g.range(1, f.size()));
		break; }
	case 2: r.assign(1 + g.small(0, 6), 0x1a); break;
	case 3: { // unknown type
		r = { 0x1a, g.pick<uint8_t>({ '5', '0', 'A', 0x00, 0xff }) };
		append(r, genBytes(g, g.small(0, 30)));
		break; }
	case 4: { // frame missing its start
		Bytes f = genFrame(g).raw();
		r.assign(f.begin() + g.range(1, f.size() - 1), f.end());
		break; }
	case 5: { // frame with a defect inside
		r = genFrame(g).raw();
		size_t i = g.raw(r.size() - 1);
		if (g.chance(1, 2)) r.erase(r.begin() + i); else r[i] = genByte(g);
		break; }
	default: { // plain noise without sync, long enough to cross read buffers
		size_t n = 1 + g.small(0, 300);
		for (size_t i = 0; i < n; ++i) { uint8_t b = g.byte(); r.push_back(b == 0x1a ? 0 : b); }
	} }
	return r;
}

// cut positions of a stream
struct Chunker {
	unsigned mode = 0, n = 1;
	void init(pbt::Gen & g)
	{
		mode = g.weighted({ 2, 2, 3, 2, 2 });
		n = mode == 1 ? g.pick<unsigned>({ 2, 3, 7, 8, 9, 16, 23, 24, 63, 64, 127, 128, 129 }) : 0;
	}
	size_t next(pbt::Gen & g, size_t max)
	{
		size_t c;
		switch (mode) {
		case 0: c = max; break;
		case 1: c = n; break;
		case 2: c = 1 + g.small(0, 130); break;
		case 3: c = 1; break;
		default: c = g.chance(1, 3) ? 1 : g.chance(1, 2) ? max : (size_t)g.range(1, 20);
		}
		return c < 1 ? 1 : c > max ? max : c;
	}
};
