// Choice-tape property testing core.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include "vf_api.h"

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x = 1) : s(x) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
};

// where draws are recorded (shared with the supervising process)
struct TapeRec { uint64_t len; uint64_t v[1 << 20]; };

struct Tape {
	bool replay = false;
	Rng rng;
	std::vector<uint64_t> in; size_t pos = 0;
	TapeRec* rec = nullptr;
	uint64_t hash = 1469598103934665603ULL;
	uint64_t draw(uint64_t n) // value in [0, n)
	{
		if (n == 0) n = 1;
		uint64_t x;
		if (replay) { x = pos < in.size() ? in[pos] : 0; ++pos; if (x >= n) x = x % n; }
		else { x = rng.next(); x = (uint64_t) (((unsigned __int128) x * n) >> 64); }
		if (rec && rec->len < (sizeof rec->v / sizeof rec->v[0])) rec->v[rec->len++] = x;
		hash = (hash ^ x) * 1099511628211ULL; hash ^= hash >> 29;
		return x;
	}
};

struct Fail { std::string msg; };
struct Discard {};

struct Ctx {
	Tape t;
	const VfApi* api = nullptr;
	std::vector<const VfApi*> all;
	int tier = 0; // 0 quick, 1 thorough
	bool nontrivial = false;
	bool want_desc = false;
	std::string desc;
	char* live = nullptr; size_t live_cap = 0; // shared copy of desc, survives a crash
	std::map<std::string, long>* labels = nullptr;
	void lab(const std::string& s) { if (labels) ++(*labels)[s]; }
	uint64_t u(uint64_t n) { return t.draw(n); }                       // [0,n), 0 simplest
	int64_t r(int64_t a, int64_t b) { return a + (int64_t) t.draw((uint64_t) (b - a) + 1); } // [a,b]
	bool chance(unsigned num, unsigned den) { return t.draw(den) >= den - num; } // false simplest
	void note(const char* f, ...) __attribute__((format(printf, 2, 3)))
	{
		if (!want_desc || desc.size() > 6000) return;
		char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); desc += b;
		if (live && desc.size() + 1 < live_cap) memcpy(live, desc.c_str(), desc.size() + 1);
	}
	[[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
		throw Fail{b};
	}
};
#define REQ(cond, ...) do { if (!(cond)) c.fail(__VA_ARGS__); } while (0)

// error text right after the library was loaded, per configuration
const std::string& initial_error(const VfApi*);

typedef void (*PropFn)(Ctx&);
struct Prop { const char* id; PropFn fn; };
extern const Prop PROPS[];
extern const size_t NUM_PROPS;
const Prop* find_prop(const std::string& id);
