// Generators for data sets, options and existing clusterings, plus thin call wrappers.
#pragma once
#include "core.hpp"
#include <map>
#include <climits>

// ---------------------------------------------------------------- data
struct Data {
	size_t n = 0; uint32_t d = 1; std::vector<double> x;
	bool exact = true;     // squared distances are exact in double arithmetic
	bool integer = true;   // coordinates are (scaled) small integers
	const char* kind = "";
	int metric = 0;        // 0 Euclid (key = squared distance), 1 L1, 2 Linf (key = distance)
	mutable std::vector<double> km; mutable bool have = false;
	double raw(size_t i, size_t j) const
	{
		double r = 0; const double* a = &x[i * d]; const double* b = &x[j * d];
		for (uint32_t k = 0; k < d; ++k) { double v = a[k] - b[k]; if (metric == 0) r += v * v; else if (metric == 1) r += std::fabs(v); else r = std::max(r, std::fabs(v)); }
		return r;
	}
	double key(size_t i, size_t j) const
	{
		if (n > 400) return raw(i, j);
		if (!have) { km.resize(n * n); for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) km[a * n + b] = raw(a, b); have = true; }
		return km[i * n + j];
	}
	double dist(size_t i, size_t j) const { double k = key(i, j); return metric == 0 ? std::sqrt(k) : k; }
	double kdist(double k) const { return metric == 0 ? std::sqrt(k) : k; }
	double rkey(double r) const { return metric == 0 ? r * r : r; }
	// definitely less / greater
	bool dlt(double a, double b) const { return exact ? a < b : a < b - 1e-9 * std::fabs(b); }
	bool dgt(double a, double b) const { return dlt(b, a); }
	bool distinct_points() const
	{
		std::set<std::vector<double>> s;
		for (size_t i = 0; i < n; ++i) if (!s.insert(std::vector<double>(x.begin() + (long) (i * d), x.begin() + (long) ((i + 1) * d))).second) return false;
		return true;
	}
	// every point sees all other points at clearly distinct distances
	bool generic() const
	{
		std::vector<double> r;
		for (size_t i = 0; i < n; ++i) {
			r.clear();
			for (size_t j = 0; j < n; ++j) r.push_back(key(i, j));
			std::sort(r.begin(), r.end());
			for (size_t j = 1; j < n; ++j) if (!dlt(r[j - 1], r[j])) return false;
		}
		return true;
	}
};

enum { DK_GRID, DK_INTS, DK_LINE, DK_FEW, DK_SAME, DK_POW2, DK_BLOBS, DK_REAL, DK_OUTLIER, DK_SCALED, DK_HIDIM, DK_EXP, DK_COUNT };

struct GenN { size_t lo = 2, hi = 24; };
// n: mostly small, sometimes larger
inline size_t gen_n(Ctx& c, size_t lo, size_t small_hi, size_t big_hi, bool wide = true)
{
	unsigned w = (unsigned) c.u(16);
	if (wide && c.u(4000) == 3999) return std::max<size_t>(lo, 200 + (size_t) c.u(400)); // beyond 8-bit counts
	size_t hi = w < 9 ? std::min<size_t>(12, small_hi) : w < 14 ? small_hi : w < 15 ? std::min(big_hi, small_hi * 3) : big_hi;
	if (hi < lo) hi = lo;
	return lo + (size_t) c.u(hi - lo + 1);
}

inline Data gen_data_kind(Ctx& c, size_t n, int kind)
{
	Data D; D.n = n;
	auto dims = [&](uint32_t hi) { D.d = 1 + (uint32_t) c.u(hi); };
	switch (kind) {
	case DK_GRID: { D.kind = "grid"; dims(3); uint64_t g = 2 + c.u(8); for (size_t i = 0; i < n * D.d; ++i) D.x.push_back((double) c.u(g)); break; }
	case DK_INTS: { D.kind = "ints"; dims(5); static const int bits[] = {6, 10, 20}; uint64_t m = 1ull << bits[c.u(3)]; for (size_t i = 0; i < n * D.d; ++i) D.x.push_back((double) c.u(m)); if (c.chance(1, 3)) for (auto& v : D.x) v -= (double) (m / 2); break; }
	case DK_LINE: { D.kind = "line"; dims(3); static const int bits[] = {5, 12, 20}; uint64_t m = 1ull << bits[c.u(3)]; std::vector<double> dir; for (uint32_t k = 0; k < D.d; ++k) dir.push_back(k == 0 ? 1.0 : (double) c.u(3)); int order = (int) c.u(3); std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back((double) c.u(m)); if (order == 1) std::sort(v.begin(), v.end()); if (order == 2) std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < n; ++i) for (uint32_t k = 0; k < D.d; ++k) D.x.push_back(v[i] * dir[k]); break; }
	case DK_FEW: { D.kind = "few distinct"; dims(2); size_t m = 1 + (size_t) c.u(4); std::vector<double> p; for (size_t i = 0; i < m * D.d; ++i) p.push_back((double) c.u(20)); for (size_t i = 0; i < n; ++i) { size_t q = (size_t) c.u(m); for (uint32_t k = 0; k < D.d; ++k) D.x.push_back(p[q * D.d + k]); } break; }
	case DK_SAME: { D.kind = "identical"; dims(3); std::vector<double> p; for (uint32_t k = 0; k < D.d; ++k) p.push_back((double) c.u(100)); for (size_t i = 0; i < n; ++i) D.x.insert(D.x.end(), p.begin(), p.end()); if (n > 2 && c.chance(1, 3)) D.x[(size_t) c.u(n) * D.d] += 7; break; }
	case DK_POW2: { D.kind = "powers of two"; D.d = 1; if (n > 24) return gen_data_kind(c, n, DK_INTS); std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(std::ldexp(1.0, (int) i)); int order = (int) c.u(3); if (order == 1) std::reverse(v.begin(), v.end()); if (order == 2) for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[(size_t) c.u(i)]); D.x = v; break; }
	case DK_BLOBS: { D.kind = "blobs"; dims(2); size_t m = 1 + (size_t) c.u(5); std::vector<double> p; for (size_t i = 0; i < m * D.d; ++i) p.push_back((double) c.u(20) * 50000.0); uint64_t sp = 2 + c.u(2000); for (size_t i = 0; i < n; ++i) { size_t q = (size_t) c.u(m); for (uint32_t k = 0; k < D.d; ++k) D.x.push_back(p[q * D.d + k] + (double) c.u(sp)); } break; }
	case DK_REAL: { D.kind = "real"; D.exact = D.integer = false; dims(5); for (size_t i = 0; i < n * D.d; ++i) D.x.push_back(((double) c.u(1ull << 40) - 5e11) * 1.37e-7); break; }
	case DK_OUTLIER: { D.kind = "outliers"; dims(2); for (size_t i = 0; i < n * D.d; ++i) D.x.push_back((double) c.u(16)); size_t m = 1 + (size_t) c.u(2); for (size_t i = 0; i < m; ++i) { size_t q = (size_t) c.u(n); D.x[q * D.d] += (double) (1000 + c.u(1000000)); } break; }
	case DK_SCALED: { D.kind = "scaled"; dims(3); int e = (int) c.r(-200, 200) * 2; for (size_t i = 0; i < n * D.d; ++i) D.x.push_back(std::ldexp((double) c.u(1 << 18), e)); break; }
	case DK_HIDIM: { D.kind = "high dimension"; D.d = 6 + (uint32_t) c.u(c.chance(1, 8) ? 300 : 40); for (size_t i = 0; i < n * D.d; ++i) D.x.push_back((double) c.u(9)); break; }
	case DK_EXP: default: { D.kind = "exponential"; D.d = 1; D.exact = D.integer = false; double b = 1.05 + 0.05 * (double) c.u(20); double lim = 280.0 / (std::log10(b) * 2); std::vector<double> v; for (size_t i = 0; i < n; ++i) v.push_back(std::pow(b, std::fmod((double) i, lim))); int order = (int) c.u(3); if (order == 1) std::reverse(v.begin(), v.end()); if (order == 2) for (size_t i = n; i > 1; --i) std::swap(v[i - 1], v[(size_t) c.u(i)]); D.x = v; break; }
	}
	return D;
}
inline Data gen_data(Ctx& c, size_t n)
{
	static const int w[] = {DK_GRID, DK_GRID, DK_GRID, DK_INTS, DK_INTS, DK_INTS, DK_LINE, DK_FEW, DK_FEW, DK_SAME, DK_POW2, DK_BLOBS, DK_BLOBS, DK_REAL, DK_REAL, DK_OUTLIER, DK_SCALED, DK_HIDIM, DK_EXP};
	int k = w[c.u(sizeof w / sizeof w[0])];
	if (k == DK_HIDIM && n > 100) k = DK_GRID;
	return gen_data_kind(c, n, k);
}
// one point after the other splits off: hierarchical clustering keeps a deep stack of pending clusters
inline Data gen_deep(Ctx& c, size_t n, bool steep = false)
{
	Data D; D.kind = "geometric chain"; D.n = n; D.d = 1; D.exact = D.integer = false;
	double b = steep ? 1.4 + 0.01 * (double) c.u(30) : c.chance(1, 4) ? 1.05 + 0.01 * (double) c.u(30) : 1.2 + 0.01 * (double) c.u(30), lim = 280.0 / (std::log10(b) * 2);
	for (size_t i = 0; i < n; ++i) D.x.push_back(std::pow(b, std::fmod((double) i, lim)));
	if (!steep && c.u(2)) std::reverse(D.x.begin(), D.x.end());
	return D;
}
// points at (nearly) even distances from each other, where clusters come close to the largest extent they may have
inline Data gen_even(Ctx& c, size_t n)
{
	Data D; D.kind = "even spacing"; D.n = n; D.d = c.chance(1, 4) ? 2 : 1; uint64_t jit = c.chance(1, 3) ? 0 : 1 + c.u(12); bool grow = c.chance(1, 3);
	size_t side = 1; if (D.d == 2) while (side * side < n) ++side;
	std::vector<size_t> at(n); for (size_t i = 0; i < n; ++i) at[i] = i;
	unsigned order = (unsigned) c.u(4); size_t step = 2 + (size_t) c.u(6);
	if (order == 1) std::reverse(at.begin(), at.end());
	if (order == 2) { size_t w = 0; for (size_t f = 0; f < step; ++f) for (size_t i = f; i < n; i += step) at[w++] = i; } // every few points
	Rng rng(c.u(1ull << 40));
	if (order == 3) for (size_t i = n; i > 1; --i) std::swap(at[i - 1], at[(size_t) (rng.next() % i)]);
	for (size_t i = 0; i < n; ++i) {
		double p = (double) at[i];
		if (D.d == 1) { double x = p * 1000 + (grow ? p : 0) * (p + 1) / 2; D.x.push_back(x + (jit ? (double) (rng.next() % (30 * jit)) : 0)); }
		else { D.x.push_back((double) (at[i] % side) * 1000 + (jit ? (double) (rng.next() % (30 * jit)) : 0)); D.x.push_back((double) (at[i] / side) * 1000 + (jit ? (double) (rng.next() % (30 * jit)) : 0)); }
	}
	return D;
}
// data on which every distance from a point is distinct (if the draw is lucky: check generic())
inline Data gen_generic(Ctx& c, size_t n)
{
	static const int w[] = {DK_INTS, DK_INTS, DK_POW2, DK_REAL, DK_BLOBS, DK_LINE, DK_SCALED};
	return gen_data_kind(c, n, w[c.u(sizeof w / sizeof w[0])]);
}
// integer coordinates only
inline Data gen_int_data(Ctx& c, size_t n)
{
	static const int w[] = {DK_GRID, DK_GRID, DK_INTS, DK_INTS, DK_LINE, DK_FEW, DK_BLOBS, DK_OUTLIER, DK_POW2};
	return gen_data_kind(c, n, w[c.u(sizeof w / sizeof w[0])]);
}
inline void show(Ctx& c, const Data& D)
{
	c.note("data[%s] n=%zu d=%u:", D.kind, D.n, D.d);
	for (size_t i = 0; i < D.n && i < 40; ++i) { c.note(" ("); for (uint32_t k = 0; k < D.d && k < 6; ++k) c.note("%s%.17g", k ? "," : "", D.x[i * D.d + k]); c.note("%s)", D.d > 6 ? ",.." : ""); }
	if (D.n > 40) c.note(" ...");
	c.note("; ");
}

// ---------------------------------------------------------------- options
struct Opts {
	uint32_t size = 2; uint32_t num_types = 0; std::vector<uint32_t> tc; std::vector<int64_t> tl;
	int sm = SM_LEXICAL; bool has_primary = false; std::vector<int64_t> primary;
	int pum = UM_ANY, sum = UM_IGNORE; int rs = RM_NO, rp = RM_SEED, r2 = RM_SEED; double vs = 0, vp = 0, v2 = 0; uint32_t batch = 0;
	bool types() const { return num_types >= 2; }
	bool is_primary(size_t i) const { return !has_primary || std::binary_search(primary.begin(), primary.end(), (int64_t) i); }
	uint64_t tsum() const { uint64_t s = 0; for (auto v : tc) s += v; return s; }
};
inline VfOptions raw(const Opts& o)
{
	VfOptions v; memset(&v, 0, sizeof v);
	v.options_version = 722678001; v.size_constraint = o.size; v.num_types = o.num_types;
	if (o.types()) { v.type_constraints = o.tc.data(); v.len_type_constraints = o.tc.size(); v.type_labels = o.tl.data(); v.cnt_type_labels = v.len_type_labels = o.tl.size(); }
	v.seed_method = o.sm;
	if (o.has_primary) { v.primary = o.primary.data(); v.cnt_primary = v.len_primary = o.primary.size(); }
	v.pum = o.pum; v.sum = o.sum; v.seed_radius = o.rs; v.seed_r = o.vs; v.prim_radius = o.rp; v.prim_r = o.vp; v.sec_radius = o.r2; v.sec_r = o.v2; v.batch_size = o.batch;
	return v;
}
inline void show(Ctx& c, const Opts& o)
{
	static const char* S[] = {"LEXICAL", "BATCHES", "INWARDS_ORDER", "INWARDS_UPDATING", "EXCLUSION_ORDER", "EXCLUSION_UPDATING"};
	static const char* U[] = {"IGNORE", "ANY_NEIGHBOR", "CLOSEST_ASSIGNED", "CLOSEST_SEED"};
	static const char* R[] = {"NO", "SUPPLIED", "USE_SEED", "ESTIMATED"};
	c.note("size=%u seed=%s primary=%s/%s:%.17g secondary=%s/%s:%.17g seed_radius=%s:%.17g batch=%u", o.size, S[o.sm], U[o.pum], R[o.rp], o.vp, U[o.sum], R[o.r2], o.v2, R[o.rs], o.vs, o.batch);
	if (o.types()) { c.note(" constraints="); for (size_t i = 0; i < o.tc.size() && i < 12; ++i) c.note("%u,", o.tc[i]); c.note(" types="); for (size_t i = 0; i < o.tl.size() && i < 40; ++i) c.note("%lld,", (long long) o.tl[i]); }
	if (o.has_primary) { c.note(" primary_points="); for (size_t i = 0; i < o.primary.size() && i < 40; ++i) c.note("%lld,", (long long) o.primary[i]); }
	c.note("; ");
}

// a radius that no distance in the data comes ambiguously close to
inline double gen_radius(Ctx& c, const Data& D)
{
	size_t i = (size_t) c.u(D.n), j = (size_t) c.u(D.n);
	if (i == j) j = (j + 1) % D.n;
	double k = D.key(i, j), r = D.kdist(k);
	unsigned mode = (unsigned) c.u(8);
	if (!(r > 0)) r = D.d ? 1.0 : 1.0;
	if (mode == 0) r *= 1.5; else if (mode == 1) r *= 3.0; else if (mode == 2) r *= 0.5; else if (mode == 3) r *= 20.0;
	else if (mode == 4) r *= 1.000001; else if (mode == 5) r *= 0.999999;
	else if (mode == 6 && D.exact && D.metric == 0) { // exactly a perfect-square distance if there is one
		for (size_t t = 0; t < D.n; ++t) { double kk = D.key(i, t), rr = std::sqrt(kk); if (kk > 0 && rr * rr == kk) { r = rr; break; } }
	}
	for (int t = 0; t < 12; ++t) {
		double q = D.rkey(r); bool bad = false;
		{
			for (size_t a = 0; a < D.n && !bad; ++a) for (size_t b = a + 1; b < D.n && !bad; ++b) {
				double kk = D.key(a, b);
				bool exact_hit = D.exact && kk == q && (D.metric != 0 || std::sqrt(kk) == r);
				if (!exact_hit && std::fabs(kk - q) <= 4e-9 * q) bad = true;
			}
		}
		if (!bad) break;
		r *= 1.0000003;
	}
	return r;
}

struct OptGen {
	bool types = true, radius = true, primary = true, batches = true, assign = true, estimated = true;
	bool feasible_types = true; uint32_t max_size = 0; unsigned radius_w = 5, types_w = 5, primary_w = 5; // out of 16
};
// the same types under numbers that need more than eight bits, up to the largest number of types there can be
inline void spread_types(Ctx& c, Opts& o)
{
	uint32_t lim = o.num_types, T = o.num_types; unsigned w = (unsigned) c.u(16);
	lim = std::max(lim, w < 8 ? 257 + (uint32_t) c.u(500) : w < 14 ? 1 + (uint32_t) c.u(32768) : w == 14 ? 32769 + (uint32_t) c.u(65535 - 32769) : 65535u);
	uint32_t gap = 1 + (uint32_t) c.u(lim / T), first = (uint32_t) c.u(lim - gap * (T - 1)); if (c.u(2)) first = lim - 1 - gap * (T - 1);
	std::vector<uint32_t> tc(lim, 0); for (uint32_t t = 0; t < T; ++t) tc[first + t * gap] = o.tc[t];
	for (auto& y : o.tl) y = (int64_t) (first + (uint32_t) y * gap);
	o.num_types = lim; o.tc = tc; c.note("[%u types, those above at %u + %u i] ", lim, first, gap);
}
inline void gen_types(Ctx& c, size_t n, Opts& o, bool feasible)
{
	unsigned w = (unsigned) c.u(24);
	o.num_types = w < 16 ? 2 + (uint32_t) c.u(2) : w < 23 ? 2 + (uint32_t) c.u(4) : 2 + (uint32_t) c.u(c.chance(1, 8) ? 700 : 60);
	o.tl.clear(); o.tc.assign(o.num_types, 0);
	unsigned mode = (unsigned) c.u(4);
	for (size_t i = 0; i < n; ++i) {
		int64_t t;
		if (mode == 0) t = (int64_t) (i % o.num_types);
		else if (mode == 1) t = (int64_t) c.u(o.num_types);
		else if (mode == 2) t = (int64_t) (i * o.num_types / n);
		else { t = (int64_t) c.u(o.num_types + 3); if (t >= (int64_t) o.num_types) t = 0; }
		o.tl.push_back(t);
	}
	std::vector<uint32_t> cnt(o.num_types, 0); for (auto t : o.tl) ++cnt[(size_t) t];
	uint32_t left = o.size; unsigned style = (unsigned) c.u(4); // 0: all zero allowed, 3: use everything
	for (uint32_t t = 0; t < o.num_types && left > 0; ++t) {
		uint32_t m = (style == 3 && t + 1 == o.num_types) ? left : (uint32_t) c.u(std::min<uint32_t>(left, 4) + 1);
		if (style == 0 && c.chance(1, 2)) m = 0;
		if (feasible && m > cnt[t]) m = cnt[t];
		o.tc[t] = m; left -= m;
	}
	// several small required groups must not all be tiny: nothing else to do
	if (c.u(64) == 63) spread_types(c, o);
}
inline void gen_primary(Ctx& c, size_t n, Opts& o)
{
	o.has_primary = true; o.primary.clear();
	unsigned mode = (unsigned) c.u(5);
	for (size_t i = 0; i < n; ++i) {
		bool in = mode == 0 ? c.chance(1, 2) : mode == 1 ? c.chance(1, 4) : mode == 2 ? true : mode == 3 ? i >= n / 2 : c.chance(7, 8);
		if (in) o.primary.push_back((int64_t) i);
	}
	if (o.primary.empty()) o.primary.push_back((int64_t) c.u(n));
}
inline Opts gen_opts(Ctx& c, const Data& D, const OptGen& g = OptGen())
{
	Opts o; size_t n = D.n;
	uint32_t cap = (uint32_t) std::min<size_t>(n, g.max_size ? g.max_size : n);
	unsigned w = (unsigned) c.u(16);
	uint32_t hi = w < 10 ? 3 : w < 14 ? 6 : w < 15 ? 12 : cap;
	if (hi > cap) hi = cap;
	if (hi < 2) hi = 2;
	o.size = 2 + (uint32_t) c.u(hi - 1);
	o.sm = (int) c.u(6);
	if (o.sm == SM_BATCHES && !g.batches) o.sm = SM_IN_UPD;
	if (g.types && o.sm != SM_BATCHES && c.chance(g.types_w, 16)) gen_types(c, n, o, g.feasible_types);
	else if (c.u(16) == 15) o.num_types = 1; // means no type constraints
	if (g.primary && c.chance(g.primary_w, 16)) gen_primary(c, n, o);
	if (g.radius && c.chance(g.radius_w, 16)) { o.rs = RM_SUPPLIED; o.vs = gen_radius(c, D); }
	o.pum = UM_IGNORE; o.sum = UM_IGNORE;
	if (o.sm == SM_BATCHES) { if (g.assign) o.pum = (int) c.u(2); static const uint32_t bs[] = {0, 1, 2, 3, 5, 7, 100, 1000000}; o.batch = bs[c.u(8)]; if (o.batch == 7) o.batch = 1 + (uint32_t) c.u(n + 1); return o; }
	if (c.chance(1, 8)) o.batch = (uint32_t) c.u(10);
	if (!g.assign) return o;
	o.pum = (int) c.u(4);
	unsigned s = (unsigned) c.u(4); o.sum = s < 2 ? UM_IGNORE : s == 2 ? UM_CASSIGNED : UM_CSEED;
	auto rad = [&](int& m, double& v) {
		unsigned q = (unsigned) c.u(8);
		m = q < 3 ? RM_SEED : q == 3 || !g.radius ? RM_NO : q < 6 ? RM_SUPPLIED : g.estimated ? RM_EST : RM_SEED;
		if (m == RM_SUPPLIED) v = gen_radius(c, D);
	};
	rad(o.rp, o.vp); rad(o.r2, o.v2);
	return o;
}

// turns valid options into ones the library has to refuse, some of them only once it is under way
inline void spoil(Ctx& c, const Data& D, Opts& o)
{
	uint32_t n = (uint32_t) D.n; unsigned w = (unsigned) c.u(8);
	if (w < 5 && o.tc.empty()) { gen_types(c, n, o, true); if (o.sm == SM_BATCHES && w) { o.sm = SM_LEXICAL; } }
	if (w <= 2) o.tc[(size_t) c.u(o.num_types)] += n; // more than the group has
	else if (w <= 4) { std::vector<uint32_t> cnt(o.num_types, 0); for (auto t : o.tl) ++cnt[(size_t) t]; for (uint32_t t = 0; t < o.num_types; ++t) o.tc[t] = cnt[t]; if (o.size == n && n > 2) --o.size; } // each group suffices, the sum does not fit
	else if (w == 5) o.size = n + 1 + (uint32_t) c.u(3);
	else if (w == 6) o.size = (uint32_t) c.u(2);
	else { o.rs = RM_SUPPLIED; o.vs = -(double) c.u(3); }
	c.note("[spoilt %u] ", w);
}

// ---------------------------------------------------------------- calling
struct Res { int ec = -1; uint64_t K = 0; std::vector<int64_t> L; };
inline bool same(const Res& a, const Res& b) { return a.ec == b.ec && a.K == b.K && a.L == b.L; }
inline std::string str(const Res& r)
{
	std::string s = "status " + std::to_string(r.ec) + " K=" + std::to_string(r.K) + " labels";
	for (size_t i = 0; i < r.L.size() && i < 60; ++i) s += r.L[i] == VF_NA ? " NA" : " " + std::to_string(r.L[i]);
	return s;
}

// while one of these lives, freed memory (of the library and of data matrices) is used again at once
struct Reuse {
	static bool& on() { static bool b = false; return b; }
	static std::multimap<size_t, double*>& pool() { static std::multimap<size_t, double*> p; return p; }
	const VfApi* a; bool mine;
	Reuse(const VfApi* api, bool want) : a(api), mine(want) { if (mine) { on() = true; a->alloc_reuse(1); } }
	~Reuse() { if (!mine) return; on() = false; a->alloc_reuse(0); for (auto& x : pool()) free(x.second); pool().clear(); }
	static double* take(size_t len) { auto it = pool().find(len); if (!on() || it == pool().end()) return (double*) malloc(len * sizeof(double)); double* m = it->second; pool().erase(it); return m; }
	static void give(double* m, size_t len) { if (on()) pool().emplace(len, m); else free(m); }
};
// a data set object over an exact-size copy of the data
struct DS {
	const VfApi* a; void* h = nullptr; double* m = nullptr; size_t len; std::vector<double> ref;
	DS(const VfApi* api, const Data& D) : a(api), len(D.n * D.d), ref(D.x)
	{
		m = Reuse::take(len); memcpy(m, D.x.data(), len * sizeof(double));
		int ec = a->init_data_set(D.n, D.d, len, m, &h);
		if (ec != EC_OK || !h) { free(m); throw Fail{"init_data_set failed on valid data, status " + std::to_string(ec)}; }
	}
	bool touched() const { return memcmp(m, ref.data(), len * sizeof(double)) != 0; }
	void refill(const Data& D) { ref = D.x; memcpy(m, D.x.data(), len * sizeof(double)); }
	~DS() { a->free_data_set(&h); Reuse::give(m, len); }
	DS(const DS&) = delete;
};
struct CL {
	const VfApi* a; void* h = nullptr; void* lb = nullptr; size_t n;
	// storage: 0 library-owned, 1 caller-owned
	CL(const VfApi* api, size_t n_, int storage) : a(api), n(n_)
	{
		if (storage) { lb = a->lb_new(n); for (size_t i = 0; i < n; ++i) a->lb_set(lb, i, (int64_t) (i % 3)); }
		int ec = a->init_empty(n, lb, &h);
		if (ec != EC_OK || !h) { if (lb) a->lb_free(lb); throw Fail{"init_empty_clustering failed, status " + std::to_string(ec)}; }
	}
	// existing; mode 0 deep copy, 1 shared
	CL(const VfApi* api, const std::vector<int64_t>& L, uint64_t K, int shared) : a(api), n(L.size())
	{
		lb = a->lb_new(n); for (size_t i = 0; i < n; ++i) a->lb_set(lb, i, L[i]);
		int ec = a->init_existing(n, K, lb, !shared, &h);
		if (ec != EC_OK || !h) { a->lb_free(lb); throw Fail{"init_existing_clustering failed, status " + std::to_string(ec)}; }
		if (!shared) { a->lb_free(lb); lb = nullptr; }
	}
	~CL() { a->free_cl(&h); if (lb) a->lb_free(lb); }
	CL(const CL&) = delete;
	void read(Res& r) const
	{
		uint64_t nn = 0; r.K = 0; r.L.clear();
		if (a->info(h, &nn, &r.K) != EC_OK || nn != n) throw Fail{"clustering info wrong"};
		if (r.K > 0) { r.L.assign(n, 0); if (a->get_labels(h, n, r.L.data()) != EC_OK) throw Fail{"get_cluster_labels failed"};
			if (lb) for (size_t i = 0; i < n; ++i) if (a->lb_get(lb, i) != r.L[i]) throw Fail{"caller-owned label array differs from reported labels"}; }
	}
};
inline Res run_sc_on(const VfApi* a, void* dsh, size_t n, const Opts& o, int storage)
{
	CL cl(a, n, storage); Res r; VfOptions v = raw(o); int mut = 0;
	r.ec = a->sc(dsh, &v, cl.h, &mut);
	if (mut) throw Fail{"options or an array behind them were modified"};
	int ec = r.ec; cl.read(r); r.ec = ec;
	return r;
}
inline Res run_sc(const VfApi* a, const Data& D, const Opts& o, int storage = 0)
{
	DS ds(a, D); Res r = run_sc_on(a, ds.h, D.n, o, storage);
	if (ds.touched()) throw Fail{"data matrix was modified"};
	return r;
}
inline Res run_hier_on(const VfApi* a, void* dsh, size_t n, uint32_t size, int batch, int storage) { CL cl(a, n, storage); Res r; int ec = a->hier(dsh, size, batch, cl.h); cl.read(r); r.ec = ec; return r; }
inline Res run_hier(const VfApi* a, const Data& D, uint32_t size, int batch, int storage = 0)
{
	DS ds(a, D); Res r = run_hier_on(a, ds.h, D.n, size, batch, storage);
	if (ds.touched()) throw Fail{"data matrix was modified"};
	return r;
}
inline Res run_refine(const VfApi* a, const Data& D, const std::vector<int64_t>& L, uint64_t K, uint32_t size, int batch, int shared)
{
	DS ds(a, D); CL cl(a, L, K, shared); Res r; int ec = a->hier(ds.h, size, batch, cl.h); cl.read(r); r.ec = ec;
	if (ds.touched()) throw Fail{"data matrix was modified"};
	return r;
}
inline void show(Ctx& c, const char* what, const std::vector<int64_t>& L)
{
	c.note("%s", what); for (size_t i = 0; i < L.size() && i < 60; ++i) { if (L[i] == VF_NA) c.note(" NA"); else c.note(" %lld", (long long) L[i]); } c.note("; ");
}
// labels of an existing clustering: valid (0..K-1 or NA)
inline std::vector<int64_t> gen_labels(Ctx& c, size_t n, uint64_t& K)
{
	unsigned mode = (unsigned) c.u(6); std::vector<int64_t> L(n);
	K = 1 + c.u(mode == 5 ? 40 : 6);
	for (size_t i = 0; i < n; ++i) {
		int64_t l;
		if (mode == 0) l = (int64_t) (i % K);
		else if (mode == 1) l = (int64_t) (i * K / n);
		else if (mode == 2) { l = (int64_t) c.u(K + 3); if (l >= (int64_t) K) l = (int64_t) K - 1; }   // heavy last
		else if (mode == 3) { l = (int64_t) c.u(K + 3); if (l >= (int64_t) K) l = 0; }                 // heavy first
		else if (mode == 4) { l = (int64_t) c.u(K + 4); if (l >= (int64_t) K) l = (int64_t) (K / 2); } // heavy middle
		else l = (int64_t) c.u(K);
		L[i] = l;
	}
	if (c.chance(1, 3)) for (size_t i = 0; i < n; ++i) if (c.chance(1, 4)) L[i] = VF_NA;
	return L;
}
