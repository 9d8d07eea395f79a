// C10..C15: hierarchical clustering, checker, statistics, status.
#include "line.hpp"
#include "props.hpp"
#include <cfloat>

static const uint64_t BIG = 5000; // one case in so many has more than 2^16 points

// size constraints for hierarchical clustering, biased towards many small clusters
static uint32_t gen_hsize(Ctx& c, size_t n)
{
	unsigned w = (unsigned) c.u(12); uint32_t hi = w < 6 ? 3 : w < 9 ? 7 : w < 11 ? (uint32_t) std::max<size_t>(2, n / 2) : (uint32_t) n;
	if (hi > n) hi = (uint32_t) n;
	if (hi < 2) hi = 2;
	return 2 + (uint32_t) c.u(hi - 1);
}
static void check_sizes_hier(Ctx& c, const Res& r, size_t n, uint32_t size)
{
	REQ(r.K >= 1 && r.L.size() == n, "OK without clusters");
	std::vector<size_t> sz(r.K, 0);
	for (size_t i = 0; i < n; ++i) {
		REQ(r.L[i] != VF_NA, "point %zu is unassigned", i);
		REQ(r.L[i] >= 0 && (uint64_t) r.L[i] < r.K, "label %lld of point %zu outside 0..%llu", (long long) r.L[i], i, (unsigned long long) r.K - 1);
		++sz[(size_t) r.L[i]];
	}
	for (size_t k = 0; k < r.K; ++k) REQ(sz[k] >= size && sz[k] < 2 * (size_t) size, "cluster %zu has %zu members, constraint %u", k, sz[k], size);
}

// ---------------------------------------------------------------- C10
void p_c10(Ctx& c)
{
	if (c.u(2 * BIG) == 2 * BIG - 1) {
		bool huge = c.u(2) == 1; // size constraints beyond 16-bit counts
		LineGen lg; lg.wide = false; lg.lo = huge ? 131072 : 66000; lg.hi = huge ? 150000 : 72000; lg.assign = lg.primary = lg.radius = false; Line l = gen_line(c, lg); uint32_t size = c.u(2) ? l.o.size : 20 + (uint32_t) c.u(400); int batch = (int) c.u(2);
		if (huge) size = c.u(2) ? 65530 + (uint32_t) c.u(12) : 32760 + (uint32_t) c.u(40000);
		Res r = run_line_hier(c.api, l.D, size, batch, (int) c.u(2)); REQ(r.ec == EC_OK, "status %d on a feasible problem", r.ec);
		check_sizes_hier(c, r, l.D.n, size); c.nontrivial = r.K >= 2; c.note(" hierarchical size=%u batch=%d -> K=%llu", size, batch, (unsigned long long) r.K);
		return;
	}
	bool deep = c.u(200) == 199;
	size_t n = deep ? 200 + (size_t) c.u(900) : gen_n(c, 2, 40, c.u(8) == 7 ? 700 : 150);
	Data D = deep ? gen_deep(c, n) : gen_data(c, n); uint32_t size = deep ? 2 + (uint32_t) c.u(2) : gen_hsize(c, n); int batch = (int) c.u(2), st = (int) c.u(2);
	if (c.chance(1, 30)) size = (uint32_t) n + 1 + (uint32_t) c.u(3);
	show(c, D); c.note("size=%u batch=%d", size, batch);
	Res r = run_hier(c.api, D, size, batch, st);
	if (n < size) { REQ(r.ec == EC_NOSOL && r.K == 0, "status %d, K=%llu with fewer points than the constraint", r.ec, (unsigned long long) r.K); c.lab("too few points"); return; }
	REQ(r.ec == EC_OK, "status %d on a feasible problem", r.ec);
	check_sizes_hier(c, r, n, size);
	c.lab(D.kind); c.nontrivial = r.K >= 2;
	c.note(" -> K=%llu", (unsigned long long) r.K);
}

// ---------------------------------------------------------------- C11
// relation between the input clusters and the refined ones; false if nothing was assigned
static bool check_refined(Ctx& c, const std::vector<int64_t>& L, uint64_t K, const Res& r, uint32_t size, std::vector<std::vector<size_t>>& in, size_t& big, size_t& kept, size_t& empty)
{
	size_t n = L.size(); std::vector<std::vector<size_t>> out(r.K); bool any = false; in.assign(K, {}); big = kept = empty = 0;
	for (size_t i = 0; i < n; ++i) {
		if (L[i] == VF_NA) { REQ(r.K == 0 || r.L[i] == VF_NA, "unassigned point %zu becomes assigned; %s", i, str(r).c_str()); continue; }
		any = true;
		REQ(r.K > 0 && r.L[i] != VF_NA && r.L[i] >= 0 && (uint64_t) r.L[i] < r.K, "point %zu has no valid label; %s", i, str(r).c_str());
		in[(size_t) L[i]].push_back(i); out[(size_t) r.L[i]].push_back(i);
	}
	if (!any) { c.lab("nothing assigned"); REQ(r.K == 0, "clusters out of nothing"); return false; }
	for (size_t k = 0; k < r.K; ++k) { // every output cluster lies inside one input cluster
		REQ(!out[k].empty(), "label %zu unused; %s", k, str(r).c_str());
		for (size_t i : out[k]) REQ(L[i] == L[out[k][0]], "cluster %zu mixes input clusters %lld and %lld; %s", k, (long long) L[out[k][0]], (long long) L[i], str(r).c_str());
		const auto& src = in[(size_t) L[out[k][0]]];
		if (src.size() < 2 * (size_t) size) REQ(out[k] == src, "small input cluster %lld was taken apart; %s", (long long) L[out[k][0]], str(r).c_str());
		else REQ(out[k].size() >= size && out[k].size() < 2 * (size_t) size, "cluster %zu from a large input cluster has %zu members; %s", k, out[k].size(), str(r).c_str());
	}
	for (auto& s : in) { if (s.empty()) ++empty; else if (s.size() < 2 * (size_t) size) ++kept; else ++big; }
	return true;
}
void p_c11(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) { // more clusters than 16 bits can number
		const VfApi* a = c.api; size_t n = 140000 + (size_t) c.u(30000); Rng rng(c.u(1ull << 40)); Data D; D.kind = "many small clusters"; D.d = 1; D.n = n;
		unsigned shape = (unsigned) c.u(3); std::vector<int64_t> L; uint64_t K = 0;
		for (size_t i = 0; i < n; ++i) D.x.push_back((double) (rng.next() % 100000));
		while (L.size() < n) {
			size_t m = 1 + rng.next() % 2; if (rng.next() % 64 == 0) m = 4 + rng.next() % 20;
			for (size_t i = 0; i < m && L.size() < n; ++i) L.push_back(rng.next() % 100 == 0 ? (int64_t) VF_NA : (int64_t) K);
			++K; if (rng.next() % 200 == 0) ++K;
		}
		if (shape == 1) std::reverse(L.begin(), L.end());
		if (shape == 2) for (size_t i = n; i > 1; --i) std::swap(L[i - 1], L[rng.next() % i]);
		uint32_t size = 2 + (uint32_t) c.u(3); int batch = (int) c.u(2); show(c, D); show(c, "existing", L); c.note("n=%zu K=%llu size=%u batch=%d", n, (unsigned long long) K, size, batch);
		Res r = run_refine(a, D, L, K, size, batch, (int) c.u(2)); REQ(r.ec == EC_OK, "status %d", r.ec);
		std::vector<std::vector<size_t>> in; size_t big, kept, empty; check_refined(c, L, K, r, size, in, big, kept, empty);
		c.lab("more than 2^16 clusters"); c.nontrivial = true;
		return;
	}
	bool deep = c.u(200) == 199;
	size_t n = deep ? 200 + (size_t) c.u(900) : gen_n(c, 2, 40, c.u(8) == 7 ? 600 : 150);
	Data D = deep ? gen_deep(c, n) : gen_data(c, n); uint64_t K; std::vector<int64_t> L = gen_labels(c, n, K);
	unsigned w = (unsigned) c.u(8); uint32_t hi = w < 6 ? 3 : 8; if (hi > n) hi = (uint32_t) std::max<size_t>(2, n);
	uint32_t size = 2 + (uint32_t) c.u(hi - 1); int batch = (int) c.u(2), shared = (int) c.u(2);
	show(c, D); show(c, "existing", L); c.note("K=%llu size=%u batch=%d shared=%d", (unsigned long long) K, size, batch, shared);
	Res r = run_refine(c.api, D, L, K, size, batch, shared);
	if (n < size) { REQ(r.ec == EC_NOSOL && r.K == K && r.L == L, "status %d with fewer points than the constraint", r.ec); return; }
	REQ(r.ec == EC_OK, "status %d", r.ec);
	std::vector<std::vector<size_t>> in; size_t big, kept, empty;
	if (!check_refined(c, L, K, r, size, in, big, kept, empty)) return;
	size_t largest = 0; for (size_t k = 1; k < K; ++k) if (in[k].size() > in[largest].size()) largest = k;
	if (empty) c.lab("empty input cluster");
	if (kept) c.lab("small cluster kept");
	if (big) c.lab(largest == 0 ? "largest first" : largest + 1 == K ? "largest last" : "largest inside");
	c.nontrivial = big > 0;
	c.note(" -> %s", str(r).c_str());
}

// ---------------------------------------------------------------- C12
struct Group { std::vector<double> x; size_t n = 0; std::vector<double> ext; double diam = 0; std::vector<std::pair<std::vector<size_t>, std::vector<size_t>>> splits; };
static Group gen_group(Ctx& c, uint32_t d, uint32_t size, int batch, int depth, size_t budget)
{
	bool split = depth > 0 && budget >= 2 * (size_t) size && c.u(8) != 0;
	if (!split) {
		Group g; size_t extra = budget - size; size_t n = size + (size_t) (c.chance(1, 4) ? c.u(extra + 1) : c.u(std::min<size_t>(extra, 2 * size) + 1));
		if (batch) n = n / size * size;
		uint64_t w = c.chance(1, 4) ? 1 : 2 + c.u(12);
		g.n = n; g.ext.assign(d, (double) (w - 1)); g.diam = (double) (w - 1) * d;
		for (size_t i = 0; i < n * d; ++i) g.x.push_back((double) c.u(w));
		return g;
	}
	size_t lb = size + (size_t) c.u(budget - 2 * (size_t) size + 1);
	Group a = gen_group(c, d, size, batch, depth - 1, lb), b = gen_group(c, d, size, batch, depth - 1, budget - lb);
	if (c.chance(1, 2)) std::swap(a, b);
	Group g; uint32_t ax = (uint32_t) c.u(d); double gap = std::max(a.diam, b.diam) + 1 + (double) c.u(3);
	g.n = a.n + b.n; g.x = a.x; g.ext = a.ext; double sh = a.ext[ax] + gap;
	for (size_t i = 0; i < b.n; ++i) for (uint32_t k = 0; k < d; ++k) g.x.push_back(b.x[i * d + k] + (k == ax ? sh : 0.0));
	for (uint32_t k = 0; k < d; ++k) g.ext[k] = std::max(a.ext[k], b.ext[k] + (k == ax ? sh : 0.0));
	g.diam = 0; for (uint32_t k = 0; k < d; ++k) g.diam += g.ext[k];
	g.splits = a.splits;
	for (auto& s : b.splits) { auto t = s; for (auto& v : t.first) v += a.n; for (auto& v : t.second) v += a.n; g.splits.push_back(t); }
	std::pair<std::vector<size_t>, std::vector<size_t>> me;
	for (size_t i = 0; i < a.n; ++i) me.first.push_back(i);
	for (size_t i = 0; i < b.n; ++i) me.second.push_back(a.n + i);
	g.splits.push_back(me);
	return g;
}
void p_c12(Ctx& c)
{
	if (c.u(4 * BIG) == 4 * BIG - 1) { // two or three long groups, each farther from the others than it is wide
		LineGen lg; lg.wide = false; lg.hi = 72000; lg.assign = lg.primary = lg.radius = false; Line l = gen_line(c, lg); uint32_t size = l.o.size; int batch = (int) c.u(2);
		size_t n = l.D.n, cut = size + (size_t) c.u(n - 2 * (size_t) size + 1);
		if (batch) { n = n / size * size; cut = cut / size * size; }
		l.D.n = n; l.D.x.resize(n);
		double shift = 2 * l.D.x.back(); for (size_t i = cut; i < n; ++i) l.D.x[i] += shift;
		c.note(" groups of %zu and %zu, size=%u batch=%d", cut, n - cut, size, batch);
		Res r = run_line_hier(c.api, l.D, size, batch, (int) c.u(2)); REQ(r.ec == EC_OK && r.L.size() == n, "status %d", r.ec);
		std::set<int64_t> left(r.L.begin(), r.L.begin() + (long) cut);
		for (size_t i = cut; i < n; ++i) REQ(!left.count(r.L[i]), "cluster %lld has members in two well-separated groups", (long long) r.L[i]);
		c.nontrivial = true;
		return;
	}
	uint32_t d = 1 + (uint32_t) c.u(3), size = 2 + (uint32_t) c.u(c.chance(1, 4) ? 6 : 3); int batch = (int) c.u(2);
	size_t budget = 2 * (size_t) size + (size_t) c.u(c.u(1000) == 999 ? 4000 : c.chance(1, 8) ? 500 : 60); int depth = 1 + (int) c.u(5);
	Group g = gen_group(c, d, size, batch, depth, budget);
	std::vector<size_t> pos(g.n); for (size_t i = 0; i < g.n; ++i) pos[i] = i;
	unsigned order = (unsigned) c.u(3);
	if (order == 1) std::reverse(pos.begin(), pos.end());
	if (order == 2) for (size_t i = g.n; i > 1; --i) std::swap(pos[i - 1], pos[(size_t) c.u(i)]);
	Data D; D.kind = "nested groups"; D.n = g.n; D.d = d; D.x.resize(g.n * d);
	for (size_t i = 0; i < g.n; ++i) for (uint32_t k = 0; k < d; ++k) D.x[pos[i] * d + k] = g.x[i * d + k];
	show(c, D); c.note("size=%u batch=%d", size, batch);
	if (D.n < 2) return;
	Res r;
	if (c.chance(1, 3)) { // the groups are one cluster of an existing clustering
		size_t extra = (size_t) c.u(8); std::vector<int64_t> L(D.n, 0); uint64_t K = 1 + c.u(3); int64_t own = (int64_t) c.u(K);
		for (auto& l : L) l = own;
		std::vector<size_t> keep; std::vector<double> y; std::vector<int64_t> M; size_t i = 0;
		for (size_t e = 0; e <= extra; ++e) { // other points, in clusters of their own or unassigned, between them
			size_t upto = e == extra ? D.n : std::min(D.n, i + (size_t) c.u(D.n / (extra + 1) + 2));
			for (; i < upto; ++i) { keep.push_back(M.size()); M.push_back(own); y.insert(y.end(), D.x.begin() + (long) (i * d), D.x.begin() + (long) ((i + 1) * d)); }
			if (e == extra) break;
			uint64_t w = c.u(K + 1); M.push_back(w == K || (int64_t) w == own ? (int64_t) VF_NA : (int64_t) w); for (uint32_t k = 0; k < d; ++k) y.push_back((double) c.u(200));
		}
		Data E; E.kind = "nested groups and others"; E.n = M.size(); E.d = d; E.x = y; show(c, "existing", M);
		Res q = run_refine(c.api, E, M, K, size, batch, (int) c.u(2)); r.ec = q.ec; r.K = q.K;
		REQ(q.ec == EC_OK && q.L.size() == E.n, "status %d", q.ec);
		for (size_t k : keep) r.L.push_back(q.L[k]);
		c.lab("refined");
	} else r = run_hier(c.api, D, size, batch, (int) c.u(2));
	REQ(r.ec == EC_OK && r.L.size() == D.n, "status %d", r.ec);
	for (auto& s : g.splits) {
		std::set<int64_t> left; for (size_t i : s.first) left.insert(r.L[pos[i]]);
		for (size_t i : s.second) REQ(!left.count(r.L[pos[i]]), "cluster %lld has members in two well-separated groups (group of %zu and group of %zu points); %s", (long long) r.L[pos[i]], s.first.size(), s.second.size(), str(r).c_str());
	}
	c.lab(g.splits.empty() ? "single group" : g.splits.size() == 1 ? "two groups" : "nested groups");
	c.nontrivial = !g.splits.empty();
	c.note(" -> %s", str(r).c_str());
}

// ---------------------------------------------------------------- C13
static bool ref_check(const Opts& o, const std::vector<int64_t>& L, uint64_t K)
{
	size_t n = L.size();
	for (auto l : L) if (l != VF_NA && (l < 0 || (uint64_t) l >= K)) return false;
	if (o.has_primary) for (auto p : o.primary) if (L[(size_t) p] == VF_NA) return false;
	if (K > n) return false; // an empty cluster is too small
	std::vector<size_t> sz((size_t) K, 0); for (auto l : L) if (l != VF_NA) ++sz[(size_t) l];
	for (auto m : sz) if (m < o.size) return false;
	if (o.types()) for (uint32_t t = 0; t < o.num_types; ++t) if (o.tc[t] > 0) {
		std::fill(sz.begin(), sz.end(), 0); for (size_t i = 0; i < n; ++i) if (L[i] != VF_NA && o.tl[i] == (int64_t) t) ++sz[(size_t) L[i]];
		for (auto m : sz) if (m < o.tc[t]) return false;
	}
	return true;
}
// clusters with more members than small integer types can count
static void c13_large(Ctx& c)
{
	const VfApi* a = c.api; size_t big = (size_t) 65536 * (1 + (size_t) c.u(2)), K = 1 + (size_t) c.u(3); Opts o; o.size = 2 + (uint32_t) c.u(3);
	std::vector<int64_t> L; std::vector<size_t> cnt;
	for (size_t k = 0; k < K; ++k) { unsigned w = (unsigned) c.u(4); size_t m = k == 0 ? big + (size_t) c.u(5) : w == 0 ? (size_t) o.size - 1 : w == 1 ? 255 + (size_t) c.u(4) : (size_t) o.size + (size_t) c.u(3); cnt.push_back(m); for (size_t i = 0; i < m; ++i) L.push_back((int64_t) k); }
	if (c.u(2)) std::reverse(L.begin(), L.end());
	if (c.u(2)) { o.num_types = 2; o.tc = {1, 1}; unsigned w = (unsigned) c.u(3); for (size_t i = 0; i < L.size(); ++i) o.tl.push_back(w == 0 ? (int64_t) (i % 2) : w == 1 ? 0 : 1); if (w) { size_t i = (size_t) c.u(L.size()); o.tl[i] = 1 - o.tl[i]; } if (c.u(2)) { uint32_t m = (uint32_t) c.u(3); o.tc[c.u(2)] = m; } }
	c.note("cluster sizes"); for (size_t m : cnt) c.note(" %zu", m); show(c, o);
	CL cl(a, L, K, (int) c.u(2)); VfOptions v = raw(o); int ok = -1; int ec = a->check(cl.h, &v, &ok, 0);
	bool few = false; if (o.types()) { size_t t[2] = {0, 0}; for (auto y : o.tl) ++t[y]; few = t[0] < o.tc[0] || t[1] < o.tc[1]; }
	if (few) return;
	REQ(ec == EC_OK, "checker status %d", ec);
	bool ex = ref_check(o, L, K); REQ((ok == 1) == ex, "checker says %s, definition says %s", ok ? "valid" : "invalid", ex ? "valid" : "invalid");
	c.lab(ex ? "large, valid" : "large, invalid"); c.nontrivial = true;
}
// more clusters, primary points or types than small integer types can count, and at most one thing wrong
static void c13_many(Ctx& c)
{
	const VfApi* a = c.api; Opts o; o.size = 2 + (uint32_t) c.u(4); unsigned w = (unsigned) c.u(4);
	uint64_t K = w == 0 ? 1 + c.u(40) : w == 1 ? 250 + c.u(3000) : w == 2 ? 250 + c.u(12000) : 65530 / o.size + c.u(24000); std::vector<int64_t> L;
	if (c.u(2)) { o.num_types = 2 + (uint32_t) c.u(3); o.tc.assign(o.num_types, 0); uint32_t left = o.size; for (auto& v : o.tc) { v = (uint32_t) c.u(std::min<uint32_t>(left, 2) + 1); left -= v; } }
	unsigned order = (unsigned) c.u(3); size_t n = (size_t) K * o.size; std::vector<int64_t> to((size_t) K); Rng r(c.u(1ull << 40));
	for (size_t i = 0; i < n; ++i) L.push_back(order ? (int64_t) (i / o.size) : (int64_t) (i % K));
	if (o.types()) { std::vector<int64_t> row; for (uint32_t t = 0; t < o.num_types; ++t) row.insert(row.end(), o.tc[t], t); while (row.size() < o.size) row.push_back((int64_t) (r.next() % o.num_types)); for (size_t i = 0; i < n; ++i) o.tl.push_back(row[order ? i % o.size : i / K]); }
	for (size_t e = (size_t) c.u(2) * (n / 3); e > 0; --e) { bool na = r.next() % 2; L.push_back(na ? (int64_t) VF_NA : (int64_t) (r.next() % K)); if (o.types()) o.tl.push_back((int64_t) (r.next() % o.num_types)); }
	n = L.size(); if (order == 2) for (size_t i = n; i > 1; --i) { size_t j = r.next() % i; std::swap(L[i - 1], L[j]); if (o.types()) std::swap(o.tl[i - 1], o.tl[j]); }
	if (c.u(2)) { o.has_primary = true; unsigned skip = (unsigned) c.u(5); for (size_t i = 0; i < n; ++i) if (L[i] != VF_NA && (skip == 0 || r.next() % (10 * skip) != 0)) o.primary.push_back((int64_t) i); if (o.primary.empty()) o.primary.push_back(0); }
	unsigned bad = (unsigned) c.u(8); size_t at = c.u(3) == 0 ? n - 1 - (size_t) c.u(3) % n : (size_t) c.u(n);
	if (bad == 1) L[at] = VF_NA; else if (bad == 2) L[at] = (int64_t) c.u(K); else if (bad == 3) L[at] = (int64_t) K; else if (bad == 4 && o.types()) o.tl[at] = (int64_t) c.u(o.num_types); else if (bad == 5 && o.has_primary) { int64_t y = (int64_t) c.u(n); auto z = std::lower_bound(o.primary.begin(), o.primary.end(), y); if (z == o.primary.end() || *z != y) o.primary.insert(z, y); } else if (bad == 6) ++K; else if (bad == 7) { ++o.size; }
	if (o.types() && K <= 60 && c.u(3) > 0) spread_types(c, o);
	c.note("n=%zu K=%llu defect=%u at %zu", n, (unsigned long long) K, bad, at); show(c, o);
	CL cl(a, L, K, (int) c.u(2)); VfOptions v = raw(o); int ok = -1; int ec = a->check(cl.h, &v, &ok, 0);
	REQ(ec == EC_OK, "checker status %d", ec);
	bool ex = ref_check(o, L, K); REQ((ok == 1) == ex, "checker says %s, definition says %s", ok ? "valid" : "invalid", ex ? "valid" : "invalid");
	c.lab(ex ? "many clusters, valid" : "many clusters, invalid"); c.nontrivial = true;
}
void p_c13(Ctx& c)
{
	const VfApi* a = c.api;
	if (c.u(1000) == 999) { if (c.u(2)) c13_many(c); else c13_large(c); return; }
	if (c.chance(1, 4)) { // the checker accepts what the clustering functions return
		size_t n = gen_n(c, 2, 24, 60); Data D = gen_data(c, n); OptGen g; Opts o = gen_opts(c, D, g); show(c, D); show(c, o);
		bool hier = c.chance(1, 4);
		DS ds(a, D); CL cl(a, n, (int) c.u(2)); VfOptions v = raw(o); int mut = 0;
		if (hier) { o.types() ? (void) 0 : (void) 0; Opts h; h.size = o.size; o = h; v = raw(o); }
		int ec = hier ? a->hier(ds.h, o.size, (int) c.u(2), cl.h) : a->sc(ds.h, &v, cl.h, &mut);
		if (ec != EC_OK) { c.lab("no clustering"); return; }
		Res r; cl.read(r); int ok = -1; ec = a->check(cl.h, &v, &ok, 0);
		REQ(ec == EC_OK, "checker status %d", ec);
		bool ex = ref_check(o, r.L, r.K); REQ((ok == 1) == ex && ok != 99, "checker says %d, definition says %d; %s", ok, ex, str(r).c_str());
		bool allp = true; for (size_t i = 0; i < n; ++i) if (o.is_primary(i) && r.L[i] == VF_NA && o.has_primary) allp = false;
		if (allp) REQ(ok == 1, "checker rejects the result of a clustering function; %s", str(r).c_str());
		Res r2; cl.read(r2); REQ(r.K == r2.K && r.L == r2.L, "the checker changed the clustering");
		c.lab(ok ? "accepts own result" : "rejects own result"); c.nontrivial = r.K >= 1;
		return;
	}
	size_t n = gen_n(c, 2, 24, 80); uint64_t K = 1 + c.u(5); Opts o; o.size = 2 + (uint32_t) c.u(std::min<size_t>(n - 1, 3)); if (o.size > n) o.size = (uint32_t) n;
	std::vector<int64_t> L(n); unsigned mode = (unsigned) c.u(3);
	if (K > n) K = n;
	for (size_t i = 0; i < n; ++i) L[i] = mode == 0 ? (int64_t) (i % K) : mode == 1 ? (int64_t) (i * K / n) : (int64_t) c.u(K);
	if (c.chance(1, 2)) gen_types(c, n, o, false);
	if (o.types() && c.chance(2, 3)) { // repair so that the constraints are nearly met everywhere
		std::vector<std::vector<uint32_t>> cnt(K, std::vector<uint32_t>(o.num_types, 0)); for (size_t i = 0; i < n; ++i) ++cnt[(size_t) L[i]][(size_t) o.tl[i]];
		for (uint32_t t = 0; t < o.num_types; ++t) { uint32_t m = UINT32_MAX; for (uint64_t k = 0; k < K; ++k) m = std::min(m, cnt[k][t]); if (o.tc[t] > m) o.tc[t] = m; }
		if (c.chance(1, 4)) o.tc[(size_t) c.u(o.num_types)] += 1;
	}
	if (c.chance(1, 3)) gen_primary(c, n, o);
	if (c.chance(1, 2)) o.size = (uint32_t) std::max<size_t>(2, std::min<size_t>(n, n / K));
	unsigned edits = (unsigned) c.u(4); // small corruptions
	for (unsigned e = 0; e + 1 < edits; ++e) {
		size_t i = (size_t) c.u(n); unsigned w = (unsigned) c.u(6);
		if (w == 0) L[i] = VF_NA; else if (w == 1) L[i] = (int64_t) c.u(K); else if (w == 2) L[i] = (int64_t) K; else if (w == 3) L[i] = (int64_t) K + 1 + (int64_t) c.u(1000);
		else if (w == 4) { size_t j = (size_t) c.u(n); std::swap(L[i], L[j]); }
		else if (a->clabel_signed) L[i] = -1 - (int64_t) c.u(5); else L[i] = (int64_t) K;
	}
	if (c.chance(1, 12)) ++K; // an empty cluster
	show(c, "labels", L); show(c, o); c.note("K=%llu", (unsigned long long) K);
	if (a->na_raw == -1 || a->clabel_signed == 0) for (auto& l : L) if (l == a->na_raw) l = VF_NA;
	int shared = (int) c.u(2); CL cl(a, L, K, shared); VfOptions v = raw(o); int ok = -1;
	// irrelevant to the checker, but legal
	int ec = a->check(cl.h, &v, &ok, 0);
	if (o.size > n) { REQ(ec == EC_NOSOL && ok == 0, "status %d", ec); return; }
	REQ(ec == EC_OK, "checker status %d", ec);
	bool ex = ref_check(o, L, K);
	REQ(ok != 99, "checker modified the options"); REQ((ok == 1) == ex, "checker says %s, definition says %s", ok ? "valid" : "invalid", ex ? "valid" : "invalid");
	std::vector<int64_t> L2(n); REQ(a->get_labels(cl.h, n, L2.data()) == EC_OK, "labels unreadable");
	uint64_t nn, kk; REQ(a->info(cl.h, &nn, &kk) == EC_OK && nn == n && kk == K && L2 == L, "the checker changed the clustering");
	c.lab(ex ? "valid" : "invalid"); c.nontrivial = true;
	c.note(" -> %s", ex ? "valid" : "invalid");
}

// ---------------------------------------------------------------- C14
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
void p_c14(Ctx& c)
{
	const VfApi* a = c.api; Data D; uint64_t K = 0; std::vector<int64_t> L; size_t n;
	if (c.u(BIG) == BIG - 1) { // more clusters than 16 bits can number, and one of a few hundred points
		unsigned w = (unsigned) c.u(2); n = w ? 140000 + (size_t) c.u(9000) : 66000 + (size_t) c.u(70000); Rng rng(c.u(1ull << 40)); D.kind = "many clusters"; D.d = 1; D.n = n; size_t big = (size_t) c.u(400);
		for (size_t i = 0; i < n; ++i) { D.x.push_back((double) (rng.next() % 4096)); L.push_back(i < big ? 0 : (int64_t) K); if (i < big || rng.next() % (w ? 2 : 9) == 0) K = i < big ? 1 : K + 1; }
		K += 1 + c.u(3); c.lab("more than 2^16 points");
	} else {
		n = gen_n(c, 1, 30, 150); D = gen_data(c, std::max<size_t>(n, 2)); n = D.n; L = gen_labels(c, n, K);
		if (c.chance(1, 10)) for (auto& l : L) l = VF_NA;
		if (c.chance(1, 6)) K += 1 + c.u(4);
	}
	show(c, D); show(c, "labels", L); c.note("K=%llu", (unsigned long long) K);
	DS ds(a, D); CL cl(a, L, K, (int) c.u(2)); VfStats s; int ec = a->stats(ds.h, cl.h, &s);
	REQ(ec == EC_OK, "status %d", ec);
	std::vector<std::vector<size_t>> m(K); for (size_t i = 0; i < n; ++i) if (L[i] != VF_NA) m[(size_t) L[i]].push_back(i);
	uint64_t asg = 0, pop = 0, mn = UINT64_MAX, mx = 0; long double sum = 0, amin = 0, amax = 0, w = 0, uw = 0; double dmin = DBL_MAX, dmax = 0; bool multi = false, single = false;
	for (auto& g : m) {
		if (g.empty()) continue;
		++pop; asg += g.size(); mn = std::min<uint64_t>(mn, g.size()); mx = std::max<uint64_t>(mx, g.size());
		if (g.size() == 1) { dmin = 0; single = true; continue; }
		multi = true; long double cs = 0; double lo = DBL_MAX, hi = 0; size_t p = 0;
		for (size_t x = 0; x < g.size(); ++x) for (size_t y = 0; y < x; ++y, ++p) { double d = D.dist(g[x], g[y]); cs += d; lo = std::min(lo, d); hi = std::max(hi, d); }
		sum += cs; amin += lo; amax += hi; w += (long double) g.size() * cs / (long double) p; uw += cs / (long double) p; dmin = std::min(dmin, lo); dmax = std::max(dmax, hi);
	}
	REQ(s.num_data_points == n && s.num_assigned == asg && s.num_clusters == K && s.num_populated_clusters == pop, "counts: %llu points %llu assigned %llu clusters %llu populated, expected %zu %llu %llu %llu",
	    (unsigned long long) s.num_data_points, (unsigned long long) s.num_assigned, (unsigned long long) s.num_clusters, (unsigned long long) s.num_populated_clusters, n, (unsigned long long) asg, (unsigned long long) K, (unsigned long long) pop);
	REQ(s.min_cluster_size == mn && s.max_cluster_size == mx, "sizes %llu..%llu, expected %llu..%llu", (unsigned long long) s.min_cluster_size, (unsigned long long) s.max_cluster_size, (unsigned long long) mn, (unsigned long long) mx);
	double P = (double) pop;
	REQ(near(s.avg_cluster_size, pop ? (double) asg / P : 0.0), "avg_cluster_size %.17g", s.avg_cluster_size);
	REQ(near(s.sum_dists, (double) sum), "sum_dists %.17g expected %.17g", s.sum_dists, (double) sum);
	REQ(near(s.min_dist, dmin), "min_dist %.17g expected %.17g", s.min_dist, dmin);
	REQ(near(s.max_dist, dmax), "max_dist %.17g expected %.17g", s.max_dist, dmax);
	REQ(near(s.avg_min_dist, pop ? (double) amin / P : 0), "avg_min_dist %.17g expected %.17g", s.avg_min_dist, (double) amin / P);
	REQ(near(s.avg_max_dist, pop ? (double) amax / P : 0), "avg_max_dist %.17g expected %.17g", s.avg_max_dist, (double) amax / P);
	REQ(near(s.avg_dist_weighted, pop ? (double) (w / (long double) asg) : 0), "avg_dist_weighted %.17g expected %.17g", s.avg_dist_weighted, (double) (w / (long double) asg));
	REQ(near(s.avg_dist_unweighted, pop ? (double) (uw / (long double) pop) : 0), "avg_dist_unweighted %.17g expected %.17g", s.avg_dist_unweighted, (double) (uw / (long double) pop));
	Res r; cl.read(r); REQ(r.K == K && r.L == L && !ds.touched(), "computing statistics changed the clustering or the data");
	if (single) c.lab("one-point cluster");
	if (pop < K) c.lab("empty cluster");
	if (pop == 0) c.lab("nothing assigned");
	if (c.chance(1, 6)) { // failed calls report zeros
		VfStats z; unsigned w2 = (unsigned) c.u(3); int e2;
		if (w2 == 0) e2 = a->stats(ds.h, nullptr, &z);
		else if (w2 == 1) { CL e(a, n, 0); e2 = a->stats(ds.h, e.h, &z); }
		else { CL o(a, std::vector<int64_t>(n + 1, 0), 1, 0); e2 = a->stats(ds.h, o.h, &z); }
		REQ(e2 == EC_INVALID, "status %d for an invalid statistics call", e2);
		REQ(!z.num_data_points && !z.num_assigned && !z.num_clusters && !z.num_populated_clusters && !z.min_cluster_size && !z.max_cluster_size && z.avg_cluster_size == 0 && z.sum_dists == 0 && z.min_dist == 0 && z.max_dist == 0 &&
		    z.avg_min_dist == 0 && z.avg_max_dist == 0 && z.avg_dist_weighted == 0 && z.avg_dist_unweighted == 0, "a failed call does not report zeros");
		c.lab("failed call");
	}
	c.nontrivial = multi && pop >= 2;
}

// ---------------------------------------------------------------- C15
void p_c15(Ctx& c)
{
	const VfApi* a = c.api; size_t n = gen_n(c, 2, 22, 50); Data D = gen_data(c, n); OptGen g; g.feasible_types = !c.chance(1, 3); g.radius_w = 9; g.primary_w = 7;
	Opts o = gen_opts(c, D, g); if (c.chance(1, 12)) { o.size = (uint32_t) n + 1 + (uint32_t) c.u(2); if (o.types()) { o.tc.assign(o.num_types, 0); } }
	if (o.rs == RM_SUPPLIED && c.chance(1, 3)) o.vs *= 0.3; // tighter
	show(c, D); show(c, o);
	if (o.rs == RM_SUPPLIED) { // the scaled radius must stay unambiguous
		double q = D.rkey(o.vs); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { double k = D.key(i, j); if (k != q && std::fabs(k - q) <= 2e-9 * q) { c.lab("radius too close to a distance"); return; } if (k == q && !(D.exact && (D.metric != 0 || std::sqrt(k) == o.vs))) { c.lab("radius too close to a distance"); return; } }
	}
	Model M(D, o); int want = EC_OK; const char* why = "feasible";
	if (n < o.size) { want = EC_NOSOL; why = "too few points"; }
	else {
		if (o.types()) { std::vector<size_t> cnt(o.num_types, 0); for (auto t : o.tl) ++cnt[(size_t) t]; for (uint32_t t = 0; t < o.num_types; ++t) if (cnt[t] < o.tc[t]) { want = EC_NOSOL; why = "too few points of a type"; } }
		if (want == EC_OK) { bool any = false; for (size_t p = 0; p < n && !any; ++p) any = M.seedable(p); if (!any) { want = EC_NOSOL; why = "no possible seed"; } }
	}
	DS ds(a, D); CL cl(a, n, (int) c.u(2)); VfOptions v = raw(o); int mut = 0;
	int ec = a->sc(ds.h, &v, cl.h, &mut); Res r; cl.read(r);
	bool either = false;
	Opts b = o; b.pum = UM_IGNORE; b.sum = UM_IGNORE;
	bool est = (o.pum != UM_IGNORE && o.rp == RM_EST) || (o.sum != UM_IGNORE && o.r2 == RM_EST);
	if (want == EC_OK && est) {
		Res base = run_sc(a, D, b, 0); REQ(base.ec == EC_OK, "seed clusters alone: status %d although a seed exists", base.ec);
		Leftover LO(M, base);
		if (LO.bad_cluster() != SIZE_MAX) { c.lab("seed cluster not recognised"); return; }
		LO.estimate();
		if (LO.est_hi == 0) { want = EC_NOSOL; why = "estimated radius zero"; }
		else if (LO.est_lo == 0) { either = true; why = "estimated radius may be zero"; }
		else why = "feasible, estimated radius";
	}
	if (either) REQ(ec == EC_OK || ec == EC_NOSOL, "status %d", ec);
	else REQ(ec == want, "status %d, expected %d (%s)", ec, want, why);
	if (ec == EC_NOSOL) {
		REQ(r.K == 0, "%llu clusters after no-solution", (unsigned long long) r.K);
		// the object can be used again
		if (n >= 2) { Opts e; e.size = 2; VfOptions ve = raw(e); int e2 = a->sc(ds.h, &ve, cl.h, &mut); Res r2; cl.read(r2); r2.ec = e2; Res f = run_sc(a, D, e, 0); REQ(same(r2, f) && e2 == EC_OK, "after no-solution the object gives %s, a fresh one %s", str(r2).c_str(), str(f).c_str()); }
	}
	c.lab(why); c.nontrivial = true;
	c.note("-> %d (%s)", ec, why);
}

// ---------------------------------------------------------------- C27
// Is the partition of P what repeated two-centre splits give? Centres are some pair of points that are farthest from each other.
struct SplitSearch {
	const Data& D; uint32_t size; bool batch; const std::vector<int64_t>& L; long budget = 20000; size_t splits = 0; std::set<std::vector<size_t>> bad;
	// two-centre rule; all distances distinct
	void split(const std::vector<size_t>& P, size_t c1, size_t c2, std::vector<size_t>& A, std::vector<size_t>& B) const
	{
		std::vector<size_t> e1, e2; for (size_t p : P) if (p != c1 && p != c2) { e1.push_back(p); e2.push_back(p); }
		std::sort(e1.begin(), e1.end(), [&](size_t a, size_t b) { return D.key(c1, a) < D.key(c1, b); });
		std::sort(e2.begin(), e2.end(), [&](size_t a, size_t b) { return D.key(c2, a) < D.key(c2, b); });
		std::map<size_t, int> own; own[c1] = 1; own[c2] = 2;
		auto next = [&](const std::vector<size_t>& e, size_t k) { std::vector<size_t> v; for (size_t p : e) if (!own.count(p) && v.size() < k) v.push_back(p); return v; };
		auto give = [&](const std::vector<size_t>& v, int w) { for (size_t p : v) own[p] = w; };
		std::vector<size_t> a = next(e1, size - 1), b = next(e2, size - 1);
		if (D.key(c1, a.back()) > D.key(c2, b.back())) { give(a, 1); give(next(e2, size - 1), 2); } else { give(b, 2); give(next(e1, size - 1), 1); }
		while (own.size() < P.size()) {
			size_t k = batch ? std::min<size_t>(size, P.size() - own.size()) : 1; a = next(e1, k); b = next(e2, k);
			if (D.key(c1, a.back()) < D.key(c2, b.back())) give(a, 1); else give(b, 2);
		}
		A.clear(); B.clear(); for (size_t p : P) (own[p] == 1 ? A : B).push_back(p);
	}
	// 1 yes, 0 no, -1 gave up
	int valid(const std::vector<size_t>& P)
	{
		if (P.size() < 2 * (size_t) size) { for (size_t p : P) if (L[p] != L[P[0]]) return 0; return 1; }
		if (bad.count(P)) return 0;
		if (--budget < 0) return -1;
		std::vector<size_t> far(P.size());
		for (size_t i = 0; i < P.size(); ++i) { size_t f = i ? 0 : 1; for (size_t j = 0; j < P.size(); ++j) if (j != i && D.key(P[i], P[j]) > D.key(P[i], P[f])) f = j; far[i] = f; }
		bool unknown = false;
		for (size_t i = 0; i < P.size(); ++i) {
			if (far[i] < i || far[far[i]] != i) continue; // mutually farthest, each pair once
			std::vector<size_t> A, B; split(P, P[i], P[far[i]], A, B);
			std::set<int64_t> la; for (size_t p : A) la.insert(L[p]);
			bool mix = false; for (size_t p : B) if (la.count(L[p])) { mix = true; break; }
			if (mix) continue;
			++splits;
			int x = valid(A); if (x == 0) continue;
			int y = valid(B); if (y == 0) continue;
			if (x == 1 && y == 1) return 1;
			unknown = true;
		}
		if (unknown) return -1;
		bad.insert(P);
		return 0;
	}
};
static bool all_distances_distinct(const Data& D)
{
	std::vector<double> v; for (size_t i = 0; i < D.n; ++i) for (size_t j = 0; j < i; ++j) v.push_back(D.key(i, j));
	std::sort(v.begin(), v.end());
	for (size_t i = 0; i < v.size(); ++i) if (i == 0 ? !(v[0] > 0) : !D.dlt(v[i - 1], v[i])) return false;
	return true;
}
void p_c27(Ctx& c)
{
	size_t n = c.u(4000) == 3999 ? 300 + (size_t) c.u(1200) : gen_n(c, 4, 24, c.u(20) == 19 ? 300 : 60); static const int kinds[] = {DK_INTS, DK_INTS, DK_REAL, DK_REAL, DK_BLOBS, DK_POW2, DK_SCALED};
	int kind = kinds[c.u(sizeof kinds / sizeof kinds[0])]; if (n > 60) kind = DK_REAL;
	Data D = gen_data_kind(c, n, kind); uint32_t size = c.chance(1, 2) ? 2 + (uint32_t) c.u(2) : 2 + (uint32_t) c.u(std::max<size_t>(1, n / 2 - 1)); int batch = (int) c.u(2);
	bool refine = c.chance(1, 3); std::vector<int64_t> L(n, 0); uint64_t K = 1; if (refine) L = gen_labels(c, n, K);
	show(c, D); c.note("size=%u batch=%d ", size, batch); if (refine) show(c, "existing", L);
	if (!all_distances_distinct(D)) { c.lab("ties, skipped"); return; }
	Res r = refine ? run_refine(c.api, D, L, K, size, batch, (int) c.u(2)) : run_hier(c.api, D, size, batch, (int) c.u(2));
	if (n < size) { c.lab("too few points"); return; }
	REQ(r.ec == EC_OK, "status %d", r.ec);
	if (r.K == 0) return;
	size_t splits = 0;
	std::vector<std::vector<size_t>> in(K); for (size_t i = 0; i < n; ++i) if (L[i] != VF_NA) in[(size_t) L[i]].push_back(i);
	for (auto& P : in) {
		if (P.size() < 2 * (size_t) size) continue;
		for (size_t p : P) REQ(r.L[p] != VF_NA, "point %zu is unassigned", p);
		SplitSearch s{D, size, batch != 0, r.L, 20000, 0, {}}; int v = s.valid(P); splits += s.splits;
		if (v < 0) { c.lab("search inconclusive"); continue; }
		REQ(v == 1, "the %zu points starting with %zu are not divided as splits around mutually farthest centres would divide them; %s", P.size(), P[0], str(r).c_str());
	}
	if (refine) c.lab("refinement");
	c.lab(batch ? "batch assignment" : "one by one"); c.nontrivial = splits > 0;
	c.note("-> %s", str(r).c_str());
}

// ---------------------------------------------------------------- C28
void p_c28(Ctx& c)
{
	const VfApi* a = c.api; size_t n = gen_n(c, 2, 24, 90); Data D = gen_data(c, n); show(c, D);
	VfOptions v; a->default_options(&v); int mut = 0; DS ds(a, D);
	if (c.chance(1, 8)) { // the size constraint has to be chosen
		CL cl(a, n, (int) c.u(2)); int ec = a->sc(ds.h, &v, cl.h, &mut); Res r; cl.read(r); REQ(ec == EC_INVALID && r.K == 0, "untouched default options: status %d, K=%llu", ec, (unsigned long long) r.K);
		int ok = 1; CL ex(a, std::vector<int64_t>(n, 0), 1, 0); ec = a->check(ex.h, &v, &ok, 0); REQ(ec == EC_INVALID && ok == 0, "checker with untouched default options: status %d, verdict %d", ec, ok); c.lab("untouched"); return;
	}
	// default options with some fields set against all fields spelled out
	OptGen g; Opts o = gen_opts(c, D, g), e; unsigned keep = (unsigned) c.u(256); if (c.chance(1, 3)) keep = 0;
	VfOptions x = raw(o); v.size_constraint = e.size = o.size; bool plain = true;
	if (o.sm == SM_BATCHES) keep |= 1;
	if (keep & 1) { v.seed_method = o.sm; v.batch_size = o.batch; e.sm = o.sm; e.batch = o.batch; if (o.sm == SM_BATCHES) { keep |= 8; } plain = plain && true; }
	if ((keep & 2) && o.types()) { v.num_types = x.num_types; v.type_constraints = x.type_constraints; v.len_type_constraints = x.len_type_constraints; v.type_labels = x.type_labels; v.len_type_labels = x.len_type_labels; v.cnt_type_labels = x.cnt_type_labels; e.num_types = o.num_types; e.tc = o.tc; e.tl = o.tl; plain = false; }
	if ((keep & 4) && o.has_primary) { v.primary = x.primary; v.len_primary = x.len_primary; v.cnt_primary = x.cnt_primary; e.has_primary = true; e.primary = o.primary; plain = false; }
	if (keep & 8) { v.pum = e.pum = o.pum; plain = plain && o.pum != UM_IGNORE; }
	if ((keep & 16) && o.sm != SM_BATCHES) { v.sum = e.sum = o.sum; }
	if (keep & 32) { v.seed_radius = e.rs = o.rs; v.seed_r = e.vs = o.vs; plain = plain && o.rs == RM_NO; }
	if ((keep & 64) && o.sm != SM_BATCHES) { v.prim_radius = e.rp = o.rp; v.prim_r = e.vp = o.vp; plain = plain && (o.rp == RM_NO || o.rp == RM_SEED || e.pum == UM_ANY); if (o.rp == RM_EST) plain = false; }
	if ((keep & 128) && o.sm != SM_BATCHES) { v.sec_radius = e.r2 = o.r2; v.sec_r = e.v2 = o.v2; if (o.r2 == RM_EST) plain = false; }
	show(c, e); c.note("set=%u", keep);
	CL p(a, n, 0), q(a, n, 0); VfOptions y = raw(e); int e1 = a->sc(ds.h, &v, p.h, &mut), e2 = a->sc(ds.h, &y, q.h, &mut); Res r1, r2; p.read(r1); q.read(r2); r1.ec = e1; r2.ec = e2;
	REQ(same(r1, r2), "default options with fields set: %s; all fields spelled out: %s", str(r1).c_str(), str(r2).c_str());
	if (plain) { // nothing restricts the clustering: every point is in a cluster of at least the size
		REQ(e1 == EC_OK, "status %d on a problem without restrictions", e1); check_valid(c, r1, n, e.size, "default options");
		for (size_t i = 0; i < n; ++i) REQ(r1.L[i] != VF_NA, "point %zu is unassigned under default options; %s", i, str(r1).c_str());
		int ok = -1; REQ(a->check(p.h, &v, &ok, 0) == EC_OK && ok == 1, "checker rejects the clustering under the options that made it"); c.lab("unrestricted");
	}
	c.nontrivial = e1 == EC_OK && r1.K >= 2;
}

// ---------------------------------------------------------------- C30
static double far_radius(Ctx& c, const Data& D)
{
	double m = 0; for (size_t i = 0; i < D.n; ++i) for (size_t j = 0; j < i; ++j) m = std::max(m, D.dist(i, j));
	return m * (1.5 + (double) c.u(3)) + 1;
}
// describes the problem in another way; where the order of arcs may matter, only settings that are not looked at are changed
static unsigned rewrite(Ctx& c, Opts& e, size_t n, double far, bool generic, bool types)
{
	bool order = e.pum == UM_ANY || e.sm == SM_IN_UPD || e.sm == SM_EX_UPD; unsigned changed = 0;
	auto did = [&](const char* what) { c.lab(what); ++changed; c.note("%s", what); };
	for (unsigned t = 2 + (unsigned) c.u(4); t > 0; --t) switch (c.u(10)) {
	case 0: if (e.sm != SM_BATCHES) { e.batch = (uint32_t) c.u(1000); did("unused batch size"); } break;
	case 1: if (e.rs != RM_SUPPLIED) { e.vs = (double) c.u(50) - 20; did("unused seed radius"); } if (e.rp != RM_SUPPLIED) { e.vp = (double) c.u(50) - 20; did("unused radius"); } if (e.r2 != RM_SUPPLIED) { e.v2 = (double) c.u(50) - 20; did("unused second radius"); } break;
	case 2: if (e.pum == UM_IGNORE && e.sm != SM_BATCHES) { e.rp = (int) c.u(4); e.vp = 1 + (double) c.u(50); did("radius of no use"); } if (e.sum == UM_IGNORE) { e.r2 = (int) c.u(4); e.v2 = 1 + (double) c.u(50); did("second radius of no use"); } break;
	case 3: if (e.rs == RM_SUPPLIED && e.sm != SM_BATCHES) { if (e.rp == RM_SEED) { e.rp = RM_SUPPLIED; e.vp = e.vs; did("seed radius spelled out"); } else if (e.r2 == RM_SEED) { e.r2 = RM_SUPPLIED; e.v2 = e.vs; did("seed radius spelled out, second"); } }
		else if (e.rs == RM_NO && e.sm != SM_BATCHES) { if (e.rp == RM_SEED) { e.rp = RM_NO; did("no seed radius spelled out"); } else if (e.r2 == RM_SEED) { e.r2 = RM_NO; did("no seed radius spelled out, second"); } }
		break;
	case 4: if (order || !generic) break;
		if (e.rp == RM_NO && e.sm != SM_BATCHES) { e.rp = RM_SUPPLIED; e.vp = far; did("radius beyond all distances"); }
		else if (e.r2 == RM_NO) { e.r2 = RM_SUPPLIED; e.v2 = far; did("second radius beyond all distances"); }
		else if (e.rs == RM_NO && e.sm != SM_BATCHES) { if (e.rp == RM_SEED) e.rp = RM_NO; if (e.r2 == RM_SEED) e.r2 = RM_NO; e.rs = RM_SUPPLIED; e.vs = far; did("seed radius beyond all distances"); }
		break;
	case 5: if (order || !generic) break;
		if (!e.has_primary) { e.has_primary = true; for (size_t i = 0; i < n; ++i) e.primary.push_back((int64_t) i); did("all points primary"); }
		else if (e.primary.size() == n) { e.has_primary = false; e.primary.clear(); did("primary list dropped"); }
		break;
	case 6: if (order || !types || !e.types() || e.num_types > 1000) break;
		{ std::vector<int64_t> to(e.num_types); for (size_t i = 0; i < to.size(); ++i) to[i] = (int64_t) i; for (size_t i = to.size(); i > 1; --i) std::swap(to[i - 1], to[(size_t) c.u(i)]); std::vector<uint32_t> tc = e.tc; for (size_t i = 0; i < to.size(); ++i) e.tc[(size_t) to[i]] = tc[i]; for (auto& y : e.tl) y = to[(size_t) y]; did("types renamed"); }
		break;
	case 7: if (order || !types || !e.types() || e.num_types > 65000) break;
		if (c.chance(1, 6)) { spread_types(c, e); did("many types"); }
		else { uint32_t more = 1 + (uint32_t) c.u(3); e.num_types += more; e.tc.insert(e.tc.end(), more, 0); did("types without members"); }
		break;
	case 8: if (order || !types || !e.types() || e.num_types > 65000) break;
		for (uint32_t t0 = 0; t0 < e.num_types; ++t0) if (e.tc[t0] == 0) { for (auto& y : e.tl) if (y == (int64_t) t0 && c.u(2)) y = (int64_t) e.num_types; ++e.num_types; e.tc.push_back(0); did("type without constraint divided"); break; }
		break;
	default: if (order || !types || e.sm == SM_BATCHES) break;
		if (e.types() && e.tsum() == 0) { e.num_types = 0; e.tc.clear(); e.tl.clear(); did("types without constraints dropped"); }
		else if (!e.types()) { e.num_types = 2 + (uint32_t) c.u(4); e.tc.assign(e.num_types, 0); e.tl.clear(); for (size_t i = 0; i < n; ++i) e.tl.push_back((int64_t) c.u(e.num_types)); did("types without constraints"); }
		break;
	}
	return changed;
}
void p_c30(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) {
		LineGen lg; lg.primary = c.chance(1, 4); Line l = gen_line(c, lg); Opts e = l.o; if (l.o.sm == SM_BATCHES && l.o.size > 60000) return;
		if (rewrite(c, e, l.D.n, 2 * l.D.x.back(), true, false) == 0) { c.lab("nothing changed"); return; }
		show(c, e); Res a = run_line(c.api, l.D, l.o, (int) c.u(2)), b = run_line(c.api, l.D, e, (int) c.u(2)); same_line(c, a, b, "another description");
		c.nontrivial = a.ec == EC_OK && a.K >= 2; return;
	}
	size_t n = gen_n(c, 2, 24, c.u(20) == 19 ? 250 : 80); Data D = c.chance(3, 4) ? gen_generic(c, n) : gen_data(c, n);
	OptGen g; g.types_w = 8; Opts o = gen_opts(c, D, g); if (c.chance(1, 2)) { if (o.sm == SM_IN_UPD) o.sm = SM_IN_ORDER; if (o.sm == SM_EX_UPD) o.sm = SM_EX_ORDER; if (o.pum == UM_ANY && o.sm != SM_BATCHES) o.pum = UM_CASSIGNED; }
	show(c, D); show(c, o);
	bool generic = n <= 100 && D.exact && D.generic(); Opts e = o;
	if (rewrite(c, e, n, far_radius(c, D), generic, generic) == 0) { c.lab("nothing changed"); return; }
	show(c, e);
	Res a = run_sc(c.api, D, o, (int) c.u(2)), b = run_sc(c.api, D, e, (int) c.u(2));
	REQ(same(a, b), "one description gives %s, the other %s", str(a).c_str(), str(b).c_str());
	c.nontrivial = a.ec == EC_OK && a.K >= 2;
}
