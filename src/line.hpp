// Problems with more than 2^16 points: increasing points on a line, answered by the fast one-dimensional back end.
#pragma once
#include "model.hpp"

enum { ALL_CALLBACKS = (1u << 10) - 1 };

struct Line {
	Data D; Opts o; uint64_t seed = 0;
	const double* x() const { return D.x.data(); }
	// nearest size points of p among all points (closed neighbourhood) as a range; ties go left, as in the back end
	void nbh(size_t p, uint32_t k, size_t& lo, size_t& hi) const
	{
		lo = p; hi = p + 1;
		while (hi - lo < k) {
			bool left = lo > 0 && (hi >= D.n || D.raw(p, lo - 1) <= D.raw(p, hi));
			if (left) --lo; else ++hi;
		}
	}
};
struct LineGen { bool types = false, radius = true, primary = true, assign = true, lexical = false, batches = true, wide = true; size_t lo = 66000, hi = 150000; };
inline Line gen_line(Ctx& c, const LineGen& g = LineGen())
{
	Line l; bool wide = g.wide && c.u(3) == 2; // fewer points, but size constraints beyond 8-bit counts
	bool huge = !wide && g.wide && g.primary && c.chance(1, 4); // size constraints beyond 16-bit counts, few points that may be seeds
	size_t n = wide ? 1500 + (size_t) c.u(8000) : g.lo + (size_t) c.u(g.hi - g.lo); unsigned shape = (unsigned) c.u(3); l.seed = c.u(1ull << 40); Rng r(l.seed);
	auto rnd = [&](uint64_t m) { return (double) (r.next() % m); };
	Data& D = l.D; D.kind = shape == 0 ? "long line, pairs" : shape == 1 ? "long line, even" : "long line, heavy gaps"; D.d = 1; D.n = n; D.x.reserve(n); D.exact = D.integer = true;
	double pos = 0; size_t left = 0;
	for (size_t i = 0; i < n; ++i) {
		D.x.push_back(pos);
		if (shape == 0) { if (left == 0) { left = rnd(12) == 0 ? 3 : 2; } pos += --left ? 1 + rnd(9) : 20 + rnd(80); }
		else if (shape == 1) pos += 1 + rnd(90);
		else pos += rnd(30) == 0 ? 500 + rnd(500) : 1 + rnd(60);
	}
	Opts& o = l.o; o.size = 2 + (uint32_t) c.u(3); if (shape == 0 && c.u(3)) o.size = 2;
	if (wide) o.size = 100 + (uint32_t) c.u(450);
	if (huge) o.size = 65530 + (uint32_t) c.u(c.u(3) == 2 ? std::min<uint64_t>(n - 65530, 12) : n - 65530);
	static const int sm[] = {SM_LEXICAL, SM_BATCHES, SM_IN_ORDER, SM_IN_UPD, SM_EX_ORDER, SM_EX_UPD};
	o.sm = g.lexical ? SM_LEXICAL : sm[c.u(6)];
	if (o.sm == SM_BATCHES && (!g.batches || g.types)) o.sm = SM_LEXICAL;
	if (wide && (o.sm == SM_EX_ORDER || o.sm == SM_EX_UPD)) { if (c.u(2)) o.sm = SM_IN_UPD; else o.size = 10 + (uint32_t) c.u(20); }
	if (g.types) {
		o.num_types = 2 + (uint32_t) c.u(2); o.tc.assign(o.num_types, 1); if (o.num_types > o.size) o.tc[0] = 0;
		if (wide || huge) { uint32_t left = o.size; for (auto& v : o.tc) { v = (uint32_t) c.u(std::min<uint32_t>(left, o.size / o.num_types + 2) + 1); left -= v; } }
		for (size_t i = 0; i < n; ++i) o.tl.push_back((int64_t) (r.next() % o.num_types));
	}
	if (huge) { o.has_primary = true; std::set<int64_t> q; for (unsigned i = 0, m = 1 + (unsigned) c.u(5); i < m; ++i) q.insert((int64_t) (r.next() % n)); o.primary.assign(q.begin(), q.end()); }
	else if (g.primary && c.chance(1, 3)) { o.has_primary = true; uint64_t skip = 2 + c.u(6); for (size_t i = 0; i < n; ++i) if (r.next() % skip) o.primary.push_back((int64_t) i); }
	if (g.radius && c.chance(1, 2)) { static const double rr[] = {7.5, 20.5, 60.5, 400.5}; o.rs = RM_SUPPLIED; o.vs = rr[c.u(4)] * (wide || huge ? std::max(1.0, o.size / 4.0) : 1.0); }
	o.pum = UM_IGNORE; o.sum = UM_IGNORE;
	if (o.sm == SM_BATCHES) { static const uint32_t b[] = {0, 4096, 65536, 1000, 70000}; o.batch = b[c.u(5)]; if (wide) o.batch = (uint32_t) c.u(600); if (huge) o.batch = 1 + (uint32_t) c.u(8); if (g.assign) o.pum = (int) c.u(2); }
	else if (g.assign) {
		o.pum = (int) c.u(4); unsigned s = (unsigned) c.u(3); o.sum = s == 0 ? UM_IGNORE : s == 1 ? UM_CASSIGNED : UM_CSEED;
		auto rad = [&](int& m, double& v) { unsigned q = (unsigned) c.u(4); m = q == 0 ? RM_SEED : q == 1 ? RM_NO : q == 2 ? RM_SUPPLIED : RM_EST; if (m == RM_SUPPLIED) { static const double rr[] = {5.5, 30.5, 90.5}; v = rr[c.u(3)]; } };
		rad(o.rp, o.vp); rad(o.r2, o.v2);
	}
	show(c, D); show(c, o); c.note("seed=%llu ", (unsigned long long) l.seed); c.lab(huge ? "size constraint beyond 16 bits" : wide ? "large size constraint" : "more than 2^16 points");
	return l;
}
struct LineBackend {
	const VfApi* a; VfBackend b; DS ds;
	LineBackend(const VfApi* api, const Data& D) : a(api), ds(api, D)
	{
		memset(&b, 0, sizeof b); b.n = D.n; b.dim = 1; b.data = D.x.data(); b.fail_at = -1; b.fail_kind = -1; b.line = 1;
		if (!a->install(&b, ds.h, ALL_CALLBACKS)) throw Fail{"set_dist_functions failed"};
	}
	~LineBackend() { a->uninstall(); }
	void ok() const { if (b.contract_broken) throw Fail{std::string("contract: ") + b.contract_msg}; if (ds.touched()) throw Fail{"data matrix was modified"}; }
};
inline Res run_line(const VfApi* a, const Data& D, const Opts& o, int storage) { LineBackend lb(a, D); Res r = run_sc_on(a, lb.ds.h, D.n, o, storage); lb.ok(); return r; }
inline Res run_line_hier(const VfApi* a, const Data& D, uint32_t size, int batch, int storage)
{
	LineBackend lb(a, D); CL cl(a, D.n, storage); Res r; int ec = a->hier(lb.ds.h, size, batch, cl.h); cl.read(r); r.ec = ec; lb.ok();
	return r;
}

// model of the seed clusters, no type constraints
struct LineModel {
	const Line& l; const Opts& o; size_t n; std::vector<size_t> lo, hi; std::vector<char> can; double sr;
	explicit LineModel(const Line& ln) : l(ln), o(ln.o), n(ln.D.n), lo(n), hi(n), can(n), sr(o.rs == RM_SUPPLIED ? o.vs * o.vs : INF)
	{
		std::vector<char> prim(n, o.has_primary ? 0 : 1); for (auto p : o.primary) prim[(size_t) p] = 1;
		for (size_t p = 0; p < n; ++p) { lo[p] = hi[p] = p; if (!prim[p] || n < o.size) continue; l.nbh(p, o.size, lo[p], hi[p]); can[p] = prim[p] && l.D.raw(p, lo[p]) <= sr && l.D.raw(p, hi[p] - 1) <= sr; }
	}
	Res lexical(std::vector<size_t>& seeds) const
	{
		Res r; r.ec = EC_OK; r.L.assign(n, VF_NA);
		for (size_t p = 0; p < n; ++p) {
			if (!can[p]) continue;
			bool f = true; for (size_t q = lo[p]; q < hi[p]; ++q) if (r.L[q] != VF_NA) f = false;
			if (!f) continue;
			for (size_t q = lo[p]; q < hi[p]; ++q) r.L[q] = (int64_t) r.K;
			seeds.push_back(p); ++r.K;
		}
		if (r.K == 0) { r.ec = EC_NOSOL; r.L.clear(); }
		return r;
	}
};
inline void same_line(Ctx& c, const Res& e, const Res& r, const char* what)
{
	REQ(e.ec == r.ec && e.K == r.K, "%s: status %d K=%llu, expected status %d K=%llu", what, r.ec, (unsigned long long) r.K, e.ec, (unsigned long long) e.K);
	REQ(e.L.size() == r.L.size(), "%s: label count", what);
	for (size_t i = 0; i < e.L.size(); ++i) REQ(e.L[i] == r.L[i], "%s: point %zu has label %lld, expected %lld (VF_NA is %lld)", what, i, (long long) r.L[i], (long long) e.L[i], (long long) VF_NA);
}
// clusters are nearest-neighbour sets of a member that may be a seed, and no further point could be one
inline void line_packing(Ctx& c, const LineModel& m, const Res& r, std::vector<std::vector<size_t>>* cands = nullptr)
{
	std::vector<char> have(r.K, 0);
	if (cands) cands->assign(r.K, {});
	std::vector<size_t> sz(r.K, 0); for (auto v : r.L) if (v != VF_NA) { REQ(v >= 0 && (uint64_t) v < r.K, "label %lld", (long long) v); ++sz[(size_t) v]; }
	for (size_t p = 0; p < m.n; ++p) {
		if (!m.can[p]) continue;
		bool all = true, any = false;
		for (size_t q = m.lo[p]; q < m.hi[p]; ++q) { if (r.L[q] != VF_NA) any = true; if (r.L[q] == VF_NA || r.L[q] != r.L[p]) all = false; }
		REQ(any, "point %zu could still be a seed", p);
		if (all && sz[(size_t) r.L[p]] == m.o.size) { have[(size_t) r.L[p]] = 1; if (cands) (*cands)[(size_t) r.L[p]].push_back(p); }
	}
	for (size_t k = 0; k < r.K; ++k) REQ(have[k], "cluster %zu (%zu members) is not a seed with its nearest neighbours", k, sz[k]);
}
// fixed orders (inwards, exclusion): picks in non-decreasing order of the count, blocked points only by earlier or equal ones
inline void line_order(Ctx& c, const LineModel& m, const Res& r)
{
	int sm = m.o.sm; if (sm != SM_IN_ORDER && sm != SM_EX_ORDER) return;
	size_t n = m.n; std::vector<size_t> key(n, 0);
	std::vector<size_t> seeds_at; // points that can be seeds, by position (ranges are monotone enough for a window scan)
	if (sm == SM_IN_ORDER) { for (size_t q = 0; q < n; ++q) if (m.can[q]) for (size_t p = m.lo[q]; p < m.hi[q]; ++p) if (p != q) ++key[p]; }
	else {
		std::vector<std::vector<uint32_t>> at(n); for (size_t q = 0; q < n; ++q) if (m.can[q]) for (size_t p = m.lo[q]; p < m.hi[q]; ++p) at[p].push_back((uint32_t) q);
		std::vector<uint32_t> s;
		for (size_t p = 0; p < n; ++p) if (m.can[p]) { s.clear(); for (size_t q = m.lo[p]; q < m.hi[p]; ++q) s.insert(s.end(), at[q].begin(), at[q].end()); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); key[p] = s.size() - 1; }
	}
	std::vector<std::vector<size_t>> cand; line_packing(c, m, r, &cand);
	std::vector<size_t> kk(r.K, 0); size_t prev = 0;
	for (size_t k = 0; k < r.K; ++k) {
		size_t best = SIZE_MAX; for (size_t p : cand[k]) if (key[p] >= prev) best = std::min(best, key[p]);
		REQ(best != SIZE_MAX, "cluster %zu was picked after one with a larger count (%zu)", k, prev);
		kk[k] = prev = best;
	}
	for (size_t p = 0; p < n; ++p) if (m.can[p]) {
		size_t b = SIZE_MAX; for (size_t q = m.lo[p]; q < m.hi[p]; ++q) if (r.L[q] != VF_NA) b = std::min(b, kk[(size_t) r.L[q]]);
		REQ(b <= key[p], "point %zu with count %zu was passed over for a cluster with count %zu", p, key[p], b);
	}
}
// what happens to leftovers: fill the allowed label range of every leftover; seeds known (lexical)
struct LineLeft {
	const LineModel& m; const Line& l; const Opts& o; const Res& base; const std::vector<size_t>& seeds; size_t n; double est = -1;
	std::vector<size_t> asg;
	LineLeft(const LineModel& mm, const Res& b, const std::vector<size_t>& s) : m(mm), l(mm.l), o(mm.o), base(b), seeds(s), n(mm.n)
	{
		for (size_t i = 0; i < n; ++i) if (base.L[i] != VF_NA) asg.push_back(i);
		ss = seeds; std::sort(ss.begin(), ss.end());
		size_t K = seeds.size(), step = K > 1000 ? K / 1000 : 1, cnt = 0; long double t = 0;
		for (size_t k = 0; k < K; k += step, ++cnt) { double s1 = 0; for (size_t q = m.lo[seeds[k]]; q < m.hi[seeds[k]]; ++q) s1 += l.D.dist(seeds[k], q); t += s1 / (double) (o.size - 1); }
		est = (double) (t / (long double) cnt);
	}
	std::vector<size_t> ss;
	double limit(int mode, double v) const { if (mode == RM_SEED) { mode = o.rs; v = o.vs; } return mode == RM_NO ? INF : mode == RM_SUPPLIED ? v : est; }
	// 0: stays unassigned, 1: target label(s) in out; 2: too close to the limit to say
	int stage(size_t p, int method, double lim, std::vector<int64_t>& out) const
	{
		out.clear();
		if (method == UM_IGNORE) return 0;
		if (method == UM_ANY) { if (!m.can[p]) return 0; for (size_t q = m.lo[p]; q < m.hi[p]; ++q) if (base.L[q] != VF_NA) out.push_back(base.L[q]); return out.empty() ? 0 : 1; }
		const std::vector<size_t>& v = method == UM_CASSIGNED ? asg : ss; size_t r = (size_t) (std::lower_bound(v.begin(), v.end(), p) - v.begin()); double best = INF;
		if (r < v.size()) best = std::min(best, l.D.dist(p, v[r]));
		if (r > 0) best = std::min(best, l.D.dist(p, v[r - 1]));
		if (r < v.size() && l.D.dist(p, v[r]) == best) out.push_back(base.L[v[r]]);
		if (r > 0 && l.D.dist(p, v[r - 1]) == best) out.push_back(base.L[v[r - 1]]);
		if (std::fabs(best - lim) <= 1e-9 * lim) return 2;
		return best <= lim ? 1 : 0;
	}
	// checks the full result; what: 0 assigned or not, 1 the right cluster
	void check(Ctx& c, const Res& full, int what) const
	{
		std::vector<char> prim(n, o.has_primary ? 0 : 1); for (auto p : o.primary) prim[(size_t) p] = 1;
		std::vector<int64_t> t;
		for (size_t p = 0; p < n; ++p) {
			int64_t g = full.L[p];
			if (base.L[p] != VF_NA) { if (what) REQ(g == base.L[p], "seed-cluster member %zu changes label", p); else REQ(g != VF_NA, "seed-cluster member %zu becomes unassigned", p); continue; }
			int s = prim[p] ? stage(p, o.pum, limit(o.rp, o.vp), t) : 0;
			if (s == 0) s = stage(p, o.sum, limit(o.r2, o.v2), t);
			if (s == 2) continue;
			if (what == 0) { REQ((s == 1) == (g != VF_NA), "leftover point %zu is %s", p, s == 1 ? "unassigned but has to be assigned" : "assigned but must stay unassigned"); }
			else if (s == 1 && g != VF_NA) REQ(std::find(t.begin(), t.end(), g) != t.end(), "leftover point %zu joined cluster %lld, expected %lld", p, (long long) g, (long long) t[0]);
		}
	}
};
