// Reference semantics of size-constrained clustering, computed by brute force.
#pragma once
#include "gen.hpp"

static const double INF = 1.0 / 0.0;
enum Tri { NO, MAYBE, YES };

struct Model {
	const Data& D; const Opts& o; size_t n;
	double sr; // key limit of the seed radius
	std::vector<char> seedable_; bool have_seedable = false;
	std::vector<std::vector<uint32_t>> nb; // exact closed neighbourhoods (generic data only)
	Model(const Data& d, const Opts& op) : D(d), o(op), n(d.n), sr(op.rs == RM_SUPPLIED ? d.rkey(op.vs) : INF) {}
	bool in_seed_radius(size_t a, size_t b) const { return D.key(a, b) <= sr; }

	// --- feasibility of p as seed
	bool seedable_calc(size_t p) const
	{
		if (!o.is_primary(p)) return false;
		if (!o.types()) {
			size_t cnt = 0; for (size_t q = 0; q < n; ++q) cnt += in_seed_radius(p, q);
			return cnt >= o.size;
		}
		std::vector<size_t> cnt(o.num_types, 0); size_t tot = 0;
		for (size_t q = 0; q < n; ++q) if (in_seed_radius(p, q)) { ++cnt[(size_t) o.tl[q]]; ++tot; }
		for (uint32_t t = 0; t < o.num_types; ++t) if (cnt[t] < o.tc[t]) return false;
		return tot >= o.size || o.tsum() == o.size; // when the type constraints use up the size they imply it
	}
	bool seedable(size_t p)
	{
		if (!have_seedable) { seedable_.resize(n); for (size_t i = 0; i < n; ++i) seedable_[i] = seedable_calc(i); have_seedable = true; }
		return seedable_[p];
	}
	// --- thresholds
	double kth(size_t p, size_t k) const { std::vector<double> v(n); for (size_t q = 0; q < n; ++q) v[q] = D.key(p, q); std::nth_element(v.begin(), v.begin() + (long) (k - 1), v.end()); return v[k - 1]; }
	double kth_type(size_t p, size_t k, int64_t t) const { std::vector<double> v; for (size_t q = 0; q < n; ++q) if (o.tl[q] == t) v.push_back(D.key(p, q)); if (v.size() < k) return INF; std::nth_element(v.begin(), v.begin() + (long) (k - 1), v.end()); return v[k - 1]; }
	struct Thr { double kappa; std::vector<double> tau; };
	Thr thresholds(size_t p) const
	{
		Thr t; t.kappa = kth(p, o.size);
		if (o.types()) {
			t.tau.assign(o.num_types, -1.0);
			for (uint32_t y = 0; y < o.num_types; ++y) if (o.tc[y] > 0) t.tau[y] = kth_type(p, o.tc[y], (int64_t) y);
			if (o.tsum() >= o.size) t.kappa = -1.0;
		}
		return t;
	}
	// may q be among the neighbours that p would take as seed?
	bool reach(size_t p, size_t q, const Thr& t) const
	{
		if (p == q) return true;
		double lim = t.kappa;
		if (o.types()) lim = std::max(lim, t.tau[(size_t) o.tl[q]]);
		double k = D.key(p, q);
		return !D.dgt(k, lim) && k <= sr;
	}
	bool coincides(size_t s) const { for (size_t q = 0; q < n; ++q) if (q != s && D.key(s, q) == 0) return true; return false; }
	// may S be the cluster seeded by s?
	bool is_core(size_t s, const std::vector<size_t>& S, const std::vector<char>& inS)
	{
		if (!inS[s] || !seedable(s)) return false;
		for (size_t q : S) if (!in_seed_radius(s, q)) return false;
		Thr t = thresholds(s);
		if (!o.types()) {
			if (S.size() != o.size) return false;
			double mx = -1; for (size_t q : S) mx = std::max(mx, D.key(s, q));
			for (size_t q = 0; q < n; ++q) if (!inS[q] && D.dlt(D.key(s, q), mx)) return false;
			return true;
		}
		// the seed is one of the required points of its type, else one of the fillers; without either it comes on top
		bool plus = S.size() == (size_t) o.size + 1;
		if (!plus && S.size() != o.size) return false;
		if (o.tc[(size_t) o.tl[s]] > 0) { if (plus) return false; }
		else if (o.tsum() == o.size) { if (!plus) return false; }
		else if (plus && !coincides(s)) return false;
		std::vector<size_t> cnt(o.num_types, 0);
		double mx_extra = -1; size_t must_extra = 0;
		for (size_t q : S) {
			size_t y = (size_t) o.tl[q]; double k = D.key(s, q);
			if (o.tc[y] > 0 && !D.dgt(k, t.tau[y])) ++cnt[y];
			if (q == s) continue;
			if (o.tc[y] == 0 || D.dgt(k, t.tau[y])) { ++must_extra; mx_extra = std::max(mx_extra, k); if (D.dgt(k, t.kappa)) return false; }
		}
		for (uint32_t y = 0; y < o.num_types; ++y) if (cnt[y] < o.tc[y]) return false;
		if (must_extra > o.size - o.tsum()) return false;
		for (size_t q = 0; q < n; ++q) if (!inS[q]) {
			double k = D.key(s, q); size_t y = (size_t) o.tl[q];
			if (o.tc[y] > 0 && D.dlt(k, t.tau[y])) return false;      // strictly nearer than a required one
			if (D.dlt(k, mx_extra)) return false;                     // strictly nearer than a filler
		}
		return true;
	}
	// exact closed neighbourhoods, tie-free data only; empty for points that cannot be seeds
	void build_exact()
	{
		nb.assign(n, {});
		std::vector<uint32_t> ord(n);
		for (size_t p = 0; p < n; ++p) {
			if (!seedable(p)) continue;
			for (size_t i = 0; i < n; ++i) ord[i] = (uint32_t) i;
			std::sort(ord.begin(), ord.end(), [&](uint32_t a, uint32_t b) { return D.key(p, a) < D.key(p, b); });
			std::vector<uint32_t>& N = nb[p];
			if (!o.types()) N.assign(ord.begin(), ord.begin() + o.size);
			else {
				std::vector<uint32_t> need(o.tc); std::vector<char> in(n, 0);
				for (uint32_t q : ord) if (need[(size_t) o.tl[q]] > 0) { --need[(size_t) o.tl[q]]; in[q] = 1; }
				uint32_t extra = o.size - (uint32_t) o.tsum();
				for (uint32_t i = 0; i < o.size && extra > 0; ++i) if (!in[ord[i]]) { in[ord[i]] = 1; --extra; }
				in[p] = 1;
				for (uint32_t i = 0; i < n; ++i) if (in[i]) N.push_back(i);
			}
			std::sort(N.begin(), N.end());
		}
	}
	// lexical seeding on tie-free data
	Res lexical(std::vector<size_t>* seeds = nullptr)
	{
		Res r; r.ec = EC_OK; r.L.assign(n, VF_NA);
		for (size_t p = 0; p < n; ++p) {
			if (nb[p].empty()) continue;
			bool ok = true; for (uint32_t q : nb[p]) if (r.L[q] != VF_NA) ok = false;
			if (!ok) continue;
			for (uint32_t q : nb[p]) r.L[q] = (int64_t) r.K;
			if (seeds) seeds->push_back(p);
			++r.K;
		}
		if (r.K == 0) { r.ec = EC_NOSOL; r.L.clear(); }
		return r;
	}
};

inline std::vector<std::vector<size_t>> members(const Res& r)
{
	std::vector<std::vector<size_t>> m(r.K);
	for (size_t i = 0; i < r.L.size(); ++i) if (r.L[i] != VF_NA && r.L[i] >= 0 && (uint64_t) r.L[i] < r.K) m[(size_t) r.L[i]].push_back(i);
	return m;
}
inline std::vector<char> flags(size_t n, const std::vector<size_t>& S) { std::vector<char> f(n, 0); for (size_t i : S) f[i] = 1; return f; }

// labels are NA or 0..K-1, all used, all clusters large enough
inline void check_valid(Ctx& c, const Res& r, size_t n, uint32_t size, const char* what)
{
	REQ(r.K >= 1, "%s: OK but no clusters", what);
	REQ(r.L.size() == n, "%s: label count", what);
	std::vector<size_t> sz(r.K, 0);
	for (size_t i = 0; i < n; ++i) {
		if (r.L[i] == VF_NA) continue;
		REQ(r.L[i] >= 0 && (uint64_t) r.L[i] < r.K, "%s: label %lld of point %zu outside 0..%llu", what, (long long) r.L[i], i, (unsigned long long) r.K - 1);
		++sz[(size_t) r.L[i]];
	}
	for (size_t k = 0; k < r.K; ++k) REQ(sz[k] >= size, "%s: cluster %zu has %zu members, constraint %u", what, k, sz[k], size);
}
inline void check_types(Ctx& c, const Res& r, const Opts& o, const char* what)
{
	if (!o.types()) return;
	std::map<std::pair<int64_t, int64_t>, size_t> cnt;
	for (size_t i = 0; i < r.L.size(); ++i) if (r.L[i] != VF_NA) ++cnt[{r.L[i], o.tl[i]}];
	for (uint64_t k = 0; k < r.K; ++k) for (uint32_t t = 0; t < o.num_types; ++t)
		if (o.tc[t]) { size_t have = cnt[{(int64_t) k, (int64_t) t}]; REQ(have >= o.tc[t], "%s: cluster %llu has %zu points of type %u, constraint %u", what, (unsigned long long) k, have, t, o.tc[t]); }
}

// ---- prediction for leftover points, given the seed clusters (the IGNORE/IGNORE result)
struct Leftover {
	Model& M; const Opts& o; const Data& D; size_t n; const Res& base;
	std::vector<std::vector<size_t>> S, cand;
	double est_lo = 0, est_hi = 0; bool est_done = false;
	Leftover(Model& m, const Res& b, const std::vector<size_t>* seeds = nullptr) : M(m), o(m.o), D(m.D), n(m.n), base(b), S(members(b)), cand(b.K)
	{
		for (size_t k = 0; k < S.size(); ++k) {
			if (seeds) { cand[k] = {(*seeds)[k]}; continue; }
			std::vector<char> f = flags(n, S[k]);
			for (size_t s : S[k]) if (M.is_core(s, S[k], f)) cand[k].push_back(s);
		}
	}
	size_t bad_cluster() const { for (size_t k = 0; k < cand.size(); ++k) if (cand[k].empty()) return k; return SIZE_MAX; }
	void estimate()
	{
		if (est_done) return;
		est_done = true;
		size_t K = S.size(), step = K > 1000 ? K / 1000 : 1, cnt = 0; double lo = 0, hi = 0;
		for (size_t k = 0; k < K; k += step, ++cnt) {
			double l = INF, h = 0;
			for (size_t s : cand[k]) { double m = 0; size_t q = 0; for (size_t t : S[k]) if (t != s) { m += D.dist(s, t); ++q; } m /= (double) q; l = std::min(l, m); h = std::max(h, m); }
			lo += l; hi += h;
		}
		est_lo = lo / (double) cnt; est_hi = hi / (double) cnt;
	}
	// limits (as distances): [lo, hi]
	void limit(int mode, double v, double& lo, double& hi)
	{
		if (mode == RM_SEED) { mode = o.rs; v = o.vs; }
		if (mode == RM_NO) lo = hi = INF;
		else if (mode == RM_SUPPLIED) lo = hi = v;
		else { estimate(); lo = est_lo; hi = est_hi; }
	}
	bool est_needed() const { return (o.pum != UM_IGNORE && o.rp == RM_EST) || (o.sum != UM_IGNORE && o.r2 == RM_EST); }
	bool def_in(double d, double lo) const { return lo == INF || d <= lo * (1 - 1e-9) || (D.exact && d == lo && o_exact(lo)); }
	bool def_out(double d, double hi) const { return hi != INF && d > hi * (1 + 1e-9); }
	bool o_exact(double r) const { return (o.rs == RM_SUPPLIED && r == o.vs) || (o.rp == RM_SUPPLIED && r == o.vp) || (o.r2 == RM_SUPPLIED && r == o.v2); }

	struct Out { std::set<int64_t> labels; }; // VF_NA stands for unassigned
	void stage(size_t p, int method, int rmode, double rv, bool primary_stage, Out& out)
	{
		if (method == UM_IGNORE) { out.labels.insert(VF_NA); return; }
		if (method == UM_ANY) {
			(void) primary_stage;
			if (!M.seedable(p)) { out.labels.insert(VF_NA); return; }
			Model::Thr t = M.thresholds(p);
			for (size_t q = 0; q < n; ++q) if (base.L[q] != VF_NA && M.reach(p, q, t)) out.labels.insert(base.L[q]);
			if (out.labels.empty()) out.labels.insert(VF_NA);
			return;
		}
		double lo, hi; limit(rmode, rv, lo, hi);
		if (method == UM_CASSIGNED) {
			double best = INF; for (size_t q = 0; q < n; ++q) if (base.L[q] != VF_NA) best = std::min(best, D.key(p, q));
			double d = D.kdist(best);
			if (!def_out(d, hi)) for (size_t q = 0; q < n; ++q) if (base.L[q] != VF_NA && !D.dgt(D.key(p, q), best)) out.labels.insert(base.L[q]);
			if (!def_in(d, lo)) out.labels.insert(VF_NA);
			return;
		}
		// closest seed: every cluster's seed is one of its candidates
		std::vector<double> mn(S.size(), INF), mx(S.size(), -1);
		for (size_t k = 0; k < S.size(); ++k) for (size_t s : cand[k]) { mn[k] = std::min(mn[k], D.key(p, s)); mx[k] = std::max(mx[k], D.key(p, s)); }
		double a = INF, b = INF; size_t ai = 0; // smallest and second smallest of mx
		for (size_t k = 0; k < S.size(); ++k) { if (mx[k] < a) { b = a; a = mx[k]; ai = k; } else if (mx[k] < b) b = mx[k]; }
		bool some_in = false;
		for (size_t k = 0; k < S.size(); ++k) {
			double other = k == ai ? b : a;
			if (!D.dgt(mn[k], other) && !def_out(D.kdist(mn[k]), hi)) out.labels.insert((int64_t) k);
			if (def_in(D.kdist(mx[k]), lo)) some_in = true;
		}
		if (!some_in) out.labels.insert(VF_NA);
	}
	// all outcomes the specification allows for point p
	Out allowed(size_t p)
	{
		Out r;
		if (base.L[p] != VF_NA) { r.labels.insert(base.L[p]); return r; }
		Out f;
		if (o.is_primary(p)) stage(p, o.pum, o.rp, o.vp, true, f); else f.labels.insert(VF_NA);
		bool na = f.labels.count(VF_NA) > 0; f.labels.erase(VF_NA);
		r.labels = f.labels;
		if (na) { Out s; stage(p, o.sum, o.r2, o.v2, false, s); r.labels.insert(s.labels.begin(), s.labels.end()); }
		return r;
	}
};

// clusters of an IGNORE/IGNORE run form a maximal packing of nearest-neighbour sets (C05)
inline void check_packing(Ctx& c, Model& M, const Res& r)
{
	size_t n = M.n;
	auto S = members(r);
	for (size_t k = 0; k < S.size(); ++k) {
		std::vector<char> f = flags(n, S[k]); bool good = false;
		for (size_t s : S[k]) if (M.is_core(s, S[k], f)) { good = true; break; }
		REQ(good, "cluster %zu is not a seed with its nearest neighbours; %s", k, str(r).c_str());
	}
	for (size_t p = 0; p < n; ++p) {
		if (r.L[p] != VF_NA || !M.seedable(p)) continue;
		Model::Thr t = M.thresholds(p); bool blocked = false;
		for (size_t q = 0; q < n && !blocked; ++q) if (r.L[q] != VF_NA && M.reach(p, q, t)) blocked = true;
		REQ(blocked, "point %zu could still be a seed (none of its nearest neighbours is assigned); %s", p, str(r).c_str());
	}
}
