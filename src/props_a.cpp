// C01..C09: size-constrained clustering.
#include "line.hpp"
#include "props.hpp"

static Opts ignore_all(const Opts& o) { Opts b = o; b.pum = UM_IGNORE; b.sum = UM_IGNORE; return b; }
static const uint64_t BIG = 5000; // one case in so many has more than 2^16 points
static bool closest(int m) { return m == UM_CASSIGNED || m == UM_CSEED; }

// ---------------------------------------------------------------- C01
void p_c01(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) {
		Line l = gen_line(c); Res r = run_line(c.api, l.D, l.o, (int) c.u(2));
		if (r.ec != EC_OK) { c.lab("not ok"); return; }
		check_valid(c, r, l.D.n, l.o.size, "clustering"); c.nontrivial = r.K >= 2; c.note("-> K=%llu", (unsigned long long) r.K); c.lab("ok");
		return;
	}
	size_t n = gen_n(c, 2, 24, c.u(40) == 39 ? 700 : 90);
	Data D = gen_data(c, n); OptGen g; Opts o = gen_opts(c, D, g); int st = (int) c.u(2);
	show(c, D); show(c, o);
	Res r = run_sc(c.api, D, o, st);
	c.lab(r.ec == EC_OK ? "ok" : "not ok");
	if (r.ec != EC_OK) return;
	check_valid(c, r, n, o.size, "clustering");
	c.nontrivial = r.K >= 2;
	c.note("-> K=%llu", (unsigned long long) r.K);
}

// ---------------------------------------------------------------- C02
void p_c02(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) {
		LineGen lg; lg.types = true; Line l = gen_line(c, lg); Res r = run_line(c.api, l.D, l.o, (int) c.u(2));
		if (r.ec != EC_OK) { c.lab("not ok"); return; }
		check_valid(c, r, l.D.n, l.o.size, "type-constrained clustering"); check_types(c, r, l.o, "type-constrained clustering"); c.nontrivial = r.K >= 2; c.note("-> K=%llu", (unsigned long long) r.K); c.lab("ok");
		return;
	}
	size_t n = gen_n(c, 2, 24, c.u(40) == 39 ? 400 : 90);
	Data D = gen_data(c, n); OptGen g; g.batches = false; g.types_w = 16; Opts o = gen_opts(c, D, g); int st = (int) c.u(2);
	show(c, D); show(c, o);
	Res r = run_sc(c.api, D, o, st);
	c.lab(r.ec == EC_OK ? "ok" : "not ok");
	if (r.ec != EC_OK) return;
	check_valid(c, r, n, o.size, "type-constrained clustering");
	check_types(c, r, o, "type-constrained clustering");
	size_t nz = 0; for (auto v : o.tc) nz += v > 0;
	if (nz == 0) c.lab("all-zero constraints");
	if (o.tsum() == o.size) c.lab("constraints use up the size");
	c.nontrivial = r.K >= 2 && nz >= 1;
	c.note("-> K=%llu", (unsigned long long) r.K);
}

// common set-up for C03, C04, C07: seed clusters and full result
struct Pair { Data D; Opts o; Res base, full; bool ok = false; bool generic = false; };
// thousands of tight pairs on a line, some with a third point at a chosen distance: more than 1000 seeds,
// so that an estimated radius comes from a sample of them
static Pair make_large_pair(Ctx& c)
{
	Pair P; unsigned mw = (unsigned) c.u(8); size_t m = mw == 0 ? 990 + (size_t) c.u(30) : mw < 6 ? 1990 + (size_t) c.u(120) : 2100 + (size_t) c.u(1000); Data& D = P.D; D.kind = "pairs on a line"; D.d = 1;
	unsigned shape = (unsigned) c.u(4); uint64_t third = 10 + c.u(30); double pos = 0; std::vector<double> gap(m);
	for (size_t i = 0; i < m; ++i) gap[i] = shape == 0 ? 10 + (double) c.u(40) : shape == 1 ? (i < m / 2 ? 10 : 60) : shape == 2 ? (i % 2 ? 12 : 70) : (i > m - m / 8 ? 90 : 15);
	// third points lie just inside or outside the radius that the sampled pairs give
	double est = 0; size_t step = m > 1000 ? m / 1000 : 1, cnt = 0; for (size_t i = 0; i < m; i += step, ++cnt) est += gap[i];
	est /= (double) cnt;
	D.exact = D.integer = false;
	for (size_t i = 0; i < m; ++i) {
		D.x.push_back(pos); D.x.push_back(pos + gap[i]);
		if (c.u(third) == 0) {
			static const double rel[] = {1e-2, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6};
			double r = c.u(4) ? est * (1 + (c.u(2) ? 1 : -1) * rel[c.u(6)]) : gap[i] + 1 + (double) c.u(60);
			if (r > 1.1 * gap[i]) D.x.push_back(pos + gap[i] + r);
		}
		pos += 1000 + (double) c.u(50);
	}
	D.n = D.x.size(); Opts& o = P.o; o.size = 2; static const int sm[] = {SM_LEXICAL, SM_BATCHES, SM_IN_ORDER, SM_IN_UPD, SM_EX_ORDER}; o.sm = sm[c.u(5)];
	if (o.sm == SM_BATCHES) o.sm = SM_LEXICAL;
	if (c.u(2)) o.sm = SM_LEXICAL;
	o.pum = c.chance(1, 3) ? UM_CSEED : UM_CASSIGNED; o.sum = (int) c.u(2) ? UM_CSEED : UM_IGNORE; o.rp = RM_EST; o.r2 = c.chance(1, 2) ? RM_EST : RM_NO;
	if (c.chance(1, 3)) { o.rs = RM_SUPPLIED; o.vs = 95.5; }
	show(c, D); show(c, o); c.lab("more than 990 seeds");
	P.base = run_sc(c.api, D, ignore_all(o), 0); P.full = run_sc(c.api, D, o, 0);
	P.ok = P.base.ec == EC_OK && P.full.ec == EC_OK && P.base.L.size() == D.n && P.full.L.size() == D.n;
	return P;
}
static Pair make_pair_(Ctx& c)
{
	if (c.u(3000) == 2999) return make_large_pair(c);
	Pair P; bool gen = c.chance(1, 2);
	size_t n = gen_n(c, 2, 22, 60);
	P.D = gen ? gen_generic(c, n) : gen_data(c, n);
	OptGen g; g.radius_w = 8; g.primary_w = 6; g.types_w = 4; P.o = gen_opts(c, P.D, g);
	if (P.o.pum == UM_IGNORE && P.o.sum == UM_IGNORE) P.o.pum = P.o.sm == SM_BATCHES ? UM_ANY : UM_CASSIGNED;
	show(c, P.D); show(c, P.o);
	P.generic = P.D.generic();
	P.base = run_sc(c.api, P.D, ignore_all(P.o), (int) c.u(2));
	P.full = run_sc(c.api, P.D, P.o, (int) c.u(2));
	if (P.base.ec != EC_OK || P.full.ec != EC_OK) { c.lab("no solution"); return P; }
	P.ok = P.base.L.size() == n && P.full.L.size() == n;
	return P;
}
static size_t count_left(const Pair& P) { size_t l = 0; for (auto v : P.base.L) l += v == VF_NA; return l; }

// ---------------------------------------------------------------- C03
static bool line_leftovers(Ctx& c, int what)
{
	LineGen lg; lg.lexical = true; Line l = gen_line(c, lg); LineModel m(l); std::vector<size_t> seeds; Res e = m.lexical(seeds);
	Res base = run_line(c.api, l.D, ignore_all(l.o), (int) c.u(2)), full = run_line(c.api, l.D, l.o, (int) c.u(2));
	if (base.ec != EC_OK || full.ec != EC_OK || full.L.size() != l.D.n) { c.lab("no solution"); return false; }
	if (!same(e, base)) { c.lab("seed clusters not as expected"); return false; } // C05 judges that
	if (what) REQ(full.K == base.K, "number of clusters changes from %llu to %llu when leftover points are assigned", (unsigned long long) base.K, (unsigned long long) full.K);
	LineLeft(m, base, seeds).check(c, full, what); c.nontrivial = true;
	return true;
}
void p_c03(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) { line_leftovers(c, 0); return; }
	Pair P = make_pair_(c);
	if (!P.ok) return;
	Model M(P.D, P.o);
	std::vector<size_t> seeds; bool known = false;
	if (P.generic && (P.o.sm == SM_LEXICAL || P.o.sm == SM_BATCHES)) { M.build_exact(); Res lr = M.lexical(&seeds); known = same(lr, P.base); }
	Leftover LO(M, P.base, known ? &seeds : nullptr);
	if (LO.bad_cluster() != SIZE_MAX) { c.lab("seed cluster not recognised"); return; } // C05 judges that
	size_t na_seen = 0, late = 0;
	for (size_t p = 0; p < P.D.n; ++p) {
		Leftover::Out a = LO.allowed(p);
		bool may_na = a.labels.count(VF_NA) > 0, may_as = a.labels.size() > (may_na ? 1u : 0u);
		if (P.full.L[p] == VF_NA) { REQ(may_na, "point %zu is unassigned but has to be assigned; seed clusters: %s; result: %s", p, str(P.base).c_str(), str(P.full).c_str()); ++na_seen; }
		else { REQ(may_as, "point %zu is assigned but must stay unassigned; seed clusters: %s; result: %s", p, str(P.base).c_str(), str(P.full).c_str()); if (P.base.L[p] == VF_NA) ++late; }
	}
	if (na_seen) c.lab("some unassigned");
	if (late) c.lab("some assigned later");
	c.nontrivial = count_left(P) > 0;
	c.note("-> %s", str(P.full).c_str());
}

// ---------------------------------------------------------------- C04
void p_c04(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) { // every seed cluster has a member within the seed radius of all its members, leftovers respect their radius
		LineGen lg; lg.lexical = true; Line l = gen_line(c, lg); LineModel m(l); std::vector<size_t> seeds; Res e = m.lexical(seeds);
		Res base = run_line(c.api, l.D, ignore_all(l.o), 0), full = run_line(c.api, l.D, l.o, (int) c.u(2));
		if (base.ec != EC_OK || full.ec != EC_OK || full.L.size() != l.D.n) { c.lab("no solution"); return; }
		auto S = members(base);
		if (l.o.rs == RM_SUPPLIED) for (size_t k = 0; k < S.size(); ++k) {
			bool good = false; for (size_t s : S[k]) { if (!l.o.is_primary(s)) continue; bool in = true; for (size_t q : S[k]) if (l.D.raw(s, q) > m.sr) { in = false; break; } if (in) { good = true; break; } }
			REQ(good, "seed cluster %zu has no primary member within seed radius %g of all members", k, l.o.vs);
		}
		if (same(e, base)) {
			LineLeft f(m, base, seeds); std::vector<int64_t> t;
			for (size_t p = 0; p < l.D.n; ++p) {
				if (base.L[p] != VF_NA || full.L[p] == VF_NA) continue;
				bool ok = (l.o.is_primary(p) && f.stage(p, l.o.pum, f.limit(l.o.rp, l.o.vp), t) != 0) || f.stage(p, l.o.sum, f.limit(l.o.r2, l.o.v2), t) != 0;
				REQ(ok, "leftover point %zu is assigned but nothing assigned (no seed) is within its radius", p);
			}
		}
		c.nontrivial = l.o.rs == RM_SUPPLIED || closest(l.o.pum) || closest(l.o.sum);
		return;
	}
	Pair P = make_pair_(c);
	if (!P.ok) return;
	const Data& D = P.D; const Opts& o = P.o; Model M(D, o);
	auto S = members(P.base);
	if (o.rs == RM_SUPPLIED) {
		for (size_t k = 0; k < S.size(); ++k) {
			bool good = false;
			for (size_t s : S[k]) { if (!o.is_primary(s)) continue; bool a = true; for (size_t q : S[k]) if (D.dgt(D.key(s, q), M.sr)) { a = false; break; } if (a) { good = true; break; } }
			REQ(good, "seed cluster %zu has no primary member within seed radius %.17g of all members; %s", k, o.vs, str(P.base).c_str());
		}
		c.lab("seed radius");
	}
	std::vector<size_t> seeds; bool known = false;
	if (P.generic && (o.sm == SM_LEXICAL || o.sm == SM_BATCHES)) { M.build_exact(); Res lr = M.lexical(&seeds); known = same(lr, P.base); }
	Leftover LO(M, P.base, known ? &seeds : nullptr);
	if (LO.bad_cluster() != SIZE_MAX) return;
	bool any = false;
	for (size_t p = 0; p < D.n; ++p) {
		if (P.base.L[p] != VF_NA || P.full.L[p] == VF_NA) continue;
		int64_t l = P.full.L[p];
		REQ(l >= 0 && (uint64_t) l < P.base.K, "point %zu got label %lld", p, (long long) l);
		double dc = INF, ds = INF;
		for (size_t q : S[(size_t) l]) dc = std::min(dc, D.dist(p, q));
		for (size_t q : LO.cand[(size_t) l]) ds = std::min(ds, D.dist(p, q));
		double lo, hi; bool ok = false; double worst = 0;
		if (o.is_primary(p) && o.pum != UM_IGNORE) {
			if (o.pum == UM_ANY) { hi = o.rs == RM_SUPPLIED ? o.vs : INF; ok = ok || !LO.def_out(dc, hi); worst = hi; }
			else { LO.limit(o.rp, o.vp, lo, hi); ok = ok || !LO.def_out(o.pum == UM_CSEED ? ds : dc, hi); worst = hi; }
		}
		if (closest(o.sum)) { LO.limit(o.r2, o.v2, lo, hi); ok = ok || !LO.def_out(o.sum == UM_CSEED ? ds : dc, hi); worst = std::max(worst, hi); }
		if (worst != INF) any = true;
		REQ(ok, "point %zu assigned to cluster %lld at distance %.17g (nearest seed-cluster member) / %.17g (seed), radius %.17g; seed clusters: %s; result: %s", p, (long long) l, dc, ds, worst, str(P.base).c_str(), str(P.full).c_str());
	}
	c.nontrivial = o.rs == RM_SUPPLIED || any;
	if (any) c.lab("assignment radius in force");
	c.note("-> %s", str(P.full).c_str());
}

// ---------------------------------------------------------------- C05
void p_c05(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) {
		LineGen lg; lg.assign = false; Line l = gen_line(c, lg); LineModel m(l); Res r = run_line(c.api, l.D, l.o, (int) c.u(2));
		if (r.ec != EC_OK) { c.lab("no solution"); return; }
		line_packing(c, m, r); c.nontrivial = r.K >= 2; c.note("-> K=%llu", (unsigned long long) r.K);
		if (l.o.sm == SM_LEXICAL || l.o.sm == SM_BATCHES) { std::vector<size_t> seeds; same_line(c, m.lexical(seeds), r, "lexical packing"); }
		return;
	}
	bool gen = c.chance(1, 2); size_t n = gen_n(c, 2, 24, 80);
	Data D = gen ? gen_generic(c, n) : gen_data(c, n);
	OptGen g; g.assign = false; g.types_w = 5; Opts o = gen_opts(c, D, g);
	show(c, D); show(c, o);
	Res r = run_sc(c.api, D, o, (int) c.u(2));
	if (r.ec != EC_OK) { c.lab("no solution"); return; }
	Model M(D, o);
	REQ(r.L.size() == n && r.K >= 1, "no labels");
	check_packing(c, M, r);
	if (D.generic()) {
		c.lab("tie-free");
		M.build_exact();
		auto S = members(r);
		for (size_t k = 0; k < S.size(); ++k) {
			bool good = false; std::vector<uint32_t> v(S[k].begin(), S[k].end());
			for (size_t s : S[k]) if (M.nb[s] == v) good = true;
			REQ(good, "cluster %zu is not the neighbourhood of any of its members; %s", k, str(r).c_str());
		}
		if (o.sm == SM_LEXICAL || o.sm == SM_BATCHES) { Res e = M.lexical(); REQ(same(e, r), "lexical packing differs: expected %s, got %s", str(e).c_str(), str(r).c_str()); }
	}
	if (o.types()) c.lab("types");
	c.nontrivial = r.K >= 2;
	c.note("-> %s", str(r).c_str());
}

// ---------------------------------------------------------------- C06
typedef std::vector<std::vector<uint32_t>> Nbh; // closed neighbourhoods, empty: cannot be a seed
static bool disjoint(const std::vector<uint32_t>& a, const std::vector<char>& mark) { for (uint32_t q : a) if (mark[q]) return false; return true; }

struct InwardsSearch {
	const Nbh& N; const std::vector<std::vector<uint32_t>>& seq; const std::vector<size_t>* seeds; size_t n; long budget = 4000; std::set<std::vector<char>> memo;
	// returns 1 possible, 0 impossible, -1 out of budget
	int go(size_t j, std::vector<char> assigned, std::vector<char> passed)
	{
		for (;;) {
			if (--budget < 0) return -1;
			std::vector<char> key = passed; key.push_back((char) (j & 127)); key.push_back((char) (j >> 7));
			if (!memo.insert(key).second) return 0;
			std::vector<size_t> cnt(n, 0); std::vector<char> alive(n, 0);
			for (size_t q = 0; q < n; ++q) alive[q] = !N[q].empty() && !assigned[q] && !passed[q];
			for (size_t q = 0; q < n; ++q) if (alive[q]) for (uint32_t p : N[q]) if (p != q) ++cnt[p];
			size_t m = SIZE_MAX; for (size_t p = 0; p < n; ++p) if (alive[p]) m = std::min(m, cnt[p]);
			if (j == seq.size()) { for (size_t p = 0; p < n; ++p) if (alive[p] && disjoint(N[p], assigned)) return 0; return 1; }
			if (m == SIZE_MAX) return 0;
			std::vector<size_t> pass; bool take = false;
			for (size_t p = 0; p < n; ++p) if (alive[p] && cnt[p] == m) {
				if (disjoint(N[p], assigned)) { if (N[p] == seq[j] && (!seeds || (*seeds)[j] == p)) take = true; }
				else pass.push_back(p);
			}
			bool unknown = false;
			if (take) {
				std::vector<char> a2 = assigned; for (uint32_t q : seq[j]) a2[q] = 1;
				if (pass.empty()) { assigned = a2; ++j; continue; }
				int r = go(j + 1, a2, passed);
				if (r == 1) return 1;
				if (r < 0) unknown = true;
			}
			for (size_t p : pass) { std::vector<char> p2 = passed; p2[p] = 1; int r = go(j, assigned, p2); if (r == 1) return 1; if (r < 0) return -1; }
			return unknown ? -1 : 0;
		}
	}
};
// checks a sequence of picked clusters against a seed method; seeds may be unknown
static void check_order(Ctx& c, int method, const Nbh& N, const std::vector<std::vector<uint32_t>>& seq, const std::vector<size_t>* seeds)
{
	size_t n = N.size(); std::vector<char> assigned(n, 0);
	if (method == SM_IN_UPD) {
		InwardsSearch s{N, seq, seeds, n, 4000, {}};
		int r = s.go(0, std::vector<char>(n, 0), std::vector<char>(n, 0));
		if (r < 0) { c.lab("tie search inconclusive"); }
		REQ(r != 0, "no tie-breaking of the inwards-updating order gives this sequence of clusters");
		for (auto& S : seq) { REQ(disjoint(S, assigned), "cluster overlaps an earlier one"); for (uint32_t q : S) assigned[q] = 1; }
		return;
	}
	std::vector<size_t> stat(n, 0);
	std::vector<std::vector<char>> ex;
	if (method == SM_IN_ORDER) { for (size_t q = 0; q < n; ++q) for (uint32_t p : N[q]) if (p != q) ++stat[p]; }
	if (method == SM_EX_ORDER || method == SM_EX_UPD) {
		ex.assign(n, std::vector<char>(n, 0)); std::vector<char> m(n, 0);
		for (size_t q = 0; q < n; ++q) {
			for (uint32_t x : N[q]) m[x] = 1;
			for (size_t p = 0; p < n; ++p) if (p != q && !N[p].empty() && !N[q].empty() && !disjoint(N[p], m)) { ex[q][p] = 1; ++stat[p]; }
			for (uint32_t x : N[q]) m[x] = 0;
		}
	}
	for (size_t j = 0; j <= seq.size(); ++j) {
		std::vector<char> el(n, 0); size_t cnt = 0;
		for (size_t p = 0; p < n; ++p) if (!N[p].empty() && disjoint(N[p], assigned)) { el[p] = 1; ++cnt; }
		if (j == seq.size()) { REQ(cnt == 0, "%zu points could still be seeds after the last cluster", cnt); break; }
		std::vector<size_t> key(n, 0);
		for (size_t p = 0; p < n; ++p) {
			if (!el[p]) continue;
			if (method == SM_LEXICAL || method == SM_BATCHES) key[p] = p;
			else if (method == SM_EX_UPD) { for (size_t q = 0; q < n; ++q) if (el[q] && ex[q][p]) ++key[p]; }
			else key[p] = stat[p];
		}
		size_t mn = SIZE_MAX; for (size_t p = 0; p < n; ++p) if (el[p]) mn = std::min(mn, key[p]);
		bool good = false; size_t got = SIZE_MAX;
		for (size_t p = 0; p < n; ++p) if (el[p] && N[p] == seq[j] && (!seeds || (*seeds)[j] == p)) { got = std::min(got, key[p]); if (key[p] == mn) good = true; }
		REQ(got != SIZE_MAX, "cluster %zu is not the neighbourhood of an eligible point", j);
		REQ(good, "cluster %zu was picked with order value %zu although an eligible point has %zu", j, got, mn);
		for (uint32_t q : seq[j]) assigned[q] = 1;
	}
}
void p_c06(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) {
		LineGen lg; lg.assign = false; Line l = gen_line(c, lg); static const int fixed[] = {SM_LEXICAL, SM_IN_ORDER, SM_BATCHES, SM_EX_ORDER}; l.o.sm = fixed[c.u(l.o.size > 40 ? 3 : 4)]; show(c, l.o);
		LineModel m(l); Res r = run_line(c.api, l.D, l.o, (int) c.u(2));
		if (r.ec != EC_OK) { c.lab("no solution"); return; }
		if (l.o.sm == SM_LEXICAL || l.o.sm == SM_BATCHES) { std::vector<size_t> seeds; same_line(c, m.lexical(seeds), r, "lexical order"); } else line_order(c, m, r);
		c.nontrivial = r.K >= 2; c.note("-> K=%llu", (unsigned long long) r.K);
		return;
	}
	if (c.api->in && c.chance(1, 3)) { // the seed-finding step on arbitrary digraphs
		size_t n = 2 + (size_t) c.u(c.chance(1, 4) ? 18 : 9); Nbh N(n); std::vector<uint64_t> tp(n + 1, 0); std::vector<int64_t> head;
		uint64_t dens = 1 + c.u(6), lim = 1 + c.u(5);
		for (size_t p = 0; p < n; ++p) {
			std::vector<uint32_t> a;
			if (!c.chance(1, 8)) for (size_t q = 0; q < n; ++q) if (q != p && a.size() < lim && c.u(n) < dens) a.push_back((uint32_t) q);
			if (a.size() > 1 && c.chance(1, 2)) std::reverse(a.begin(), a.end());
			for (uint32_t q : a) head.push_back(q);
			tp[p + 1] = head.size();
			if (!a.empty()) { N[p] = a; N[p].push_back((uint32_t) p); std::sort(N[p].begin(), N[p].end()); }
		}
		if (head.empty()) return;
		static const int ms[] = {SM_LEXICAL, SM_IN_ORDER, SM_IN_UPD, SM_EX_ORDER, SM_EX_UPD};
		int m = ms[c.u(5)]; size_t cap = 1 + (size_t) c.u(4), cnt = 0; std::vector<int64_t> out(n + 4, -1);
		c.note("digraph n=%zu method=%d:", n, m); for (size_t p = 0; p < n; ++p) { c.note(" %zu->", p); for (uint64_t e = tp[p]; e < tp[p + 1]; ++e) c.note("%lld,", (long long) head[e]); }
		int ec = c.api->in->find_seeds(n, tp.data(), head.data(), m, cap, &cnt, out.data(), n + 4);
		REQ(ec == EC_OK, "find_seeds status %d", ec);
		REQ(cnt <= n, "more seeds than vertices");
		std::vector<std::vector<uint32_t>> seq; std::vector<size_t> seeds;
		for (size_t i = 0; i < cnt; ++i) { REQ(out[i] >= 0 && (size_t) out[i] < n, "seed out of range"); seeds.push_back((size_t) out[i]); seq.push_back(N[(size_t) out[i]]); REQ(!seq.back().empty(), "seed %lld has no neighbours", (long long) out[i]); }
		check_order(c, m, N, seq, &seeds);
		c.lab("digraph"); c.nontrivial = cnt >= 2;
		return;
	}
	size_t n = gen_n(c, 4, 24, 60); Data D = gen_generic(c, n);
	OptGen g; g.assign = false; g.types_w = 4; g.radius_w = 4; g.primary_w = 4; g.max_size = 8; Opts o = gen_opts(c, D, g);
	show(c, D); show(c, o);
	if (!D.generic()) { c.lab("ties, skipped"); return; }
	Res r = run_sc(c.api, D, o, (int) c.u(2));
	if (r.ec != EC_OK) { c.lab("no solution"); return; }
	Model M(D, o); M.build_exact();
	std::vector<std::vector<uint32_t>> seq;
	for (auto& S : members(r)) seq.push_back(std::vector<uint32_t>(S.begin(), S.end()));
	c.note("-> %s", str(r).c_str());
	check_order(c, o.sm, M.nb, seq, nullptr);
	c.lab("clustering"); c.nontrivial = r.K >= 2;
}

// ---------------------------------------------------------------- C07
void p_c07(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) { line_leftovers(c, 1); return; }
	Pair P = make_pair_(c);
	if (!P.ok) return;
	REQ(P.full.K == P.base.K, "number of clusters changes from %llu to %llu when leftover points are assigned", (unsigned long long) P.base.K, (unsigned long long) P.full.K);
	for (size_t p = 0; p < P.D.n; ++p) if (P.base.L[p] != VF_NA)
		REQ(P.full.L[p] == P.base.L[p], "seed-cluster member %zu changes label; seed clusters: %s; result: %s", p, str(P.base).c_str(), str(P.full).c_str());
	Model M(P.D, P.o); std::vector<size_t> seeds; bool known = false;
	if (P.generic && (P.o.sm == SM_LEXICAL || P.o.sm == SM_BATCHES)) { M.build_exact(); Res lr = M.lexical(&seeds); known = same(lr, P.base); }
	Leftover LO(M, P.base, known ? &seeds : nullptr);
	if (LO.bad_cluster() != SIZE_MAX) { c.lab("seed cluster not recognised"); return; }
	size_t late = 0;
	for (size_t p = 0; p < P.D.n; ++p) {
		if (P.base.L[p] != VF_NA || P.full.L[p] == VF_NA) continue;
		Leftover::Out a = LO.allowed(p); ++late;
		if (a.labels.size() == 1 && a.labels.count(VF_NA)) continue; // whether it may be assigned at all is C03
		REQ(a.labels.count(P.full.L[p]), "leftover point %zu joined cluster %lld, which is not the right one; seed clusters: %s; result: %s", p, (long long) P.full.L[p], str(P.base).c_str(), str(P.full).c_str());
		c.lab(a.labels.size() - a.labels.count(VF_NA) == 1 ? "unique target" : "several targets");
	}
	c.nontrivial = late > 0 && P.base.K >= 2;
	c.note("-> %s", str(P.full).c_str());
}

// ---------------------------------------------------------------- C08
void p_c08(Ctx& c)
{
	bool two = c.chance(1, 3);
	bool large = c.u(1000) == 999, even = large || c.chance(1, 6);
	size_t n = large ? 250 + (size_t) c.u(1000) : gen_n(c, 3, 30, 120); Data D = even ? gen_even(c, n) : two ? gen_generic(c, n) : gen_data(c, n);
	Opts o; uint32_t hi = (uint32_t) std::min<size_t>(n, two ? 2 : large ? 12 : 6); o.size = 2 + (uint32_t) c.u(hi - 1); o.sm = two ? SM_IN_UPD : (int) c.u(6);
	o.pum = two ? (c.u(2) ? UM_CASSIGNED : UM_ANY) : 1 + (int) c.u(3);
	if (o.sm == SM_BATCHES) { o.pum = UM_ANY; o.batch = (uint32_t) c.u(6); }
	show(c, D); show(c, o);
	if (two && (large || !D.generic())) { two = false; }
	if (large) c.lab("several hundred points");
	Res r = run_sc(c.api, D, o, 0);
	REQ(r.ec == EC_OK && r.L.size() == n, "status %d", r.ec);
	Model M(D, o); double lam = 0; for (size_t p = 0; p < n; ++p) lam = std::max(lam, M.kth(p, o.size));
	lam = D.kdist(lam); double f = two ? 2.0 : 4.0, worst = 0;
	for (size_t p = 0; p < n; ++p) {
		if (r.L[p] == VF_NA) { c.lab("unassigned point"); continue; }
		for (size_t q = 0; q < p; ++q) if (r.L[q] == r.L[p]) { double d = D.dist(p, q); worst = std::max(worst, d); REQ(d <= f * lam * (1 + 1e-9), "points %zu and %zu share a cluster at distance %.17g > %g x %.17g; %s", q, p, d, f, lam, str(r).c_str()); }
	}
	if (two) c.lab("factor two");
	if (worst > lam) c.lab("beyond lambda");
	if (worst > 2 * lam) c.lab("beyond 2 lambda");
	if (worst > 3 * lam) c.lab("beyond 3 lambda");
	c.nontrivial = r.K >= 2 && worst > 0;
	c.note("-> K=%llu worst/lambda=%g", (unsigned long long) r.K, lam > 0 ? worst / lam : 0.0);
}

// ---------------------------------------------------------------- C09
void p_c09(Ctx& c)
{
	if (c.u(BIG) == BIG - 1) {
		LineGen lg; Line l = gen_line(c, lg); Opts& o = l.o; o.sm = SM_BATCHES; o.pum = (int) c.u(2); o.sum = UM_IGNORE; o.rp = o.r2 = RM_SEED; bool huge = o.size > 60000; o.batch = huge ? 2 : 0; show(c, o); // 0 would need a buffer of n * size entries
		Res r0 = run_line(c.api, l.D, o, 0); Opts b = o; b.batch = huge ? 1 : 1000 + (uint32_t) c.u(70000); Res rb = run_line(c.api, l.D, b, 1);
		same_line(c, r0, rb, "another batch size");
		Opts ig = o; ig.pum = UM_IGNORE; Res ri = run_line(c.api, l.D, ig, 0); Opts lx = ig; lx.sm = SM_LEXICAL; same_line(c, run_line(c.api, l.D, lx, 0), ri, "batches against lexical");
		if (r0.ec == EC_OK && o.pum == UM_ANY) { LineModel m(l); std::vector<size_t> seeds; Res e = m.lexical(seeds); if (same(e, ri)) { LineLeft f(m, ri, seeds); f.check(c, r0, 0); f.check(c, r0, 1); } }
		c.nontrivial = r0.ec == EC_OK && r0.K >= 2;
		return;
	}
	bool gen = c.chance(1, 2); size_t n = gen_n(c, 2, 24, c.u(20) == 19 ? 300 : 80);
	Data D = gen ? gen_generic(c, n) : gen_data(c, n);
	OptGen g; g.types = false; g.assign = false; g.batches = false; g.radius_w = 7; g.primary_w = 7;
	Opts o = gen_opts(c, D, g); o.sm = SM_BATCHES; o.pum = (int) c.u(2); o.sum = UM_IGNORE; o.rp = RM_SEED; o.r2 = RM_SEED;
	show(c, D); o.batch = 0; show(c, o);
	Res r0 = run_sc(c.api, D, o, 0);
	for (int t = 0; t < 4; ++t) {
		Opts b = o; unsigned w = (unsigned) c.u(5);
		b.batch = w == 0 ? 1 : w == 1 ? 2 : w == 2 ? 1 + (uint32_t) c.u(n) : w == 3 ? (uint32_t) n + (uint32_t) c.u(3) : UINT32_MAX - (uint32_t) c.u(2);
		Res r = run_sc(c.api, D, b, (int) c.u(2));
		REQ(same(r, r0), "batch size %u gives %s, batch size 0 gives %s", b.batch, str(r).c_str(), str(r0).c_str());
	}
	Opts ig = o; ig.pum = UM_IGNORE; ig.batch = (uint32_t) c.u(5); Res ri = run_sc(c.api, D, ig, 0);
	Opts lx = ig; lx.sm = SM_LEXICAL; Res rl = run_sc(c.api, D, lx, 0);
	REQ(ri.ec == rl.ec, "status %d with batches, %d with lexical", ri.ec, rl.ec);
	if (D.distinct_points()) { REQ(same(ri, rl), "batches give %s, lexical gives %s", str(ri).c_str(), str(rl).c_str()); c.lab("compared with lexical"); }
	REQ(ri.ec == r0.ec && ri.K == r0.K, "assigning leftovers changes status or number of clusters: %s vs %s", str(ri).c_str(), str(r0).c_str());
	if (r0.ec == EC_OK && o.pum == UM_ANY) {
		Model M(D, o); size_t late = 0;
		for (size_t p = 0; p < n; ++p) {
			if (ri.L[p] != VF_NA) { REQ(r0.L[p] == ri.L[p], "seed-cluster member %zu changes label: %s vs %s", p, str(ri).c_str(), str(r0).c_str()); continue; }
			if (!M.seedable(p)) { REQ(r0.L[p] == VF_NA, "point %zu without enough neighbours (or not primary) is assigned: %s", p, str(r0).c_str()); continue; }
			REQ(r0.L[p] != VF_NA, "leftover point %zu is not assigned: %s", p, str(r0).c_str());
			Model::Thr t = M.thresholds(p); bool ok = false; ++late;
			for (size_t q = 0; q < n && !ok; ++q) if (ri.L[q] == r0.L[p] && M.reach(p, q, t)) ok = true;
			REQ(ok, "leftover point %zu joined cluster %lld without a nearest neighbour in it; %s", p, (long long) r0.L[p], str(r0).c_str());
		}
		if (late) c.lab("leftovers assigned");
	}
	c.nontrivial = r0.ec == EC_OK && r0.K >= 2;
	c.lab(r0.ec == EC_OK ? "ok" : "no solution");
	c.note("-> %s", str(r0).c_str());
}
