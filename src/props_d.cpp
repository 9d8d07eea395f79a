// C18, C19: injected faults. C20, C21: distance back ends. C24, C25: metamorphic and cross-configuration. C26: error text.
#include "model.hpp"
#include "props.hpp"
#include <memory>

static bool same_stats(const VfStats& x, const VfStats& y)
{
	return x.num_data_points == y.num_data_points && x.num_assigned == y.num_assigned && x.num_clusters == y.num_clusters && x.num_populated_clusters == y.num_populated_clusters &&
	       x.min_cluster_size == y.min_cluster_size && x.max_cluster_size == y.max_cluster_size && x.avg_cluster_size == y.avg_cluster_size && x.sum_dists == y.sum_dists && x.min_dist == y.min_dist &&
	       x.max_dist == y.max_dist && x.avg_min_dist == y.avg_min_dist && x.avg_max_dist == y.avg_max_dist && x.avg_dist_weighted == y.avg_dist_weighted && x.avg_dist_unweighted == y.avg_dist_unweighted;
}
static bool zero_stats(const VfStats& s) { VfStats z; memset(&z, 0, sizeof z); return same_stats(s, z); }

// ================================================================ one public call, repeatable
enum { F_SC, F_HIER, F_REFINE, F_STATS, F_CHECK, F_COPY, F_DS, F_EMPTY, F_EXISTING, F_KINDS };
static const char* FN[] = {"cluster", "hierarchical", "refine", "stats", "check", "copy", "init_data_set", "init_empty", "init_existing"};
struct Call {
	int kind = 0; Data D; Opts o; uint32_t size = 2; int batch = 0, storage = 0; uint64_t K = 1; std::vector<int64_t> L; size_t labels_n = 0;
};
static Call gen_call(Ctx& c, bool callbacks_only)
{
	Call q; static const int w[] = {F_SC, F_SC, F_SC, F_SC, F_SC, F_HIER, F_HIER, F_REFINE, F_REFINE, F_STATS, F_CHECK, F_COPY, F_DS, F_EMPTY, F_EXISTING};
	q.kind = w[c.u(callbacks_only ? 10 : sizeof w / sizeof w[0])];
	bool deep = !callbacks_only && c.u(6000) == 5999; if (deep) q.kind = F_REFINE;
	size_t n = deep ? 200 + (size_t) c.u(80) : gen_n(c, 2, 14, c.chance(1, 8) ? 60 : 20, false);
	q.D = deep ? gen_deep(c, n, true) : gen_data(c, n); q.storage = (int) c.u(2); q.batch = (int) c.u(2);
	show(c, q.D);
	if (q.kind == F_SC || q.kind == F_CHECK) { OptGen g; g.radius_w = 6; g.types_w = 6; q.o = gen_opts(c, q.D, g); if (c.u(16) == 15) spoil(c, q.D, q.o); show(c, q.o); }
	if (q.kind == F_HIER) q.size = 2 + (uint32_t) c.u(3);
	if (q.kind != F_SC && q.kind != F_HIER) { q.L = gen_labels(c, n, q.K); q.size = 2 + (uint32_t) c.u(2); show(c, "labels", q.L); c.note("K=%llu ", (unsigned long long) q.K); }
	if (deep) { q.L.assign(n, 0); q.K = 1; q.size = 2; c.lab("deep hierarchy"); }
	if (q.size > n) q.size = (uint32_t) n;
	if (q.size < 2) q.size = 2;
	c.note("%s size=%u batch=%d storage=%d", FN[q.kind], q.size, q.batch, q.storage);
	c.lab(FN[q.kind]);
	return q;
}
struct Outcome { int ec = -1; Res st; VfStats stats; int verdict = 0; bool null_out = true; };
static bool same_outcome(const Call& q, const Outcome& x, const Outcome& y)
{
	if (x.ec != y.ec) return false;
	if (q.kind == F_STATS) return same_stats(x.stats, y.stats);
	if (q.kind == F_CHECK) return x.verdict == y.verdict;
	return x.st.K == y.st.K && x.st.L == y.st.L && x.null_out == y.null_out;
}
// executes the call on existing objects; hooks run right before and after
struct Target {
	const VfApi* a; const Call& q; void* ds; std::unique_ptr<CL> cl; void* made = nullptr; void* lb = nullptr;
	Target(const VfApi* api, const Call& call, void* dsh) : a(api), q(call), ds(dsh)
	{
		size_t n = q.D.n;
		if (q.kind == F_SC || q.kind == F_HIER) cl.reset(new CL(a, n, q.storage));
		else if (q.kind == F_REFINE || q.kind == F_STATS || q.kind == F_CHECK || q.kind == F_COPY) cl.reset(new CL(a, q.L, q.K, q.storage));
		else { lb = a->lb_new(n); for (size_t i = 0; i < n; ++i) a->lb_set(lb, i, q.L.empty() ? 0 : q.L[i]); }
	}
	~Target() { if (made) { if (q.kind == F_DS) a->free_data_set(&made); else a->free_cl(&made); } cl.reset(); if (lb) a->lb_free(lb); }
	void call(Outcome& x, const std::function<void()>& pre, const std::function<void()>& post)
	{
		size_t n = q.D.n; int mut = 0; VfOptions v = raw(q.o); memset(&x.stats, 0x11, sizeof x.stats); x.verdict = 1; made = (void*) (uintptr_t) 0x5a5a5a5aULL;
		std::vector<double> m; const double* mp = q.D.x.data();
		pre();
		switch (q.kind) {
		case F_SC: x.ec = a->sc(ds, &v, cl->h, &mut); break;
		case F_HIER: case F_REFINE: x.ec = a->hier(ds, q.size, q.batch, cl->h); break;
		case F_STATS: x.ec = a->stats(ds, cl->h, &x.stats); break;
		case F_CHECK: x.ec = a->check(cl->h, &v, &x.verdict, 0); break;
		case F_COPY: x.ec = a->copy_cl(cl->h, &made); break;
		case F_DS: x.ec = a->init_data_set(n, q.D.d, n * q.D.d, mp, &made); break;
		case F_EMPTY: x.ec = a->init_empty(n, q.storage ? lb : nullptr, &made); break;
		case F_EXISTING: x.ec = a->init_existing(n, q.K, lb, !q.storage, &made); break;
		}
		post();
		if (q.kind < F_COPY) made = nullptr;
		if (mut) throw Fail{"options modified"};
		x.null_out = made == nullptr;
		x.st = Res(); x.st.ec = x.ec;
		if (cl) { int ec = x.ec; cl->read(x.st); x.st.ec = ec; }
		if (made && q.kind != F_DS) { uint64_t nn = 0; a->info(made, &nn, &x.st.K); if (nn != n) throw Fail{"new object has wrong size"}; x.st.L.clear(); if (x.st.K) { x.st.L.assign(n, 0); if (a->get_labels(made, n, x.st.L.data()) != EC_OK) throw Fail{"labels of the new object cannot be read"}; } }
	}
};
static std::vector<int64_t> spread(int64_t count, int64_t cap)
{
	std::vector<int64_t> v;
	if (count <= cap) { for (int64_t i = 0; i < count; ++i) v.push_back(i); return v; }
	for (int64_t i = 0; i < cap; ++i) v.push_back(i * count / cap);
	return v;
}
static std::string ostr(const Call& q, const Outcome& x)
{
	if (q.kind == F_STATS) { char b[200]; snprintf(b, sizeof b, "status %d, sum of distances %.17g, %llu clusters", x.ec, x.stats.sum_dists, (unsigned long long) x.stats.num_clusters); return b; }
	if (q.kind == F_CHECK) return "status " + std::to_string(x.ec) + " verdict " + std::to_string(x.verdict);
	return str(x.st);
}
// state after a failed call
static void check_failed_state(Ctx& c, const Call& q, const Outcome& x, const char* what)
{
	if (q.kind == F_STATS) REQ(zero_stats(x.stats), "%s: failed, but statistics are not all zero", what);
	if (q.kind == F_CHECK) REQ(x.verdict == 0, "%s: failed, but verdict is true", what);
	if (q.kind >= F_COPY) REQ(x.null_out, "%s: failed, but the new object is not null", what);
	if (q.kind == F_SC || q.kind == F_HIER) REQ(x.st.K == 0, "%s: failed, but the clustering reports %llu clusters", what, (unsigned long long) x.st.K);
	if (q.kind == F_REFINE || q.kind == F_STATS || q.kind == F_CHECK || q.kind == F_COPY) REQ(x.st.K == q.K && x.st.L == q.L, "%s: failed, but the existing clustering became %s", what, str(x.st).c_str());
}

// ---------------------------------------------------------------- C18
// a result buffer of more than 2^32 elements: the request (above the 1 GiB limit of the allocator) is refused
static void c18_huge(Ctx& c)
{
	const VfApi* a = c.api; Data D; D.d = 1; D.n = 65536 + (size_t) c.u(3); D.kind = "line"; for (size_t i = 0; i < D.n; ++i) D.x.push_back((double) i);
	Opts o; o.size = 65536; o.sm = SM_BATCHES; o.pum = (int) c.u(2); o.batch = c.chance(1, 2) ? 0 : 65536; c.note("n=%zu size=65536 batches of %u", D.n, o.batch);
	DS ds(a, D); int64_t base = a->alloc_live(); Res r = run_sc_on(a, ds.h, D.n, o, (int) c.u(2));
	REQ(r.ec == EC_NOMEM, "%zu points, size 65536, batches: status %d although the buffer cannot be allocated", D.n, r.ec);
	REQ(r.K == 0 && a->alloc_live() == base, "clustering not empty or memory leaked");
	c.nontrivial = true; c.lab("huge request");
}
void p_c18(Ctx& c)
{
	if (c.u(4000) == 3999) { c18_huge(c); return; }
	const VfApi* a = c.api; Call q = gen_call(c, false); DS ds(a, q.D); int fill = (int) c.u(256);
	Outcome ref; int64_t count = 0; int64_t base = a->alloc_live();
	{ Target t(a, q, ds.h); t.call(ref, [&] { a->alloc_reset(fill, -1, 0); }, [&] { count = a->alloc_count(); a->alloc_reset(-1, -1, 0); }); }
	REQ(a->alloc_live() == base, "%s leaks %lld blocks without any fault", FN[q.kind], (long long) (a->alloc_live() - base));
	size_t failed = 0;
	for (int from = 0; from < 2; ++from) for (int64_t i : spread(count, 60)) {
		char what[120]; snprintf(what, sizeof what, "%s, allocation %lld of %lld%s fails", FN[q.kind], (long long) i, (long long) count, from ? " and all later ones" : "");
		{
			Target t(a, q, ds.h); Outcome x; int64_t before = a->alloc_live(), after = 0;
			t.call(x, [&] { a->alloc_reset(fill, i, from); }, [&] { after = a->alloc_live(); a->alloc_reset(-1, -1, 0); });
			if (x.ec == EC_NOMEM || x.ec == EC_DIST) {
				++failed; check_failed_state(c, q, x, what);
				REQ(after <= before + ((q.kind == F_SC || q.kind == F_HIER) && !q.storage ? 1 : 0), "%s: %lld blocks are left behind", what, (long long) (after - before));
			} else REQ(same_outcome(q, x, ref), "%s: %s, without the fault: %s", what, ostr(q, x).c_str(), ostr(q, ref).c_str());
			if (x.ec != ref.ec || q.kind >= F_COPY || q.kind == F_STATS || q.kind == F_CHECK) { // again, without the fault
				if (t.made) { if (q.kind == F_DS) a->free_data_set(&t.made); else a->free_cl(&t.made); }
				Outcome y; t.call(y, [] {}, [] {});
				REQ(same_outcome(q, y, ref), "%s: afterwards the same object gives %s instead of %s", what, ostr(q, y).c_str(), ostr(q, ref).c_str());
			}
		}
		REQ(a->alloc_live() == base, "%s: %lld blocks leaked after everything was freed", what, (long long) (a->alloc_live() - base));
		REQ(!ds.touched(), "%s: data modified", what);
	}
	c.nontrivial = failed > 0; c.lab(ref.ec == EC_OK ? "ok without faults" : "not ok without faults");
	c.note(" allocations=%lld", (long long) count);
}

static VfBackend backend(const Data& D, int metric, int tie)
{
	VfBackend b; memset(&b, 0, sizeof b); b.n = D.n; b.dim = D.d; b.data = D.x.data(); b.metric = metric; b.tie = tie; b.fail_at = -1; b.fail_kind = -1; return b;
}
static const unsigned ALL_CB = (1u << CB_COUNT) - 1;

// ---------------------------------------------------------------- C19
void p_c19(Ctx& c)
{
	const VfApi* a = c.api; Call q = gen_call(c, true); int tie = (int) c.u(3);
	VfBackend b = backend(q.D, 0, tie); int64_t base = a->alloc_live(); Outcome ref; int64_t count;
	void* handle = a->zone();
	REQ(a->install(&b, handle, ALL_CB), "back end refused");
	{ Target t(a, q, handle); t.call(ref, [] {}, [] {}); count = b.calls; }
	REQ(!b.contract_broken, "contract: %s", b.contract_msg);
	REQ(b.open_objects == 0, "%lld search objects left open without any fault", (long long) b.open_objects);
	size_t failed = 0;
	for (int from = 0; from < 2; ++from) for (int64_t i : spread(count, 50)) {
		int scribble = (int) ((i + from) & 1);
		{
			VfBackend f = backend(q.D, 0, tie); Outcome x; f.scribble = scribble;
			REQ(a->install(&f, handle, ALL_CB), "back end refused");
			Target t(a, q, handle); f.fail_at = i; f.fail_from = from; int64_t before = a->alloc_live(), after = 0;
			t.call(x, [] {}, [&] { after = a->alloc_live(); });
			static const char* KN[] = {"check", "num", "dist_matrix", "dist_rows", "init_max_dist", "get_max_dist", "close_max_dist", "init_nn_search", "nn_search", "close_nn_search"};
			char what[160]; snprintf(what, sizeof what, "%s, callback %lld of %lld (%s)%s fails%s", FN[q.kind], (long long) i, (long long) count, f.failed_kind >= 0 ? KN[f.failed_kind] : "?", from ? " and all later ones" : "", scribble ? " leaving junk" : "");
			unsigned hard = f.failed_mask & ~((1u << CB_MD_CLOSE) | (1u << CB_NN_CLOSE));
			REQ(!f.contract_broken, "%s: contract: %s", what, f.contract_msg);
			REQ(f.open_objects == 0, "%s: %lld search objects left open", what, (long long) f.open_objects);
			if (hard) REQ(x.ec == EC_DIST, "%s: status %d instead of the distance search error (%s)", what, x.ec, ostr(q, x).c_str());
			if (x.ec == EC_DIST) {
				++failed; check_failed_state(c, q, x, what);
				REQ(after <= before + ((q.kind == F_SC || q.kind == F_HIER) && !q.storage ? 1 : 0), "%s: %lld blocks are left behind", what, (long long) (after - before));
			} else REQ(same_outcome(q, x, ref), "%s: %s, without the fault: %s", what, ostr(q, x).c_str(), ostr(q, ref).c_str());
			f.fail_at = -1;
			if (x.ec != ref.ec) {
				Outcome y; t.call(y, [] {}, [] {});
				REQ(same_outcome(q, y, ref), "%s: afterwards the same object gives %s instead of %s", what, ostr(q, y).c_str(), ostr(q, ref).c_str());
			}
			REQ(!f.contract_broken && f.open_objects == 0, "%s: contract broken by a later call", what);
		}
		REQ(a->alloc_live() == base, "%lld blocks leaked after a failing callback", (long long) (a->alloc_live() - base));
	}
	a->uninstall();
	c.nontrivial = failed > 0; c.note(" callbacks=%lld", (long long) count);
}

// ---------------------------------------------------------------- C20
static void c20_partial(Ctx& c)
{
	const VfApi* a = c.api; size_t n = 4 + (size_t) c.u(20); Data D = gen_generic(c, n); D.generic();
	if (!D.exact || !D.generic()) throw Discard();
	OptGen g; g.types_w = 4; Opts o = gen_opts(c, D, g); show(c, D); show(c, o);
	DS ds(a, D); CL one(a, std::vector<int64_t>(n, 0), 1, 0); VfStats s0, s1;
	Res r0 = run_sc_on(a, ds.h, n, o, 0); uint32_t hs = 2 + (uint32_t) c.u(3); if (hs > n) hs = 2;
	auto hier = [&]() { CL t(a, n, 0); Res r; int ec = a->hier(ds.h, hs, 0, t.h); t.read(r); r.ec = ec; return r; };
	Res h0 = hier(); a->stats(ds.h, one.h, &s0);
	// a history of calls, each with any subset of the single functions and no / partial / whole groups, or a reset
	const unsigned MD = 7u << CB_MD_INIT, NN = 7u << CB_NN_INIT, SINGLE = (1u << CB_CHECK) | (1u << CB_NUM) | (1u << CB_MATRIX) | (1u << CB_ROWS);
	unsigned on = 0, unknown = 0, steps = 1 + (unsigned) c.u(4); bool partial = false;
	VfBackend b = backend(D, 0, 0);
	for (unsigned st = 0; st < steps; ++st) {
		if (st && c.u(5) == 4) { REQ(a->reset_dist() == 1, "reset returns false"); on = unknown = 0; c.note("reset "); memset(b.per_kind, 0, sizeof b.per_kind); }
		else {
			unsigned mask = (unsigned) c.u(16);
			auto group = [&](int first) { unsigned w = (unsigned) c.u(12); if (w > 8) w = 7; return (w & 7u) << first; };
			unsigned md = group(CB_MD_INIT), nn = group(CB_NN_INIT);
			bool md_part = md && md != MD, nn_part = nn && nn != NN;
			if (md_part && nn) nn = 0, nn_part = false; // refusal of one group leaves it open what happens to the other
			if (nn_part && md == MD) md = 0;
			mask |= md | nn;
			int ok = a->install(&b, ds.h, mask);
			c.note("mask=%#x ", mask);
			REQ(ok == (md_part || nn_part ? 0 : 1), "installing functions %#x (installed: %#x) returns %d", mask, on, ok);
			if (ok) { on |= mask; unknown &= ~mask; } else { unknown |= mask & SINGLE & ~on; partial = true; }
		}
		if (st + 1 < steps && c.u(2)) continue;
		Res r1 = run_sc_on(a, ds.h, n, o, 0), h1 = hier(); a->stats(ds.h, one.h, &s1);
		REQ(!b.contract_broken, "contract: %s", b.contract_msg);
		REQ(same(r0, r1), "functions %#x: %s, built-in: %s", on, str(r1).c_str(), str(r0).c_str());
		REQ(same(h0, h1), "functions %#x: hierarchical %s, built-in: %s", on, str(h1).c_str(), str(h0).c_str());
		REQ(same_stats(s0, s1), "functions %#x change the statistics", on);
		for (int k = 0; k < CB_COUNT; ++k) if (!((on | unknown) >> k & 1u)) REQ(b.per_kind[k] == 0, "function %d, refused or not installed, was called", k);
		if ((on & NN) == NN && r0.ec == EC_OK) REQ(b.per_kind[CB_NN_SEARCH] > 0, "installed search functions are not used");
		if ((on & MD) == MD && h0.ec == EC_OK && n >= 2 * (size_t) hs) REQ(b.per_kind[CB_MD_GET] > 0, "installed maximum distance functions are not used");
		if (on & (1u << CB_MATRIX)) REQ(b.per_kind[CB_MATRIX] > 0, "installed distance matrix function is not used");
		if (on & (1u << CB_CHECK)) REQ(b.per_kind[CB_CHECK] > 0, "installed check function is not used");
		if (on & (1u << CB_NUM)) REQ(b.per_kind[CB_NUM] > 0, "installed count function is not used");
		memset(b.per_kind, 0, sizeof b.per_kind);
	}
	REQ(a->reset_dist() == 1, "reset returns false");
	Res r2 = run_sc_on(a, ds.h, n, o, 0), h2 = hier(); int64_t after = 0; for (auto v : b.per_kind) after += v;
	REQ(after == 0, "functions are used after reset"); REQ(same(r0, r2) && same(h0, h2), "results differ after reset");
	a->uninstall();
	c.lab(partial ? "partial group" : "subset"); c.nontrivial = true;
}
void p_c20(Ctx& c)
{
	if (c.u(5) == 4) { c20_partial(c); return; }
	const VfApi* a = c.api; bool gen = c.chance(1, 2); size_t n = gen_n(c, 2, 20, 50);
	Data D = gen ? gen_generic(c, n) : gen_data(c, n); D.metric = (int) c.u(3);
	bool generic = D.exact && D.generic(); int tie = (int) c.u(3);
	if (D.metric == 1 && !D.integer) D.exact = false;
	unsigned op = (unsigned) c.u(4);
	OptGen g; g.radius_w = 6; Opts o = gen_opts(c, D, g); uint32_t size = o.size; int batch = (int) c.u(2);
	uint64_t K = 1; std::vector<int64_t> L = gen_labels(c, n, K);
	show(c, D); show(c, o); c.note("metric=%d tie=%d op=%u batch=%d", D.metric, tie, op, batch);
	VfBackend b = backend(D, D.metric, tie);
	bool eq = generic && D.metric == 0; DS ds(a, D);
	Res r0; VfStats s0, s1; bool have_s = false;
	if (eq) {
		if (op < 2) r0 = run_sc_on(a, ds.h, n, o, 0);
		else if (op == 2) r0 = run_hier(a, D, size, batch, 0);
		else r0 = run_refine(a, D, L, K, size, batch, 0);
	}
	if (D.exact && D.metric == 0) { CL t(a, L, K, 0); REQ(a->stats(ds.h, t.h, &s0) == EC_OK, "stats failed"); have_s = true; }
	REQ(a->install(&b, nullptr, ALL_CB), "back end refused");
	void* H = a->zone(); // cannot be read
	Res r; int mut = 0;
	if (op < 2) { CL t(a, n, (int) c.u(2)); VfOptions v = raw(o); int ec = a->sc(H, &v, t.h, &mut); t.read(r); r.ec = ec; }
	else if (op == 2) { CL t(a, n, 0); int ec = a->hier(H, size, batch, t.h); t.read(r); r.ec = ec; }
	else { CL t(a, L, K, 0); int ec = a->hier(H, size, batch, t.h); t.read(r); r.ec = ec; }
	if (have_s) { CL t(a, L, K, 0); REQ(a->stats(H, t.h, &s1) == EC_OK, "stats failed through the back end"); }
	REQ(!b.contract_broken, "contract: %s", b.contract_msg);
	REQ(b.open_objects == 0, "%lld search objects left open", (long long) b.open_objects);
	if (eq) { REQ(same(r, r0), "back end gives %s, built-in %s", str(r).c_str(), str(r0).c_str()); c.lab("equal to built-in"); }
	if (have_s) REQ(same_stats(s0, s1), "statistics differ from the built-in ones");
	if (op < 2 && r.ec == EC_OK) {
		check_valid(c, r, n, o.size, "user back end"); check_types(c, r, o, "user back end");
		Opts ig = o; ig.pum = UM_IGNORE; ig.sum = UM_IGNORE; Res base;
		{ CL t(a, n, 0); VfOptions v = raw(ig); int ec = a->sc(H, &v, t.h, &mut); t.read(base); base.ec = ec; }
		REQ(base.ec == EC_OK, "status %d with IGNORE", base.ec);
		Model M(D, ig); check_packing(c, M, base);
		Model M2(D, o); Leftover LO(M2, base);
		if (LO.bad_cluster() == SIZE_MAX) for (size_t p = 0; p < n; ++p) { auto al = LO.allowed(p); REQ(al.labels.count(r.L[p]), "point %zu got label %lld which the metric does not allow; seed clusters %s; result %s", p, (long long) r.L[p], str(base).c_str(), str(r).c_str()); }
		REQ(!b.contract_broken && b.open_objects == 0, "contract: %s", b.contract_msg);
		c.lab(D.metric == 0 ? "Euclid" : D.metric == 1 ? "L1" : "Linf");
	}
	if (op < 2) { Model M(D, o); bool any = false; for (size_t p = 0; p < n && !any; ++p) any = M.seedable(p); if (!any) REQ(r.ec == EC_NOSOL, "status %d without any possible seed", r.ec); }
	if (op == 2) { REQ(r.ec == EC_OK, "hierarchical: status %d", r.ec); check_valid(c, r, n, size, "hierarchical, user back end"); for (auto& S : members(r)) REQ(S.size() < 2 * (size_t) size, "hierarchical: cluster of %zu", S.size()); }
	a->uninstall();
	c.nontrivial = r.ec == EC_OK && r.K >= 2;
}

// ---------------------------------------------------------------- C21
static std::vector<int64_t> gen_indices(Ctx& c, size_t n, bool distinct, size_t max)
{
	size_t m = 1 + (size_t) c.u(std::min(n, max)); std::vector<int64_t> v;
	if (!distinct && c.chance(1, 3)) { for (size_t i = 0; i < m; ++i) v.push_back((int64_t) c.u(n)); return v; }
	std::vector<int64_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = (int64_t) i;
	unsigned mode = (unsigned) c.u(3);
	if (mode != 0) for (size_t i = 0; i < m; ++i) std::swap(p[i], p[i + (size_t) c.u(n - i)]);
	v.assign(p.begin(), p.begin() + (long) m);
	if (mode == 2) std::sort(v.begin(), v.end());
	return v;
}
// more points than 16 bits can index, a few queries
static void c21_large(Ctx& c)
{
	const VfApi* a = c.api; const VfInternal* in = a->in; size_t n = 65530 + (size_t) c.u(9000); Rng rng(c.u(1ull << 40)); Data D; D.kind = "many points"; D.d = 1 + (uint32_t) c.u(2); D.n = n;
	for (size_t i = 0; i < n * D.d; ++i) D.x.push_back((double) (rng.next() % 100000));
	std::vector<int64_t> q; for (size_t i = 1 + (size_t) c.u(4); i > 0; --i) q.push_back((int64_t) (c.u(2) ? n - 1 - (size_t) c.u(9000) : (size_t) c.u(n)));
	bool simpl = c.u(2) == 0; std::vector<int64_t> s; if (!simpl) { for (size_t i = 0; i < n; ++i) if (rng.next() % 50) s.push_back((int64_t) i); if (c.u(2)) std::reverse(s.begin(), s.end()); }
	size_t ns = simpl ? n : s.size(), nq = q.size(); const int64_t* sp = simpl ? nullptr : s.data(); int ret = 0; DS ds(a, D); show(c, D); show(c, "queries", q);
	auto at = [&](size_t j) { return simpl ? j : (size_t) s[j]; };
	std::vector<int64_t> oi(nq); std::vector<double> od(nq); in->max_dist(ds.h, ns, sp, nq, q.data(), oi.data(), od.data(), &ret); REQ(ret == 1, "max distance fails");
	uint32_t k = 1 + (uint32_t) c.u(5); size_t okq = 0; std::vector<int64_t> oq(nq), on(nq * k); bool rad = c.u(2); double r = 200.5; in->nn_search(ds.h, ns, sp, nq, q.data(), k, rad, r, 1, 0, &okq, oq.data(), on.data(), &ret); REQ(ret == 1, "search fails");
	std::vector<double> row(nq * ns); in->dist_rows(ds.h, nq, q.data(), ns, sp, row.data(), &ret); REQ(ret == 1, "distance rows fail");
	size_t w = 0; std::vector<char> is(n, simpl ? 1 : 0); for (auto v : s) is[(size_t) v] = 1;
	for (size_t i = 0; i < nq; ++i) {
		size_t p = (size_t) q[i]; std::vector<double> ks(ns); double far = -1;
		for (size_t j = 0; j < ns; ++j) { ks[j] = D.raw(p, at(j)); far = std::max(far, ks[j]); REQ(row[i * ns + j] == std::sqrt(ks[j]), "row %zu column %zu is %.17g, expected %.17g", i, j, row[i * ns + j], std::sqrt(ks[j])); }
		REQ(oi[i] >= 0 && (size_t) oi[i] < n && is[(size_t) oi[i]] && D.raw(p, (size_t) oi[i]) == far && od[i] == std::sqrt(far), "point %lld at %.17g is not farthest from point %zu", (long long) oi[i], od[i], p);
		size_t within = 0; for (double v : ks) within += !rad || v <= r * r;
		if (within < k) continue;
		std::partial_sort(ks.begin(), ks.begin() + k, ks.end());
		REQ(w < okq && oq[w] == (int64_t) p, "query %zu (point %zu) has no answer", i, p);
		std::set<int64_t> used;
		for (uint32_t j = 0; j < k; ++j) { int64_t x = on[w * k + j]; REQ(x >= 0 && (size_t) x < n && is[(size_t) x] && used.insert(x).second && D.raw(p, (size_t) x) == ks[j], "neighbour %u of point %zu is %lld", j, p, (long long) x); }
		++w;
	}
	REQ(w == okq, "%zu answers, expected %zu", okq, w);
	c.lab("more than 2^16 points"); c.nontrivial = nq >= 2;
}
void p_c21(Ctx& c)
{
	const VfApi* a = c.api; const VfInternal* in = a->in;
	if (!in) { c.lab("internal entry points unavailable"); throw Discard(); }
	if (c.u(10000) == 9999) { c21_large(c); return; }
	bool many = c.u(300) == 299; size_t n = many ? 250 + (size_t) c.u(500) : gen_n(c, 2, 20, 60); Data D = gen_data(c, n); DS ds(a, D);
	show(c, D);
	auto near = [&](double got, double want) { return D.exact ? got == want : std::fabs(got - want) <= 1e-12 * want; };
	int ret = 0; unsigned op = (unsigned) c.u(6);
	auto qi = [&](const std::vector<int64_t>* v, size_t i) { return v ? (size_t) (*v)[i] : i; };
	if (op == 0) {
		bool impl = c.chance(1, 3); std::vector<int64_t> v; size_t m;
		if (impl) m = 2 + (size_t) c.u(n - 1); else { v = gen_indices(c, n, false, 30); if (v.size() < 2) v.push_back((int64_t) c.u(n)); m = v.size(); show(c, "points", v); }
		std::vector<double> out(m * (m - 1) / 2); in->dist_matrix(ds.h, m, impl ? nullptr : v.data(), out.data(), &ret);
		REQ(ret == 1, "distance matrix fails"); size_t w = 0;
		for (size_t i = 0; i < m; ++i) for (size_t j = i + 1; j < m; ++j, ++w) { double want = D.dist(qi(impl ? nullptr : &v, i), qi(impl ? nullptr : &v, j)); REQ(near(out[w], want), "matrix entry (%zu,%zu) of %zu points is %.17g, expected %.17g", i, j, m, out[w], want); }
		c.lab("matrix"); c.nontrivial = m > 2; return;
	}
	bool qimpl = c.chance(1, 3), simpl = c.chance(1, 3); std::vector<int64_t> q, s; size_t nq, ns;
	if (qimpl) nq = 1 + (size_t) c.u(many ? 12 : n); else { q = gen_indices(c, n, false, 20); nq = q.size(); show(c, "queries", q); }
	if (simpl) ns = 1 + (size_t) c.u(n); else { s = gen_indices(c, n, true, n); ns = s.size(); show(c, "search", s); }
	const std::vector<int64_t>* Q = qimpl ? nullptr : &q; const std::vector<int64_t>* Sx = simpl ? nullptr : &s;
	const int64_t* qp = qimpl ? nullptr : q.data(); const int64_t* sp = simpl ? nullptr : s.data();
	c.nontrivial = nq >= 2 && ns >= 2;
	if (op == 1) {
		std::vector<double> out(nq * ns); in->dist_rows(ds.h, nq, qp, ns, sp, out.data(), &ret);
		REQ(ret == 1, "distance rows fail");
		for (size_t i = 0; i < nq; ++i) for (size_t j = 0; j < ns; ++j) { double want = D.dist(qi(Q, i), qi(Sx, j)); REQ(near(out[i * ns + j], want), "row %zu column %zu is %.17g, expected %.17g", i, j, out[i * ns + j], want); }
		c.lab("rows"); return;
	}
	if (op == 2) {
		std::vector<int64_t> oi(nq); std::vector<double> od(nq); in->max_dist(ds.h, ns, sp, nq, qp, oi.data(), od.data(), &ret);
		REQ(ret == 1, "max distance fails");
		for (size_t i = 0; i < nq; ++i) {
			double best = -1; bool member = false;
			for (size_t j = 0; j < ns; ++j) { best = std::max(best, D.key(qi(Q, i), qi(Sx, j))); member |= (int64_t) qi(Sx, j) == oi[i]; }
			REQ(member, "farthest point %lld of query %zu is not a search point", (long long) oi[i], i);
			double k = D.key(qi(Q, i), (size_t) oi[i]); REQ(!D.dlt(k, best), "point %lld is not farthest from query %zu", (long long) oi[i], i);
			REQ(near(od[i], D.kdist(k)), "distance to farthest point is %.17g, expected %.17g", od[i], D.kdist(k));
		}
		c.lab("farthest"); return;
	}
	uint32_t k = 1 + (uint32_t) c.u(std::min<size_t>(ns, many || c.chance(1, 4) ? ns : 4)); bool rad = c.chance(2, 3); double r = rad ? gen_radius(c, D) : 0.0;
	bool give = rad || c.chance(1, 2), inplace = give && !qimpl && c.chance(1, 2);
	c.note("k=%u radius=%.17g give=%d in place=%d", k, r, give, inplace);
	size_t okq = 0; std::vector<int64_t> oq(nq), on(nq * k); in->nn_search(ds.h, ns, sp, nq, qp, k, rad, r, give, inplace, &okq, oq.data(), on.data(), &ret);
	REQ(ret == 1, "search fails"); REQ(okq <= nq, "more answers than queries");
	size_t w = 0; double lim = D.rkey(r);
	for (size_t i = 0; i < nq; ++i) {
		size_t p = qi(Q, i); std::vector<double> ks; for (size_t j = 0; j < ns; ++j) { double kk = D.key(p, qi(Sx, j)); if (!rad || kk <= lim) ks.push_back(kk); }
		if (ks.size() < k) continue;
		std::sort(ks.begin(), ks.end());
		REQ(w < okq, "query %zu (point %zu) has %zu points in the radius, k=%u, but no answer", i, p, ks.size(), k);
		if (give) REQ(oq[w] == (int64_t) p, "answer %zu is for point %lld, expected %zu", w, (long long) oq[w], p);
		std::set<int64_t> used;
		for (uint32_t j = 0; j < k; ++j) {
			int64_t x = on[w * k + j]; bool member = simpl ? x >= 0 && (size_t) x < ns : std::find(s.begin(), s.end(), x) != s.end();
			REQ(member && used.insert(x).second, "neighbour %lld of point %zu is not a search point or repeated", (long long) x, p);
			double kk = D.key(p, (size_t) x); REQ(!D.dlt(kk, ks[j]) && !D.dgt(kk, ks[j]), "neighbour %u of point %zu is at key %.17g, expected %.17g", j, p, kk, ks[j]);
		}
		++w;
	}
	REQ(w == okq, "%zu answers, expected %zu", okq, w);
	c.lab(rad ? (okq < nq ? "search, some out of radius" : "search in radius") : "search");
}

// ---------------------------------------------------------------- C24
static double sc_(double v, double f) { return v == 1.7976931348623157e308 ? v : v * f; }
void p_c24(Ctx& c)
{
	const VfApi* a = c.api; size_t n = gen_n(c, 2, 24, 80); Data D = gen_int_data(c, n), E = D; show(c, D);
	OptGen g; g.radius_w = 6; Opts o = gen_opts(c, D, g), p = o; show(c, o);
	uint64_t K; std::vector<int64_t> L = gen_labels(c, n, K); uint32_t hs = 2 + (uint32_t) c.u(3); int batch = (int) c.u(2); double f = 1.0;
	for (unsigned steps = 1 + (unsigned) c.u(3); steps > 0; --steps) {
		unsigned t = (unsigned) c.u(5);
		if (t == 0) { c.note("translate "); for (uint32_t k = 0; k < E.d; ++k) { double v = ((double) c.u(1 << 20) - 524288) * f; for (size_t i = 0; i < n; ++i) E.x[i * E.d + k] += v; } }
		else if (t == 1) { c.note("permute axes "); for (uint32_t k = 0; k + 1 < E.d; ++k) { uint32_t j = k + (uint32_t) c.u(E.d - k); for (size_t i = 0; i < n; ++i) std::swap(E.x[i * E.d + k], E.x[i * E.d + j]); } }
		else if (t == 2) { c.note("reflect "); for (uint32_t k = 0; k < E.d; ++k) if (c.chance(1, 2)) for (size_t i = 0; i < n; ++i) E.x[i * E.d + k] = -E.x[i * E.d + k]; }
		else if (t == 3) { c.note("add constant axis "); double v = (double) c.u(1000) * f; uint32_t at = (uint32_t) c.u(E.d + 1); std::vector<double> y; for (size_t i = 0; i < n; ++i) for (uint32_t k = 0; k <= E.d; ++k) y.push_back(k == at ? v : E.x[i * E.d + (k > at ? k - 1 : k)]); E.x = y; ++E.d; }
		else { int e = (int) c.r(-20, 20) * (c.chance(1, 6) ? 10 : 1); c.note("scale 2^%d ", e); double s = std::ldexp(1.0, e); if (std::fabs(std::log2(f) + e) > 200) continue; f *= s; for (auto& v : E.x) v *= s; }
	}
	E.have = false; p.vs *= f; p.vp *= f; p.v2 *= f;
	Res r1 = run_sc(a, D, o, 0), r2 = run_sc(a, E, p, 0);
	REQ(same(r1, r2), "clustering: %s, transformed data: %s", str(r1).c_str(), str(r2).c_str());
	if (n >= hs) { Res h1 = run_hier(a, D, hs, batch, 0), h2 = run_hier(a, E, hs, batch, 0); REQ(same(h1, h2), "hierarchical: %s, transformed data: %s", str(h1).c_str(), str(h2).c_str());
		Res e1 = run_refine(a, D, L, K, hs, batch, 0), e2 = run_refine(a, E, L, K, hs, batch, 0); REQ(same(e1, e2), "refinement: %s, transformed data: %s", str(e1).c_str(), str(e2).c_str()); }
	VfStats s1, s2; { DS x(a, D), y(a, E); CL t(a, L, K, 0); REQ(a->stats(x.h, t.h, &s1) == EC_OK && a->stats(y.h, t.h, &s2) == EC_OK, "statistics fail"); }
	VfStats w = s1; w.sum_dists = sc_(w.sum_dists, f); w.min_dist = sc_(w.min_dist, f); w.max_dist = sc_(w.max_dist, f); w.avg_min_dist = sc_(w.avg_min_dist, f); w.avg_max_dist = sc_(w.avg_max_dist, f); w.avg_dist_weighted = sc_(w.avg_dist_weighted, f); w.avg_dist_unweighted = sc_(w.avg_dist_unweighted, f);
	REQ(same_stats(w, s2), "statistics do not transform with the data (factor %g): sum %.17g vs %.17g", f, w.sum_dists, s2.sum_dists);
	c.nontrivial = r1.ec == EC_OK && r1.K >= 2; c.lab(f == 1.0 ? "isometry" : "with scaling");
}

// ---------------------------------------------------------------- C25
void p_c25(Ctx& c)
{
	size_t n = gen_n(c, 2, 24, 80); Data D = gen_data(c, n); show(c, D);
	OptGen g; g.feasible_types = c.chance(3, 4); Opts o = gen_opts(c, D, g); show(c, o); if (c.chance(1, 20)) o.size = (uint32_t) n + 1;
	uint64_t K; std::vector<int64_t> L = gen_labels(c, n, K); uint32_t hs = 2 + (uint32_t) c.u(4); int batch = (int) c.u(2), st = (int) c.u(2);
	// labels that are no cluster, for the checker only: too large, or negative where labels are signed
	size_t bad_at = SIZE_MAX; int64_t bad_neg = 0;
	if (c.chance(1, 5)) { bad_at = (size_t) c.u(n); L[bad_at] = (int64_t) K + (int64_t) c.u(3); if (c.u(2)) bad_neg = -1 - (int64_t) c.u(8); }
	if (bad_at != SIZE_MAX && c.u(2)) { o.size = 2; o.num_types = 0; o.tc.clear(); o.tl.clear(); if (o.sm == SM_BATCHES) o.pum = UM_ANY; }
	bool okL = true; for (auto l : L) if (l != VF_NA && l >= (int64_t) K) okL = false;
	Res r0, h0, e0; VfStats s0; int v0 = 0, ce0 = 0, se0 = 0; memset(&s0, 0, sizeof s0);
	for (size_t i = 0; i < c.all.size(); ++i) {
		const VfApi* a = c.all[i]; const char* nm = a->name;
		Res r = run_sc(a, D, o, st), h = run_hier(a, D, hs, batch, st), e; VfStats s; memset(&s, 0, sizeof s); int v = 0, ce, se = 0;
		if (okL) e = run_refine(a, D, L, K, hs, batch, st);
		{ std::vector<int64_t> LL = L; if (bad_neg && a->clabel_signed && bad_neg != a->na_raw) LL[bad_at] = bad_neg; CL t(a, LL, K, 0); VfOptions vo = raw(o); ce = a->check(t.h, &vo, &v, 0); if (okL) { DS ds(a, D); se = a->stats(ds.h, t.h, &s); } }
		if (i == 0) { r0 = r; h0 = h; e0 = e; s0 = s; v0 = v; ce0 = ce; se0 = se; continue; }
		REQ(same(r, r0), "clustering in configuration %s: %s, in %s: %s", nm, str(r).c_str(), c.all[0]->name, str(r0).c_str());
		REQ(same(h, h0), "hierarchical in configuration %s: %s, in %s: %s", nm, str(h).c_str(), c.all[0]->name, str(h0).c_str());
		REQ(same(e, e0), "refinement in configuration %s: %s, in %s: %s", nm, str(e).c_str(), c.all[0]->name, str(e0).c_str());
		REQ(ce == ce0 && v == v0, "check in configuration %s: status %d verdict %d, in %s: %d %d", nm, ce, v, c.all[0]->name, ce0, v0);
		REQ(se == se0 && same_stats(s, s0), "statistics differ in configuration %s (status %d, %d)", nm, se, se0);
	}
	c.nontrivial = r0.ec == EC_OK && r0.K >= 2;
	c.lab(r0.ec == EC_OK ? "ok" : "not ok");
}

// ---------------------------------------------------------------- C26
static const int N_ERR = 22;
struct ErrEnv { const VfApi* a; Data D; std::unique_ptr<DS> ds; std::unique_ptr<CL> em, cl; };
// performs failing call k; returns its status
static int failing(ErrEnv& e, int k)
{
	const VfApi* a = e.a; size_t n = e.D.n; void* out = nullptr; Opts o; o.size = 2; VfOptions v = raw(o); int mut, ok; VfStats s; int ec = -1;
	switch (k) {
	case 0: return a->init_data_set(0, 1, 1, e.D.x.data(), &out);
	case 1: return a->init_data_set(n, 70000, 1, e.D.x.data(), &out);
	case 2: return a->init_data_set(n, 1, 0, e.D.x.data(), &out);
	case 3: return a->init_empty(0, nullptr, &out);
	case 4: return a->init_empty(a->pi_bits == 64 ? UINT64_MAX : a->pointindex_max + 1, nullptr, &out);
	case 5: return a->init_existing(n, 0, nullptr, 0, &out);
	case 6: return a->copy_cl(nullptr, &out);
	case 7: return a->info(nullptr, nullptr, nullptr);
	case 8: { int64_t b[4]; return a->get_labels(e.em->h, 4, b); }
	case 9: { int64_t b[4]; return a->get_labels(e.cl->h, 0, b); }
	case 10: return a->check(e.em->h, &v, &ok, 0);
	case 11: return a->stats(nullptr, e.cl->h, &s);
	case 12: v.size_constraint = 1; return a->sc(e.ds->h, &v, e.em->h, &mut);
	case 13: v.size_constraint = (uint32_t) n + 1; return a->sc(e.ds->h, &v, e.em->h, &mut);
	case 14: return a->sc(e.ds->h, &v, e.cl->h, &mut);
	case 15: v.seed_radius = RM_SUPPLIED; v.seed_r = 1e-3; return a->sc(e.ds->h, &v, e.em->h, &mut); // points are at least 1 apart
	case 16: v.seed_method = SM_BATCHES; v.sum = UM_CSEED; return a->sc(e.ds->h, &v, e.em->h, &mut);
	case 17: return a->hier(e.ds->h, 0, 0, e.em->h);
	case 18: return a->hier(e.ds->h, (uint32_t) n + 1, 0, e.em->h);
	case 19: a->alloc_reset(-1, 0, 0); ec = a->init_empty(n, nullptr, &out); a->alloc_reset(-1, -1, 0); return ec;
	case 20: a->alloc_reset(-1, 0, 1); ec = a->sc(e.ds->h, &v, e.em->h, &mut); a->alloc_reset(-1, -1, 0); return ec;
	default: { VfBackend b = backend(e.D, 0, 0); b.fail_at = 0; a->install(&b, e.ds->h, ALL_CB); b.fail_at = 0; ec = a->sc(e.ds->h, &v, e.em->h, &mut); a->uninstall(); return ec; }
	}
}
void p_c26(Ctx& c)
{
	const VfApi* a = c.api; ErrEnv e; e.a = a; size_t n = 3 + (size_t) c.u(6); e.D.n = n; e.D.d = 1; for (size_t i = 0; i < n; ++i) e.D.x.push_back((double) (i * i + i));
	e.ds.reset(new DS(a, e.D)); e.em.reset(new CL(a, n, (int) c.u(2))); e.cl.reset(new CL(a, std::vector<int64_t>(n, 0), 1, (int) c.u(2)));
	const std::string& init = initial_error(a);
	REQ(init.find("o error") != std::string::npos || init.find("O ERROR") != std::string::npos, "before any failure the error text is '%s'", init.c_str());
	std::map<int, std::string> text; std::map<int, int> cls; std::map<int, std::string> by_class; size_t steps = 2 + (size_t) c.u(10); size_t fails = 0;
	auto read = [&](size_t len) -> std::string {
		std::unique_ptr<char[]> b(new char[len + 1]); memset(b.get(), 'x', len + 1);
		char* heap = (char*) malloc(len); memset(heap, 'x', len);
		int ok = a->latest_error(len, heap); REQ(ok == 1, "latest error with buffer of %zu returns false", len);
		REQ(memchr(heap, 0, len) != nullptr, "error text in a buffer of %zu is not terminated", len);
		std::string s(heap); free(heap); return s;
	};
	for (size_t t = 0; t < steps; ++t) {
		if (c.chance(1, 4)) { // something that works
			c.note("ok "); unsigned w = (unsigned) c.u(4); Opts o; o.size = 2; VfStats s; int ok; VfOptions v = raw(o);
			if (w == 0) run_sc_on(a, e.ds->h, n, o, 0); else if (w == 1) a->stats(e.ds->h, e.cl->h, &s); else if (w == 2) a->check(e.cl->h, &v, &ok, 0); else { void* z = nullptr; a->copy_cl(e.cl->h, &z); a->free_cl(&z); }
			continue;
		}
		int k = (int) c.u(N_ERR); int ec = failing(e, k); c.note("fail%d=%d ", k, ec);
		REQ(ec != EC_OK && ec > 0, "call %d was expected to fail, status %d", k, ec);
		++fails;
		if (c.chance(1, 6)) { char q = 'q'; REQ(a->latest_error(0, &q) == 0 && q == 'q', "zero-length buffer accepted"); REQ(a->latest_error(10, nullptr) == 0, "null buffer accepted"); }
		std::string s = read(400);
		REQ(!s.empty() && s != init, "after failing call %d (status %d) the error text is '%s'", k, ec, s.c_str());
		size_t cut = 1 + (size_t) c.u(s.size() + 3); std::string p = read(cut);
		REQ(p == s.substr(0, std::min(s.size(), cut - 1)), "truncated to %zu bytes the text is '%s', full text '%s'", cut, p.c_str(), s.c_str());
		REQ(read(400) == s, "reading the error changes it");
		auto it = text.find(k);
		if (it != text.end()) { REQ(it->second == s, "call %d gives error text '%s' and later '%s'", k, it->second.c_str(), s.c_str()); REQ(cls[k] == ec, "call %d gives status %d and later %d", k, cls[k], ec); }
		text[k] = s; cls[k] = ec;
		for (auto& kv : text) if (cls[kv.first] != ec) REQ(kv.second != s, "calls %d (status %d) and %d (status %d) have the same error text '%s'", kv.first, cls[kv.first], k, ec, s.c_str());
	}
	std::set<int> classes; for (auto& kv : cls) classes.insert(kv.second);
	c.nontrivial = classes.size() >= 2; if (fails >= 2) c.lab("two or more failures");
}

// ---------------------------------------------------------------- C29
void p_c29(Ctx& c)
{
	const VfApi* a = c.api; if (!a->set_ann) { c.lab("ANN not available"); return; }
	bool large = c.u(1000) == 999; size_t n = large ? 200 + (size_t) c.u(1300) : gen_n(c, 2, 24, 90); bool gen = !large && c.chance(1, 2);
	Data D = large ? gen_even(c, n) : gen ? gen_generic(c, n) : gen_data(c, n);
	OptGen g; g.radius_w = 6; Opts o = gen_opts(c, D, g); show(c, D); show(c, o);
	bool eq = gen && D.exact && D.generic(); DS ds(a, D); Res r, r0, r1; int64_t held = a->ann_arrays();
	r0 = run_sc_on(a, ds.h, n, o, 0);
	REQ(a->set_ann(), "ANN search functions refused");
	r = run_sc_on(a, ds.h, n, o, (int) c.u(2));
	int64_t lost = a->ann_arrays() - held;
	// known finding: with scc_PointIndex = int, every search without radius keeps its distance scratch
	if (lost > 0 && getenv("VF_KNOWN_ANN_SCRATCH") && strncmp(a->name, "int", 3) == 0) {
		int64_t most = 0; auto free_radius = [&](int m) { return m == RM_NO || (m == RM_SEED && o.rs != RM_SUPPLIED); };
		if (o.rs != RM_SUPPLIED) { most += o.sm == SM_BATCHES ? (int64_t) n : 1; for (auto t : o.tc) most += t > 0; }
		if (o.pum != UM_IGNORE && free_radius(o.rp)) ++most;
		if (o.sum != UM_IGNORE && free_radius(o.r2)) ++most;
		if (lost <= most) { lost = 0; c.lab("known finding: scratch kept"); }
	}
	REQ(lost == 0, "%lld arrays of the search functions not freed", (long long) lost);
	if (eq) { REQ(same(r, r0), "with ANN %s, built-in %s", str(r).c_str(), str(r0).c_str()); c.lab("equal to built-in"); }
	if (r.ec == EC_OK) {
		check_valid(c, r, n, o.size, "ANN"); check_types(c, r, o, "ANN");
		Opts ig = o; ig.pum = UM_IGNORE; ig.sum = UM_IGNORE; Res base = run_sc_on(a, ds.h, n, ig, 0); REQ(base.ec == EC_OK, "status %d with IGNORE", base.ec);
		if (!large) {
			Model M(D, ig); check_packing(c, M, base); Model M2(D, o); Leftover LO(M2, base);
			if (LO.bad_cluster() == SIZE_MAX) for (size_t p = 0; p < n; ++p) { auto al = LO.allowed(p); REQ(al.labels.count(r.L[p]), "point %zu got label %lld which its distances do not allow; seed clusters %s; result %s", p, (long long) r.L[p], str(base).c_str(), str(r).c_str()); }
		}
	} else if (!o.types()) { Model M(D, o); bool any = false; for (size_t p = 0; p < n && !any; ++p) any = M.seedable(p); if (any && o.rp != RM_EST && o.r2 != RM_EST) REQ(false, "status %d although a seed exists", r.ec); }
	REQ(a->reset_dist(), "reset refused");
	r1 = run_sc_on(a, ds.h, n, o, 0); REQ(same(r0, r1), "after a reset %s, before %s", str(r1).c_str(), str(r0).c_str());
	c.nontrivial = r.ec == EC_OK && r.K >= 2;
}
