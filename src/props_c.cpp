// C16: rejection of invalid requests. C17, C22, C23: histories of public calls.
#include "model.hpp"
#include "props.hpp"
#include <memory>

static std::vector<int64_t> lb_snap(const VfApi* a, const void* lb, size_t n) { std::vector<int64_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = a->lb_get(lb, i); return v; }
static void* const JUNK = (void*) (uintptr_t) 0x5a5a5a5a5a5aULL;
static std::vector<int64_t> valid_labels(Ctx& c, size_t n, uint64_t K) { std::vector<int64_t> L(n); unsigned m = (unsigned) c.u(2); for (size_t i = 0; i < n; ++i) L[i] = m == 0 ? (int64_t) (i % K) : (int64_t) c.u(K); return L; }

struct Fault { const char* name; int expect; bool sc_only; };
// applies option fault number f to o/v; returns false if it does not apply
struct OptFault {
	Opts o; VfOptions v; const char* name = ""; int expect = EC_INVALID; bool sc_only = false;
	std::vector<uint32_t> tc; std::vector<int64_t> tl, pr;
};
static const int N_OPT_FAULTS = 34;
static void fill_types(Ctx& c, size_t n, Opts& o) { if (!o.types()) { gen_types(c, n, o, true); } }
static void apply_fault(Ctx& c, const Data& D, int f, OptFault& F)
{
	size_t n = D.n; Opts& o = F.o; VfOptions& v = F.v;
	auto plain = [&]() { o.num_types = 0; o.tc.clear(); o.tl.clear(); };
	auto nobatch = [&]() { if (o.sm == SM_BATCHES) o.sm = SM_LEXICAL; };
	auto badenum = [&](int hi) { static const int d[] = {0, 1, 2, 95, 1000000, 0x7fffffff}; unsigned w = (unsigned) c.u(7); return w == 6 ? -1 : (int) ((unsigned) hi + (unsigned) d[w] > 0x7fffffffu ? 0x7fffffffu : (unsigned) hi + (unsigned) d[w]); };
	auto badrad = [&]() { static const double r[] = {0.0, -1.0, -1e-300, -0.0, -1.0 / 0.0}; return r[c.u(5)]; };
	switch (f) {
	case 0: F.name = "options version"; v = raw(o); { static const int32_t d[] = {1, -1, -722678001, 1 << 20}; v.options_version += d[c.u(4)]; } break;
	case 1: F.name = "size constraint below two"; plain(); v = raw(o); v.size_constraint = (uint32_t) c.u(2); break;
	case 2: F.name = "type constraints without types"; plain(); v = raw(o); v.num_types = (uint32_t) c.u(2); F.tc.assign(4, 0); v.type_constraints = F.tc.data(); v.len_type_constraints = 4; break;
	case 3: F.name = "type labels without types"; plain(); v = raw(o); v.num_types = (uint32_t) c.u(2); F.tl.assign(n, 0); v.type_labels = F.tl.data(); v.cnt_type_labels = n; break;
	case 4: F.name = "type label count without types"; plain(); v = raw(o); v.num_types = (uint32_t) c.u(2); v.len_type_labels = 1 + c.u(n); break;
	case 5: F.name = "no type constraints"; nobatch(); fill_types(c, n, o); v = raw(o); v.type_constraints = nullptr; break;
	case 6: F.name = "no type labels"; nobatch(); fill_types(c, n, o); v = raw(o); v.type_labels = nullptr; break;
	case 7: F.name = "too few type labels"; nobatch(); fill_types(c, n, o); v = raw(o); { unsigned w = (unsigned) c.u(3); v.len_type_labels = w == 0 ? n - 1 : w == 1 ? 0 : (size_t) c.u(n); v.cnt_type_labels = v.len_type_labels; } break;
	case 8: F.name = "too many types"; F.expect = EC_TOOLARGE; nobatch(); fill_types(c, n, o); { static const uint32_t k[] = {65536, 65537, 1u << 20}; uint32_t m = k[c.u(3)]; F.tc = o.tc; F.tc.resize(m, 0); v = raw(o); v.num_types = m; v.type_constraints = F.tc.data(); v.len_type_constraints = m; } break;
	case 9: F.name = "far too many types"; F.expect = EC_TOOLARGE; nobatch(); fill_types(c, n, o); v = raw(o); { static const uint32_t k[] = {UINT32_MAX, 1u << 31, UINT32_MAX - 1}; v.num_types = k[c.u(3)]; } break;
	case 10: F.name = "unknown seed method"; v = raw(o); v.seed_method = badenum(6); break;
	case 11: F.name = "primary points of length zero"; o.has_primary = false; v = raw(o); F.pr.assign(1, 0); v.primary = F.pr.data(); v.cnt_primary = 1; v.len_primary = 0; break;
	case 12: F.name = "primary length without points"; o.has_primary = false; v = raw(o); v.primary = nullptr; v.len_primary = 1 + c.u(n); break;
	case 13: case 14: {
		F.name = f == 13 ? "primary points not increasing" : "duplicate primary point";
		gen_primary(c, n, o);
		if (o.primary.size() < 2) { o.primary.clear(); for (size_t i = 0; i < n; ++i) o.primary.push_back((int64_t) i); }
		F.pr = o.primary; size_t i = 1 + (size_t) c.u(F.pr.size() - 1); if (c.chance(1, 3)) i = F.pr.size() - 1;
		if (f == 13) std::swap(F.pr[i], F.pr[i - 1]); else F.pr[i] = F.pr[i - 1];
		v = raw(o); v.primary = F.pr.data(); v.cnt_primary = v.len_primary = F.pr.size(); break; }
	case 15: F.name = "unknown primary method"; nobatch(); v = raw(o); v.pum = badenum(4); break;
	case 16: F.name = "any-neighbor as secondary method"; nobatch(); v = raw(o); v.sum = UM_ANY; break;
	case 17: F.name = "unknown secondary method"; nobatch(); v = raw(o); v.sum = badenum(4); break;
	case 18: F.name = "seed radius: use seed radius"; v = raw(o); v.seed_radius = RM_SEED; v.seed_r = 1.0; break;
	case 19: F.name = "seed radius: estimated"; v = raw(o); v.seed_radius = RM_EST; v.seed_r = 1.0; break;
	case 20: F.name = "unknown seed radius method"; v = raw(o); v.seed_radius = badenum(4); v.seed_r = 1.0; break;
	case 21: F.name = "non-positive seed radius"; v = raw(o); v.seed_radius = RM_SUPPLIED; v.seed_r = badrad(); break;
	case 22: F.name = "unknown primary radius method"; nobatch(); v = raw(o); v.prim_radius = badenum(4); v.prim_r = 1.0; break;
	case 23: F.name = "non-positive primary radius"; nobatch(); v = raw(o); v.prim_radius = RM_SUPPLIED; v.prim_r = badrad(); break;
	case 24: F.name = "unknown secondary radius method"; nobatch(); v = raw(o); v.sec_radius = badenum(4); v.sec_r = 1.0; break;
	case 25: F.name = "non-positive secondary radius"; nobatch(); v = raw(o); v.sec_radius = RM_SUPPLIED; v.sec_r = badrad(); break;
	case 26: case 27: case 28: case 29: {
		// combinations batches do not support; the base is a valid batches problem
		plain(); o.sm = SM_BATCHES; o.pum = (int) c.u(2); o.sum = UM_IGNORE; o.rp = RM_SEED; F.expect = EC_NOTIMPL; v = raw(o);
		if (f == 26) { F.name = "batches with types"; Opts t = o; gen_types(c, n, t, true); F.tc = t.tc; F.tl = t.tl; v.num_types = t.num_types; v.type_constraints = F.tc.data(); v.len_type_constraints = F.tc.size(); v.type_labels = F.tl.data(); v.cnt_type_labels = v.len_type_labels = F.tl.size(); }
		else if (f == 27) { F.name = "batches with secondary method"; v.sum = c.u(2) ? UM_CSEED : UM_CASSIGNED; }
		else if (f == 28) { F.name = "batches with own primary radius"; static const int m[] = {RM_NO, RM_SUPPLIED, RM_EST}; v.prim_radius = m[c.u(3)]; v.prim_r = 1.0; }
		else { F.name = "batches with closest primary method"; F.expect = EC_INVALID; F.sc_only = true; v.pum = c.u(2) ? UM_CSEED : UM_CASSIGNED; }
		break; }
	case 30: case 31: {
		// every type group is large enough, but the constraints exceed the size
		F.name = "type constraints above the size"; F.sc_only = true; nobatch(); o.rs = RM_NO;
		uint32_t T = 2; o.num_types = T; o.tl.clear(); for (size_t i = 0; i < n; ++i) o.tl.push_back((int64_t) (i % T));
		size_t half = n / 2; if (half < 2) { F.name = nullptr; return; }
		o.size = 2 + (uint32_t) c.u(std::min<size_t>(half, 6) - 1); o.tc = {o.size, 0}; v = raw(o);
		F.tc = {o.size, f == 30 ? 1u : (uint32_t) (1 + c.u(half))}; v.type_constraints = F.tc.data(); break; }
	case 32: F.name = "seed radius missing value"; v = raw(o); v.seed_radius = RM_SUPPLIED; v.seed_r = 0.0; break;
	case 33: default: F.name = "primary points decreasing at the end"; gen_primary(c, n, o); F.pr = o.primary; F.pr.push_back(F.pr.back() > 0 ? F.pr.back() - 1 : 0); v = raw(o); v.primary = F.pr.data(); v.cnt_primary = v.len_primary = F.pr.size(); break;
	}
}

static void c16_options(Ctx& c)
{
	size_t n = gen_n(c, 2, 20, 40); Data D = gen_data(c, n); OptGen g; OptFault F; F.o = gen_opts(c, D, g);
	memset(&F.v, 0, sizeof F.v);
	int f = (int) c.u(N_OPT_FAULTS); apply_fault(c, D, f, F);
	if (!F.name) throw Discard();
	bool on_check = !F.sc_only && c.chance(1, 3);
	show(c, D); show(c, F.o); c.note("fault: %s on %s", F.name, on_check ? "check" : "clustering");
	const VfApi* a = c.api; DS ds(a, D);
	c.lab(F.name);
	if (on_check) {
		uint64_t K = 1 + c.u(3); std::vector<int64_t> L = valid_labels(c, n, K); CL cl(a, L, K, (int) c.u(2)); int ok = 0;
		int ec = a->check(cl.h, &F.v, &ok, 0);
		REQ(ec == F.expect, "%s: check gives status %d, expected %d", F.name, ec, F.expect);
		REQ(ok != 99, "options were modified"); REQ(ok == 0, "%s: rejected, but the verdict is true", F.name);
		Res r; cl.read(r); REQ(r.K == K && r.L == L, "%s: rejected check changed the clustering", F.name);
		VfOptions v0 = raw(F.o); ec = a->check(cl.h, &v0, &ok, 0); REQ(ec == EC_OK, "check without the fault gives status %d", ec);
	} else {
		int st = (int) c.u(2); CL cl(a, n, st); std::vector<int64_t> before; if (cl.lb) before = lb_snap(a, cl.lb, n);
		int mut = 0; int ec = a->sc(ds.h, &F.v, cl.h, &mut);
		REQ(ec == F.expect, "%s: clustering gives status %d, expected %d", F.name, ec, F.expect);
		REQ(!mut, "%s: options or arrays modified", F.name);
		Res r; cl.read(r); REQ(r.K == 0, "%s: rejected call left %llu clusters", F.name, (unsigned long long) r.K);
		if (cl.lb) REQ(lb_snap(a, cl.lb, n) == before, "%s: rejected call wrote the caller's label array", F.name);
		REQ(!ds.touched(), "%s: data modified", F.name);
		VfOptions v0 = raw(F.o); ec = a->sc(ds.h, &v0, cl.h, &mut);
		REQ(ec == EC_OK || ec == EC_NOSOL, "clustering without the fault gives status %d", ec);
		Res x; cl.read(x); x.ec = ec; Res y = run_sc_on(a, ds.h, n, F.o, 0);
		REQ(same(x, y), "%s: after the rejected call the object gives %s, a fresh one %s", F.name, str(x).c_str(), str(y).c_str());
	}
	c.nontrivial = true;
}

static void c16_constructors(Ctx& c)
{
	const VfApi* a = c.api; size_t n = 1 + (size_t) c.u(8); uint32_t d = 1 + (uint32_t) c.u(4);
	std::vector<double> m(n * d, 1.0); void* out = JUNK; int ec = -1, expect = EC_INVALID; const char* what = ""; bool null_out = false;
	bool pi_full = a->pi_bits == 64 && !a->pi_signed; // all of uint64 minus one fits
	std::unique_ptr<void, void (*)(void*)> lb(a->lb_new(n), a->lb_free);
	for (size_t i = 0; i < n; ++i) a->lb_set(lb.get(), i, 0);
	auto big_n = [&]() -> uint64_t { if (pi_full) return UINT64_MAX; static const uint64_t add[] = {1, 2, 1ull << 20}; unsigned w = (unsigned) c.u(5); return w < 3 ? a->pointindex_max + add[w] : w == 3 ? UINT64_MAX : 1ull << 63; };
	auto big_k = [&]() -> uint64_t { if (a->clabel_max == UINT64_MAX) return 0; unsigned w = (unsigned) c.u(4); return w < 2 ? a->clabel_max + 1 + w : w == 2 ? UINT64_MAX : 1ull << 63; };
	unsigned f = (unsigned) c.u(24);
	switch (f) {
	case 0: what = "data set: no points"; ec = a->init_data_set(0, d, m.size(), m.data(), &out); break;
	case 1: what = "data set: too many points"; expect = EC_TOOLARGE; ec = a->init_data_set(big_n(), 1, SIZE_MAX, m.data(), &out); break;
	case 2: what = "data set: no dimensions"; ec = a->init_data_set(n, 0, m.size(), m.data(), &out); break;
	case 3: { what = "data set: too many dimensions"; expect = EC_TOOLARGE; static const uint32_t k[] = {65536, 65537, UINT32_MAX, 1u << 31}; ec = a->init_data_set(n, k[c.u(4)], SIZE_MAX, m.data(), &out); break; }
	case 4: what = "data set: short matrix"; ec = a->init_data_set(n, d, n * d - 1 - (size_t) c.u(n * d), m.data(), &out); break;
	case 5: what = "data set: no matrix"; ec = a->init_data_set(n, d, n * d, nullptr, &out); break;
	case 6: what = "data set: no output"; null_out = true; ec = a->init_data_set(n, d, n * d, m.data(), nullptr); break;
	case 7: { what = "data set: matrix length overflows"; if (a->pi_bits != 64) throw Discard(); static const uint64_t nn[] = {1ull << 60, 1ull << 61, (1ull << 62) + 1, 1ull << 48}; static const uint32_t dd[] = {16, 8, 4, 65535}; size_t i = (size_t) c.u(4); ec = a->init_data_set(nn[i], dd[i], i == 3 ? (size_t) 1 << 20 : n, m.data(), &out); break; }
	case 8: what = "empty clustering: no points"; ec = a->init_empty(0, c.u(2) ? lb.get() : nullptr, &out); break;
	case 9: what = "empty clustering: too many points"; expect = EC_TOOLARGE; ec = a->init_empty(big_n(), nullptr, &out); break;
	case 10: what = "empty clustering: no output"; null_out = true; ec = a->init_empty(n, nullptr, nullptr); break;
	case 11: what = "existing clustering: no points"; ec = a->init_existing(0, 1, lb.get(), (int) c.u(2), &out); break;
	case 12: what = "existing clustering: too many points"; expect = EC_TOOLARGE; ec = a->init_existing(big_n(), 1, lb.get(), (int) c.u(2), &out); break;
	case 13: what = "existing clustering: no clusters"; ec = a->init_existing(n, 0, lb.get(), (int) c.u(2), &out); break;
	case 14: { what = "existing clustering: too many clusters"; expect = EC_TOOLARGE; uint64_t k = big_k(); if (!k) throw Discard(); ec = a->init_existing(n, k, lb.get(), (int) c.u(2), &out); break; }
	case 15: what = "existing clustering: no labels"; ec = a->init_existing(n, 1, nullptr, (int) c.u(2), &out); break;
	case 16: what = "existing clustering: no output"; null_out = true; ec = a->init_existing(n, 1, lb.get(), (int) c.u(2), nullptr); break;
	case 17: what = "copy of null"; ec = a->copy_cl(nullptr, &out); break;
	case 18: { what = "copy of uninitialised object"; std::vector<unsigned char> j(256, c.u(2) ? 0xff : 0); ec = a->copy_cl(j.data(), &out); break; }
	case 19: { what = "copy without output"; null_out = true; CL cl(a, n, 0); ec = a->copy_cl(cl.h, nullptr); break; }
	default: { // accepted boundary sizes
		what = "largest sizes"; null_out = true;
		if (f == 20) { ec = a->init_empty(pi_full ? UINT64_MAX - 1 : a->pointindex_max, nullptr, &out); }
		else if (f == 21) { ec = a->init_existing(n, a->clabel_max, lb.get(), (int) c.u(2), &out); }
		else if (f == 22) { std::vector<double> x(65535, 1.0); ec = a->init_data_set(1, 65535, 65535, x.data(), &out); if (ec == EC_OK) a->free_data_set(&out); out = nullptr; }
		else { ec = a->init_data_set(n, d, n * d + (size_t) c.u(5), m.data(), &out); if (ec == EC_OK) a->free_data_set(&out); out = nullptr; }
		REQ(ec == EC_OK, "%s (%u): status %d", what, f, ec);
		if (out) a->free_cl(&out);
		c.lab(what); c.nontrivial = true; return; }
	}
	c.note("%s n=%zu d=%u", what, n, d); c.lab(what);
	REQ(ec == expect, "%s: status %d, expected %d", what, ec, expect);
	if (!null_out) REQ(out == nullptr, "%s: the object is not null", what);
	for (size_t i = 0; i < n; ++i) REQ(a->lb_get(lb.get(), i) == 0, "%s: caller labels changed", what);
	c.nontrivial = true;
}

static void c16_objects(Ctx& c)
{
	const VfApi* a = c.api; size_t n = 2 + (size_t) c.u(12); Data D = gen_data(c, n); DS ds(a, D);
	Data D2 = gen_data(c, n + 1 + (size_t) c.u(3)); DS ds2(a, D2);
	Opts o; o.size = 2; VfOptions v = raw(o); std::vector<unsigned char> junk(512, c.u(2) ? 0xff : 0); int ok = 1, mut = 0;
	uint64_t K = 1 + c.u(3); std::vector<int64_t> L = valid_labels(c, n, K); CL cl(a, L, K, (int) c.u(2)); CL em(a, n, (int) c.u(2));
	std::vector<int64_t> em0; if (em.lb) em0 = lb_snap(a, em.lb, n);
	int ec = -1, expect = EC_INVALID; const char* what = ""; uint64_t q1 = 7, q2 = 7; std::vector<int64_t> buf(n + 4, 0); VfStats s; memset(&s, 0x55, sizeof s); VfStats z; memset(&z, 0, sizeof z);
	bool stats_called = false;
	switch (c.u(29)) {
	case 0: what = "info of null"; ec = a->info(nullptr, &q1, &q2); break;
	case 1: what = "info of uninitialised object"; ec = a->info(junk.data(), &q1, &q2); break;
	case 2: what = "labels of null"; ec = a->get_labels(nullptr, n, buf.data()); break;
	case 3: what = "labels of uninitialised object"; ec = a->get_labels(junk.data(), n, buf.data()); break;
	case 4: what = "labels of empty clustering"; ec = a->get_labels(em.h, n, buf.data()); break;
	case 5: what = "labels into buffer of length zero"; ec = a->get_labels(cl.h, 0, buf.data()); break;
	case 6: what = "labels into null buffer"; ec = a->get_labels(cl.h, n, nullptr); break;
	case 7: what = "check of null"; ec = a->check(nullptr, &v, &ok, 0); REQ(ok == 0, "%s: verdict true", what); break;
	case 8: what = "check of uninitialised object"; ec = a->check(junk.data(), &v, &ok, 0); REQ(ok == 0, "%s: verdict true", what); break;
	case 9: what = "check of empty clustering"; ec = a->check(em.h, &v, &ok, 0); REQ(ok == 0, "%s: verdict true", what); break;
	case 10: what = "check without output"; ec = a->check(cl.h, &v, &ok, 1); break;
	case 11: what = "stats without output"; ec = a->stats(ds.h, cl.h, nullptr); break;
	case 12: what = "stats of null clustering"; ec = a->stats(ds.h, nullptr, &s); stats_called = true; break;
	case 13: what = "stats of uninitialised clustering"; ec = a->stats(ds.h, junk.data(), &s); stats_called = true; break;
	case 14: what = "stats of empty clustering"; ec = a->stats(ds.h, em.h, &s); stats_called = true; break;
	case 15: what = "stats with null data set"; ec = a->stats(nullptr, cl.h, &s); stats_called = true; break;
	case 16: what = "stats with uninitialised data set"; ec = a->stats(junk.data(), cl.h, &s); stats_called = true; break;
	case 17: what = "stats with other number of points"; ec = a->stats(ds2.h, cl.h, &s); stats_called = true; break;
	case 18: what = "clustering into null"; ec = a->sc(ds.h, &v, nullptr, &mut); break;
	case 19: what = "clustering into uninitialised object"; ec = a->sc(ds.h, &v, junk.data(), &mut); break;
	case 20: what = "clustering of null data set"; ec = a->sc(nullptr, &v, em.h, &mut); break;
	case 21: what = "clustering of uninitialised data set"; ec = a->sc(junk.data(), &v, em.h, &mut); break;
	case 22: what = "clustering of other number of points"; ec = a->sc(ds2.h, &v, em.h, &mut); break;
	case 23: what = "clustering of existing clustering"; expect = EC_NOTIMPL; ec = a->sc(ds.h, &v, cl.h, &mut); break;
	case 24: what = "hierarchical into null or uninitialised object"; ec = a->hier(ds.h, 2, (int) c.u(2), c.u(2) ? nullptr : (void*) junk.data()); break;
	case 25: what = "hierarchical of null data set"; ec = a->hier(nullptr, 2, (int) c.u(2), c.u(2) ? em.h : cl.h); break;
	case 26: what = "hierarchical of uninitialised data set"; ec = a->hier(junk.data(), 2, (int) c.u(2), c.u(2) ? em.h : cl.h); break;
	case 27: what = "hierarchical of other number of points"; ec = a->hier(ds2.h, 2, (int) c.u(2), c.u(2) ? em.h : cl.h); break;
	default: what = "hierarchical with size below two"; ec = a->hier(ds.h, (uint32_t) c.u(2), (int) c.u(2), c.u(2) ? em.h : cl.h); break;
	}
	c.note("%s n=%zu", what, n); c.lab(what);
	REQ(ec == expect, "%s: status %d, expected %d", what, ec, expect);
	if (stats_called) REQ(memcmp(&s, &z, sizeof s) == 0, "%s: rejected, but statistics are not all zero", what);
	Res r; cl.read(r); REQ(r.K == K && r.L == L, "%s: existing clustering changed", what);
	Res e; em.read(e); REQ(e.K == 0, "%s: empty clustering changed", what);
	if (em.lb) REQ(lb_snap(a, em.lb, n) == em0, "%s: caller label array changed", what);
	REQ(!ds.touched() && !ds2.touched(), "%s: data modified", what);
	for (size_t i = 1; i < junk.size(); ++i) REQ(junk[i] == junk[0], "%s: uninitialised object written", what);
	REQ(a->is_cl(junk.data()) == 0 && a->is_data_set(junk.data()) == 0 && a->is_cl(nullptr) == 0 && a->is_data_set(nullptr) == 0, "uninitialised object is called initialised");
	REQ(a->is_cl(cl.h) && a->is_cl(em.h) && a->is_data_set(ds.h), "initialised object is called uninitialised");
	c.nontrivial = true;
}

// sizes beyond what can be represented or allocated
static void c16_huge(Ctx& c)
{
	const VfApi* a = c.api;
	if (c.u(2) == 0) { // a back end claiming a huge number of points
		std::vector<double> x(8, 0.0); VfBackend b; memset(&b, 0, sizeof b); b.n = 8; b.dim = 1; b.data = x.data(); b.fail_at = -1; b.fail_kind = -1;
		std::vector<uint64_t> cand = {(1ull << 31) - 1, (1ull << 31) - 2, (1ull << 30) + 1};
		if (a->pointindex_max >= UINT32_MAX) { cand.push_back(UINT32_MAX - 1); cand.push_back(UINT32_MAX / 2 + 2); }
		if (a->pi_bits == 64) for (int s : {33, 40, 48}) { cand.push_back(1ull << s); cand.push_back((1ull << s) + 1); }
		uint64_t n = cand[c.u(cand.size())]; uint32_t size = 3 + (uint32_t) c.u(4); if (c.chance(1, 4)) size = 1000000 + (uint32_t) c.u(1000);
		b.fake_n = n;
		void* h = nullptr; int ec = a->init_empty(n, nullptr, &h);
		REQ(ec == EC_OK, "init_empty_clustering(%llu): status %d", (unsigned long long) n, ec);
		REQ(a->install(&b, x.data(), (1u << CB_COUNT) - 1), "back end refused");
		Opts o; o.size = size; o.sm = (int) c.u(6); o.pum = (int) c.u(2); VfOptions v = raw(o); int mut; bool hier = c.chance(1, 3);
		a->alloc_reset(-1, -1, 0); a->alloc_limit(1 << 26); // nothing of this size is granted
		c.note("claimed n=%llu size=%u %s", (unsigned long long) n, size, hier ? "hierarchical" : "clustering");
		int64_t live = a->alloc_live();
		ec = hier ? a->hier(x.data(), size, (int) c.u(2), h) : a->sc(x.data(), &v, h, &mut);
		a->alloc_limit((uint64_t) 1 << 30);
		int64_t live2 = a->alloc_live(); uint64_t nn, K = 9; int ie = a->info(h, &nn, &K); a->free_cl(&h); a->uninstall();
		REQ(ec == EC_TOOLARGE || ec == EC_NOMEM, "status %d for a problem that cannot fit", ec);
		REQ(ie == EC_OK && nn == n && K == 0, "clustering changed by a failed call");
		REQ(live2 <= live, "failed call keeps %lld blocks", (long long) (live2 - live));
		c.lab("huge data set"); c.nontrivial = true; return;
	}
	// a clustering claiming a huge number of clusters
	size_t n = 2 + (size_t) c.u(10); Data D = gen_data(c, n); DS ds(a, D);
	std::vector<uint64_t> ks = {1ull << 28, (1ull << 28) + 1, (1ull << 31) - 1, 1ull << 30};
	if (a->clabel_max >= UINT32_MAX) { ks.push_back(UINT32_MAX - 1); ks.push_back(1ull << 31); }
	if (a->clabel_max == UINT64_MAX) for (uint64_t k : std::initializer_list<uint64_t>{1ull << 63, (1ull << 63) + 1, 1ull << 62, 1ull << 61, 1ull << 60, UINT64_MAX, UINT64_MAX - 1, UINT64_MAX / 3, (uint64_t) 6148914691236517206ull, 1ull << 48}) ks.push_back(k);
	uint64_t K = ks[c.u(ks.size())];
	if (K > a->clabel_max) K = a->clabel_max;
	std::vector<int64_t> L(n); for (size_t i = 0; i < n; ++i) L[i] = c.chance(1, 6) ? VF_NA : (int64_t) c.u(3);
	CL cl(a, L, K, (int) c.u(2)); unsigned op = (unsigned) c.u(4);
	Opts o; o.size = 2; if (op == 1) gen_types(c, n, o, true);
	VfOptions v = raw(o); int ok = 0; VfStats s; int ec;
	show(c, "labels", L); c.note("claimed K=%llu op=%u types=%u", (unsigned long long) K, op, o.num_types);
	a->alloc_reset(-1, -1, 0); a->alloc_limit(1 << 26); int64_t live = a->alloc_live();
	if (op < 2) ec = a->check(cl.h, &v, &ok, 0);
	else if (op == 2) ec = a->stats(ds.h, cl.h, &s);
	else ec = a->hier(ds.h, 2, (int) c.u(2), cl.h);
	a->alloc_limit((uint64_t) 1 << 30);
	int64_t live2 = a->alloc_live();
	if (op < 2 && ec == EC_OK) REQ(ok == 0, "check accepts a clustering with %llu clusters on %zu points", (unsigned long long) K, n);
	else REQ(ec == EC_TOOLARGE || ec == EC_NOMEM, "op %u: status %d for %llu clusters", op, ec, (unsigned long long) K);
	REQ(live2 <= live, "failed call keeps %lld blocks", (long long) (live2 - live));
	Res r; cl.read(r); REQ(r.K == K && r.L == L, "clustering changed by a failed call");
	c.lab("huge number of clusters"); c.nontrivial = true;
}

void p_c16(Ctx& c)
{
	unsigned w = (unsigned) c.u(16); int64_t live = c.api->alloc_live();
	if (w < 8) c16_options(c); else if (w < 11) c16_constructors(c); else if (w < 15) c16_objects(c); else c16_huge(c);
	REQ(c.api->alloc_live() == live, "%lld blocks remain allocated after a refused request", (long long) (c.api->alloc_live() - live));
}

// ================================================================ histories
enum { H_EMPTY, H_EXISTING, H_COPY, H_SC, H_HIER, H_CHECK, H_STATS, H_READ, H_INFO, H_FREE, H_EDIT, H_ERR, H_FREE_NULL, H_KINDS };
static const char* HN[] = {"empty", "existing", "copy", "cluster", "hier", "check", "stats", "read", "info", "free", "edit", "error", "free-null"};
struct HOp { int kind = 0; size_t slot = 0, slot2 = 0; int storage = 0, batch = 0; size_t ds = 0, opt = 0, len = 0; uint32_t size = 2; uint64_t K = 1; std::vector<int64_t> L; size_t pos = 0; int64_t val = 0; };
struct Plan { size_t n = 0; std::vector<Data> data; std::vector<Opts> opts; std::vector<HOp> ops; };
static const size_t SLOTS = 4;

static Plan gen_plan(Ctx& c, bool edits, size_t max_ops, bool bad = false)
{
	bool deep = c.u(100) == 99; if (deep) max_ops = 6;
	Plan P; P.n = deep ? 200 + (size_t) c.u(900) : gen_n(c, 2, 20, 60);
	size_t nd = 1 + (size_t) c.u(2);
	for (size_t i = 0; i < nd; ++i) { P.data.push_back(deep ? gen_deep(c, P.n) : gen_data(c, P.n)); show(c, P.data.back()); }
	if (deep) c.lab("deep hierarchy");
	size_t no = 1 + (size_t) c.u(3);
	for (size_t i = 0; i < no; ++i) { OptGen og; if (deep) { og.max_size = 6; og.radius = false; } P.opts.push_back(gen_opts(c, P.data[(size_t) c.u(nd)], og)); if (bad && c.u(8) == 7) spoil(c, P.data[0], P.opts.back()); show(c, P.opts.back()); }
	size_t steps = 3 + (size_t) c.u(max_ops - 2);
	bool live[SLOTS] = {false, false, false, false}; bool shared[SLOTS] = {false, false, false, false}, filled[SLOTS] = {false, false, false, false};
	for (size_t s = 0; s < steps; ++s) {
		HOp h; h.slot = (size_t) c.u(c.chance(1, 2) ? 2 : SLOTS); h.slot2 = (size_t) c.u(SLOTS);
		static const int w[] = {H_SC, H_SC, H_SC, H_SC, H_HIER, H_HIER, H_HIER, H_COPY, H_COPY, H_CHECK, H_STATS, H_STATS, H_READ, H_INFO, H_FREE, H_FREE, H_EDIT, H_ERR, H_FREE_NULL};
		h.kind = w[c.u(sizeof w / sizeof w[0])];
		if (deep && c.u(2)) h.kind = H_HIER;
		if (!live[h.slot] && h.kind != H_ERR && h.kind != H_FREE_NULL) h.kind = c.chance(1, 2) ? H_EXISTING : H_EMPTY;
		if (h.kind == H_SC && filled[h.slot] && c.chance(3, 4)) h.kind = H_EMPTY;
		if (h.kind == H_EDIT && (!edits || !shared[h.slot])) h.kind = H_READ;
		if (h.kind == H_COPY && h.slot2 == h.slot) h.slot2 = (h.slot + 1) % SLOTS;
		h.storage = (int) c.u(2); h.ds = (size_t) c.u(nd); h.opt = (size_t) c.u(no); h.batch = (int) c.u(2);
		h.size = 2 + (uint32_t) c.u(deep ? 2 : c.chance(1, 6) ? P.n : 3); if (c.chance(1, 8)) h.size = (uint32_t) c.u(2 * P.n + 2);
		unsigned lw = (unsigned) c.u(4); h.len = lw < 2 ? P.n : lw == 2 ? (size_t) c.u(P.n + 1) : P.n + (size_t) c.u(6); if (lw == 3 && h.kind == H_READ && c.u(64) == 63) h.len = (size_t) 1 << c.u(15);
		if (h.kind == H_EXISTING) { h.L = gen_labels(c, P.n, h.K); shared[h.slot] = h.storage == 1; }
		if (h.kind == H_EMPTY) shared[h.slot] = h.storage == 1;
		if (h.kind == H_EMPTY || h.kind == H_EXISTING) live[h.slot] = true;
		if (h.kind == H_COPY) { live[h.slot2] = true; shared[h.slot2] = false; }
		if (h.kind == H_FREE) live[h.slot] = shared[h.slot] = false;
		if (h.kind == H_SC || h.kind == H_HIER || h.kind == H_EXISTING) filled[h.slot] = true;
		if (h.kind == H_EMPTY || h.kind == H_FREE) filled[h.slot] = false;
		if (h.kind == H_COPY) filled[h.slot2] = filled[h.slot];
		if (h.kind == H_EDIT) { h.pos = (size_t) c.u(P.n); h.val = (int64_t) c.u(1000); }
		c.note("%zu:%s", h.slot, HN[h.kind]);
		if (h.kind == H_EMPTY || h.kind == H_EXISTING) c.note("(%s)", h.storage ? "caller array" : "own array");
		if (h.kind == H_EXISTING) { c.note("K=%llu", (unsigned long long) h.K); show(c, "", h.L); }
		if (h.kind == H_COPY) c.note("->%zu", h.slot2);
		if (h.kind == H_SC || h.kind == H_CHECK) c.note("(data %zu, options %zu)", h.ds, h.opt);
		if (h.kind == H_HIER) c.note("(data %zu, size %u, batch %d)", h.ds, h.size, h.batch);
		if (h.kind == H_STATS) c.note("(data %zu)", h.ds);
		if (h.kind == H_READ) c.note("(len %zu)", h.len);
		c.note(" ");
		P.ops.push_back(h);
	}
	return P;
}

struct Slot { void* h = nullptr; void* lb = nullptr; uint64_t K = 0; std::vector<int64_t> L; bool live = false; };
struct Exec {
	Ctx& c; const VfApi* a; const Plan& P; std::vector<std::unique_ptr<DS>> ds; Slot s[SLOTS]; std::vector<std::string> log;
	std::map<std::string, Res> memo; // fresh-object results
	bool model, flip; int noise; size_t good = 0, alias = 0, clusters = 0;
	Exec(Ctx& c_, const Plan& p, bool model_, bool flip_, int noise_) : c(c_), a(c_.api), P(p), model(model_), flip(flip_), noise(noise_) { for (auto& d : p.data) ds.emplace_back(new DS(a, d)); }
	~Exec() { for (auto& x : s) drop(x, false); }
	void drop(Slot& x, bool check)
	{
		if (!x.live) return;
		a->free_cl(&x.h);
		if (check) REQ(x.h == nullptr, "freeing leaves a dangling handle");
		if (x.lb) {
			if (check && x.K > 0) for (size_t i = 0; i < P.n; ++i) REQ(a->lb_get(x.lb, i) == x.L[i], "caller-owned label %zu changed when the object was freed", i);
			a->lb_free(x.lb);
		}
		x = Slot();
	}
	static std::string hex(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }
	void emit(const HOp& h, int ec, const std::string& more) { log.push_back(std::string(HN[h.kind]) + " " + std::to_string(ec) + " " + more); }
	std::string state(const Slot& x)
	{
		Res r; uint64_t nn = 0; std::string e;
		int ec = a->info(x.h, &nn, &r.K); if (ec != EC_OK || nn != P.n) throw Fail{"clustering info fails"};
		if (r.K > 0) { r.L.assign(P.n, 0); ec = a->get_labels(x.h, P.n, r.L.data()); if (ec != EC_OK) throw Fail{"reading labels fails"}; }
		r.ec = 0; return str_all(r);
	}
	static std::string str_all(const Res& r) { std::string t = "K=" + std::to_string(r.K); for (auto l : r.L) t += l == VF_NA ? " NA" : " " + std::to_string(l); return t; }
	void verify(size_t step)
	{
		for (size_t i = 0; i < SLOTS; ++i) if (s[i].live) {
			Slot& x = s[i]; uint64_t nn = 0, k = 0; int ec = a->info(x.h, &nn, &k);
			REQ(ec == EC_OK && nn == P.n && k == x.K, "step %zu: object %zu reports n=%llu K=%llu (status %d), expected n=%zu K=%llu", step, i, (unsigned long long) nn, (unsigned long long) k, ec, P.n, (unsigned long long) x.K);
			REQ(a->is_cl(x.h), "step %zu: object %zu not initialised", step, i);
			if (x.K > 0) {
				std::vector<int64_t> b(P.n); ec = a->get_labels(x.h, P.n, b.data());
				REQ(ec == EC_OK && b == x.L, "step %zu (%s on object %zu): object %zu has labels %s, expected %s", step, HN[P.ops[step].kind], P.ops[step].slot, i, str_all(Res{0, x.K, b}).c_str(), str_all(Res{0, x.K, x.L}).c_str());
				if (x.lb) for (size_t q = 0; q < P.n; ++q) REQ(a->lb_get(x.lb, q) == x.L[q], "step %zu: caller array of object %zu differs at %zu", step, i, q);
			}
		}
	}
	Res fresh_sc(size_t d, size_t o) { std::string k = "s" + std::to_string(d) + "/" + std::to_string(o); auto it = memo.find(k); if (it == memo.end()) it = memo.emplace(k, run_sc(a, P.data[d], P.opts[o], 0)).first; return it->second; }
	Res fresh_hier(const HOp& h, const Slot& x) { return x.K == 0 ? run_hier(a, P.data[h.ds], h.size, h.batch, 0) : run_refine(a, P.data[h.ds], x.L, x.K, h.size, h.batch, 0); }
	void make_noise(size_t step)
	{
		if (!noise) return;
		uint64_t k = ((uint64_t) noise * 2654435761u + step * 40503u) >> 3;
		if (k % 4 == 0) { void* z = nullptr; a->init_empty(0, nullptr, &z); char b[64]; a->latest_error(sizeof b, b); }
		if (k % 4 == 1) { const Data& d = P.data[k % P.data.size()]; run_hier(a, d, 2, (int) (k & 1), 0); }
		if (k % 4 == 2) { Data d; d.n = 5 + k % 4; d.d = 2; for (size_t i = 0; i < d.n * 2; ++i) d.x.push_back((double) ((i * 7 + k) % 11)); Opts o; o.size = 2 + (uint32_t) (k % 3); o.sm = (int) (k % 6); o.pum = UM_IGNORE; run_sc(a, d, o, (int) (k & 1)); }
		if (k % 4 == 3) { CL t(a, std::vector<int64_t>(P.n, 0), 1, (int) (k & 1)); VfStats st; a->stats(ds[0]->h, t.h, &st); a->hier(ds[0]->h, 2, 0, t.h); }
	}
	void run()
	{
		for (size_t t = 0; t < P.ops.size(); ++t) {
			const HOp& h = P.ops[t]; Slot& x = s[h.slot]; int ec = 0; std::string more;
			make_noise(t);
			switch (h.kind) {
			case H_EMPTY: {
				drop(x, model); int st = h.storage ^ (flip ? 1 : 0);
				if (st) { x.lb = a->lb_new(P.n); for (size_t i = 0; i < P.n; ++i) a->lb_set(x.lb, i, (int64_t) (i % 2)); }
				x.h = JUNK; ec = a->init_empty(P.n, x.lb, &x.h); REQ(ec == EC_OK && x.h && x.h != JUNK, "init_empty: status %d", ec); x.live = true; x.K = 0; break; }
			case H_EXISTING: {
				drop(x, model); int st = h.storage ^ (flip ? 1 : 0);
				void* lb = a->lb_new(P.n); for (size_t i = 0; i < P.n; ++i) a->lb_set(lb, i, h.L[i]);
				x.h = JUNK; ec = a->init_existing(P.n, h.K, lb, !st, &x.h); REQ(ec == EC_OK && x.h && x.h != JUNK, "init_existing: status %d", ec);
				for (size_t i = 0; i < P.n; ++i) REQ(a->lb_get(lb, i) == h.L[i], "init_existing changed the caller's labels");
				if (st) x.lb = lb; else { for (size_t i = 0; i < P.n; ++i) a->lb_set(lb, i, 0); a->lb_free(lb); }
				x.live = true; x.K = h.K; x.L = h.L; break; }
			case H_COPY: {
				if (!x.live) break;
				Slot& y = s[h.slot2]; drop(y, model); y.h = JUNK; ec = a->copy_cl(x.h, &y.h); REQ(ec == EC_OK && y.h && y.h != JUNK, "copy: status %d", ec);
				y.live = true; y.K = x.K; y.L = x.L; ++alias; more = state(y); break; }
			case H_SC: {
				if (!x.live) break;
				Res want; if (model) { if (x.K > 0) want.ec = fresh_sc(h.ds, h.opt).ec == EC_NOSOL && P.opts[h.opt].size > P.n ? EC_NOSOL : EC_NOTIMPL; else want = fresh_sc(h.ds, h.opt); }
				VfOptions v = raw(P.opts[h.opt]); int mut = 0; ec = a->sc(ds[h.ds]->h, &v, x.h, &mut);
				REQ(!mut, "options or arrays behind them modified"); REQ(!ds[h.ds]->touched(), "data modified");
				if (model) {
					REQ(ec == want.ec, "step %zu: clustering object %zu gives status %d, expected %d", t, h.slot, ec, want.ec);
					if (ec == EC_OK) { x.K = want.K; x.L = want.L; }
				} else if (ec == EC_OK) { a->info(x.h, nullptr, &x.K); }
				if (ec == EC_OK) { ++good; clusters = std::max<size_t>(clusters, x.K); } more = state(x); break; }
			case H_HIER: {
				if (!x.live) break;
				Res want; if (model) want = fresh_hier(h, x);
				ec = a->hier(ds[h.ds]->h, h.size, h.batch, x.h); REQ(!ds[h.ds]->touched(), "data modified");
				if (model) {
					REQ(ec == want.ec, "step %zu: hierarchical clustering of object %zu gives status %d, a fresh object %d", t, h.slot, ec, want.ec);
					if (ec == EC_OK) { x.K = want.K; x.L = want.L; }
				} else a->info(x.h, nullptr, &x.K);
				if (ec == EC_OK) { ++good; clusters = std::max<size_t>(clusters, x.K); } more = state(x); break; }
			case H_CHECK: {
				if (!x.live) break;
				VfOptions v = raw(P.opts[h.opt]); int ok = 0; ec = a->check(x.h, &v, &ok, 0); REQ(ok != 99, "options modified"); more = std::to_string(ok);
				if (model) { int want = x.K == 0 ? EC_INVALID : P.opts[h.opt].size > P.n ? EC_NOSOL : EC_OK; REQ(ec == want, "step %zu: check gives status %d, expected %d", t, ec, want); } break; }
			case H_STATS: {
				if (!x.live) break;
				VfStats st; ec = a->stats(ds[h.ds]->h, x.h, &st); REQ(!ds[h.ds]->touched(), "data modified");
				more = std::to_string(st.num_assigned) + " " + std::to_string(st.num_populated_clusters) + " " + std::to_string(st.min_cluster_size) + " " + std::to_string(st.max_cluster_size) + " " + hex(st.sum_dists) + " " + hex(st.min_dist) + " " + hex(st.max_dist) + " " + hex(st.avg_min_dist) + " " + hex(st.avg_max_dist) + " " + hex(st.avg_dist_weighted) + " " + hex(st.avg_dist_unweighted);
				if (model) {
					REQ(ec == (x.K == 0 ? EC_INVALID : EC_OK), "step %zu: statistics give status %d with K=%llu", t, ec, (unsigned long long) x.K);
					if (ec == EC_OK) { uint64_t as = 0; for (auto l : x.L) as += l != VF_NA; REQ(st.num_data_points == P.n && st.num_clusters == x.K && st.num_assigned == as, "step %zu: statistics describe another clustering", t); }
				}
				if (ec == EC_OK) ++good;
				break; }
			case H_READ: {
				if (!x.live) break;
				if (h.len == 0) { std::vector<int64_t> b(1); ec = a->get_labels(x.h, 0, b.data()); if (model) REQ(ec == EC_INVALID, "reading zero labels: status %d", ec); break; }
				std::vector<int64_t> b(h.len, -7); ec = a->get_labels(x.h, h.len, b.data());
				if (model) {
					REQ(ec == (x.K == 0 ? EC_INVALID : EC_OK), "step %zu: reading labels gives status %d with K=%llu", t, ec, (unsigned long long) x.K);
					if (ec == EC_OK) for (size_t i = 0; i < h.len; ++i) REQ(b[i] == (i < P.n ? x.L[i] : VF_NA), "step %zu: label %zu of a buffer of %zu is wrong", t, i, h.len);
				}
				for (auto l : b) more += ec == EC_OK ? std::to_string(l) + "," : "";
				break; }
			case H_INFO: {
				if (!x.live) break;
				uint64_t q1 = 0, q2 = 0; unsigned m = (unsigned) (h.len % 4); ec = a->info(x.h, m & 1 ? &q1 : nullptr, m & 2 ? &q2 : nullptr);
				if (model) REQ(ec == EC_OK && (!(m & 1) || q1 == P.n) && (!(m & 2) || q2 == x.K), "step %zu: info wrong", t);
				break; }
			case H_FREE: drop(x, model); break;
			case H_EDIT: if (x.live && x.lb && x.K > 0 && !flip) { int64_t v = (h.val % 7 == 0) ? VF_NA : (int64_t) ((uint64_t) h.val % x.K); a->lb_set(x.lb, h.pos, v); if (model) x.L[h.pos] = v; } break;
			case H_ERR: { char b[300]; REQ(a->latest_error(sizeof b, b) == 1, "latest error cannot be read"); REQ(memchr(b, 0, sizeof b) != nullptr, "error text not terminated"); break; }
			case H_FREE_NULL: { void* z = nullptr; a->free_cl(&z); a->free_cl(nullptr); a->free_data_set(&z); a->free_data_set(nullptr); REQ(z == nullptr, "null handle changed"); break; }
			}
			emit(h, ec, more);
			if (model) verify(t);
		}
		for (auto& x : s) drop(x, model);
		for (auto& d : ds) { REQ(!d->touched(), "data modified"); a->free_data_set(&d->h); REQ(d->h == nullptr, "freeing leaves a dangling data set handle"); }
	}
};
static void compare_logs(Ctx& c, const Exec& x, const Exec& y, const char* what)
{
	REQ(x.log.size() == y.log.size(), "%s: different number of steps", what);
	for (size_t i = 0; i < x.log.size(); ++i) REQ(x.log[i] == y.log[i], "%s: step %zu differs: '%s' vs '%s'", what, i, x.log[i].c_str(), y.log[i].c_str());
}

// ---------------------------------------------------------------- C17
void p_c17(Ctx& c)
{
	Plan P = gen_plan(c, true, 20, true); const VfApi* a = c.api; int64_t live = a->alloc_live(); Reuse reuse(a, c.u(4) == 3);
	a->alloc_reset(c.u(2) ? 256 + (int) c.u(64) : 0xA7, -1, 0);
	Exec x(c, P, false, false, 0); x.run();
	REQ(a->alloc_live() == live, "%lld blocks allocated by the library remain after everything was freed", (long long) (a->alloc_live() - live));
	a->alloc_reset(0x3C, -1, 0);
	Exec y(c, P, false, false, 0); y.run();
	a->alloc_reset(-1, -1, 0);
	REQ(a->alloc_live() == live, "%lld blocks allocated by the library remain after everything was freed", (long long) (a->alloc_live() - live));
	compare_logs(c, x, y, "other heap contents");
	c.nontrivial = x.good >= 3;
	c.lab(x.good == 0 ? "0 computations" : x.good < 3 ? "1-2 computations" : "3+ computations");
}
// ---------------------------------------------------------------- C22
void p_c22(Ctx& c)
{
	Plan P = gen_plan(c, false, 12, true); const VfApi* a = c.api; int noise = 1 + (int) c.u(1000);
	Reuse reuse(a, c.u(2) == 1);
	a->alloc_reset(-1, -1, 0);
	Exec x(c, P, false, false, 0); x.run(); x.ds.clear();
	if (P.n <= 100 || noise % 4 == 0) { // the same shape with other contents: in other objects (possibly at the same addresses), then in the same matrix
		size_t d = (size_t) noise % P.data.size(); Data E = P.data[d]; std::reverse(E.x.begin(), E.x.end()); const Opts& o = P.opts[(size_t) (noise / 7) % P.opts.size()];
		Res e = run_sc(a, E, o, noise & 1), eh = run_hier(a, E, 2, noise & 1, 0), f = run_sc(a, P.data[d], o, 0), fh = run_hier(a, P.data[d], 2, noise & 1, 0);
		DS t(a, E); Res e2 = run_sc_on(a, t.h, P.n, o, 0), eh2 = run_hier_on(a, t.h, P.n, 2, noise & 1, 0); t.refill(P.data[d]); Res f2 = run_sc_on(a, t.h, P.n, o, 0), fh2 = run_hier_on(a, t.h, P.n, 2, noise & 1, 0);
		REQ(same(e, e2) && same(eh, eh2), "repetition gives %s / %s after %s / %s", str(e2).c_str(), str(eh2).c_str(), str(e).c_str(), str(eh).c_str());
		REQ(same(f, f2) && same(fh, fh2), "data written into a matrix used before give %s / %s, in a new object %s / %s", str(f2).c_str(), str(fh2).c_str(), str(f).c_str(), str(fh).c_str());
	}
	Exec x2(c, P, false, false, 0); x2.run(); compare_logs(c, x, x2, "repetition");
	a->alloc_reset(c.u(2) ? 256 + (int) c.u(64) : (int) (1 + c.u(255)), -1, 0);
	Exec y(c, P, false, true, 0); y.run(); compare_logs(c, x, y, "other label storage and heap contents");
	Exec z(c, P, false, false, noise); z.run(); compare_logs(c, x, z, "other calls in between");
	a->alloc_reset(-1, -1, 0);
	c.nontrivial = x.good >= 1 && x.clusters >= 2;
}
// ---------------------------------------------------------------- C23
// more points and clusters than 16 bits can number
static void c23_large(Ctx& c)
{
	const VfApi* a = c.api; size_t n = 66000 + (size_t) c.u(70000); uint64_t K = 65530 + c.u(5000); Rng rng(c.u(1ull << 40)); std::vector<int64_t> L(n); int shared = (int) c.u(2);
	for (auto& l : L) l = rng.next() % 50 == 0 ? (int64_t) VF_NA : (int64_t) (rng.next() % K);
	c.note("n=%zu K=%llu shared=%d", n, (unsigned long long) K, shared);
	CL x(a, L, K, shared); Res r; x.read(r); REQ(r.K == K && r.L == L, "labels read back differ");
	void* y = nullptr; REQ(a->copy_cl(x.h, &y) == EC_OK && y, "copy fails");
	size_t i = (size_t) c.u(n); if (shared) a->lb_set(x.lb, i, L[i] == 0 ? 1 : 0);
	unsigned lw = (unsigned) c.u(3); size_t len = lw == 0 ? n + (size_t) c.u(10) : lw == 1 ? n - (size_t) c.u(10) : n + (size_t) c.u(200000); std::vector<int64_t> out(len); int ec = a->get_labels(y, len, out.data()); uint64_t nn = 0, kk = 0; int e2 = a->info(y, &nn, &kk); a->free_cl(&y);
	REQ(ec == EC_OK && e2 == EC_OK && nn == n && kk == K && y == nullptr, "copy: status %d %d, n=%llu K=%llu", ec, e2, (unsigned long long) nn, (unsigned long long) kk);
	for (size_t j = 0; j < len; ++j) REQ(out[j] == (j < n ? L[j] : (int64_t) VF_NA), "copy: label %zu is %lld", j, (long long) out[j]);
	c.lab("more than 2^16 points"); c.nontrivial = true;
}
void p_c23(Ctx& c)
{
	if (c.u(5000) == 4999) { c23_large(c); return; }
	Plan P = gen_plan(c, true, 24); Reuse reuse(c.api, c.u(4) == 3);
	Exec x(c, P, true, false, 0); x.run();
	c.nontrivial = x.good >= 1 && (x.alias > 0);
	if (x.alias) c.lab("with copies");
	if (x.good) c.lab("with computations");
}
