// One configuration of the library behind the canonical API (see vf_api.h).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <map>
#include <vector>
#include <algorithm>
#include <type_traits>
#include <sys/mman.h>
#include "scclust.h"
#include "scclust_spi.h"
#include "vf_api.h"

#ifndef VF_ARC_MAX
#define VF_ARC_MAX UINT32_MAX
#endif
#ifndef VF_ASSERTS
#define VF_ASSERTS 0
#endif
#ifndef VF_NAME
#define VF_NAME "default"
#endif

extern "C" {
void vf_alloc_reset(int, int64_t, int); int64_t vf_alloc_count(void); int64_t vf_alloc_live(void); int64_t vf_alloc_failed(void); void vf_alloc_limit(uint64_t); void vf_alloc_reuse(int);
void* __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
#ifdef VF_HAVE_INTERNAL
const VfInternal* vf_internal(void);
#endif
}

#ifdef VF_HAVE_ANN
extern "C" bool scc_set_ann_dist_search();
#endif
// arrays of the ANN back end (nothing else in this object allocates arrays with new)
static int64_t g_arrays = 0;
extern "C" void* __real__Znam(size_t); extern "C" void __real__ZdaPv(void*);
extern "C" void* __wrap__Znam(size_t n) { void* p = __real__Znam(n); ++g_arrays; return p; }
extern "C" void __wrap__ZdaPv(void* p) { if (p) --g_arrays; __real__ZdaPv(p); }
static int64_t s_arrays(void) { return g_arrays; }

static int64_t from_label(scc_Clabel l) { return (l == SCC_CLABEL_NA) ? VF_NA : (int64_t) l; }
static scc_Clabel to_label(int64_t v) { return (v == VF_NA) ? SCC_CLABEL_NA : (scc_Clabel) v; }

// exact-size heap array; ASan redzones on both sides
template <class T> struct Arr {
	T* p = nullptr; size_t n = 0;
	explicit Arr(size_t n_) : n(n_) { p = static_cast<T*>(::operator new(n ? n * sizeof(T) : 1)); }
	~Arr() { ::operator delete(p); }
	Arr(const Arr&) = delete; Arr& operator=(const Arr&) = delete;
};

static int s_latest(size_t len, char* buf) { return scc_get_latest_error(len, buf) ? 1 : 0; }
static int s_init_ds(uint64_t n, uint32_t d, size_t len, const double* m, void** out) { return scc_init_data_set(n, d, len, m, (scc_DataSet**) out); }
static void s_free_ds(void** p) { scc_free_data_set((scc_DataSet**) p); }
static int s_is_ds(const void* p) { return scc_is_initialized_data_set((const scc_DataSet*) p); }
static void* s_lb_new(size_t n) { return ::operator new(n ? n * sizeof(scc_Clabel) : 1); }
static void s_lb_set(void* p, size_t i, int64_t v) { ((scc_Clabel*) p)[i] = to_label(v); }
static int64_t s_lb_get(const void* p, size_t i) { return from_label(((const scc_Clabel*) p)[i]); }
static void s_lb_free(void* p) { ::operator delete(p); }
static int s_init_empty(uint64_t n, void* lb, void** out) { return scc_init_empty_clustering(n, (scc_Clabel*) lb, (scc_Clustering**) out); }
static int s_init_existing(uint64_t n, uint64_t k, void* lb, int deep, void** out) { return scc_init_existing_clustering(n, k, (scc_Clabel*) lb, deep != 0, (scc_Clustering**) out); }
static void s_free_cl(void** p) { scc_free_clustering((scc_Clustering**) p); }
static int s_is_cl(const void* p) { return scc_is_initialized_clustering((const scc_Clustering*) p); }
static int s_copy(const void* p, void** o) { return scc_copy_clustering((const scc_Clustering*) p, (scc_Clustering**) o); }
static int s_info(const void* p, uint64_t* a, uint64_t* b) { return scc_get_clustering_info((const scc_Clustering*) p, a, b); }
static int s_labels(const void* p, size_t len, int64_t* out)
{
	if (out == nullptr) return scc_get_cluster_labels((const scc_Clustering*) p, len, nullptr);
	Arr<scc_Clabel> b(len);
	memset((void*) b.p, 0x5A, len * sizeof(scc_Clabel));
	int ec = scc_get_cluster_labels((const scc_Clustering*) p, len, b.p);
	if (ec == SCC_ER_OK) for (size_t i = 0; i < len; ++i) out[i] = from_label(b.p[i]);
	return ec;
}
static void s_defaults(VfOptions* o)
{
	scc_ClusterOptions d = scc_get_default_options();
	memset(o, 0, sizeof *o);
	o->options_version = d.options_version; o->size_constraint = d.size_constraint; o->num_types = d.num_types;
	o->type_constraints = d.type_constraints; o->len_type_labels = d.len_type_labels; o->type_labels = (const int64_t*) (const void*) d.type_labels;
	o->seed_method = d.seed_method; o->len_primary = d.len_primary_data_points; o->primary = (const int64_t*) (const void*) d.primary_data_points;
	o->pum = d.primary_unassigned_method; o->sum = d.secondary_unassigned_method;
	o->seed_radius = d.seed_radius; o->seed_r = d.seed_supplied_radius;
	o->prim_radius = d.primary_radius; o->prim_r = d.primary_supplied_radius;
	o->sec_radius = d.secondary_radius; o->sec_r = d.secondary_supplied_radius; o->batch_size = d.batch_size;
}

struct Opt {
	scc_ClusterOptions o, o0;
	Arr<uint32_t> tc, tc0; Arr<scc_TypeLabel> tl, tl0; Arr<scc_PointIndex> pr, pr0;
	explicit Opt(const VfOptions* v)
	  : tc(v->type_constraints ? v->len_type_constraints : 0), tc0(tc.n), tl(v->type_labels ? v->cnt_type_labels : 0), tl0(tl.n), pr(v->primary ? v->cnt_primary : 0), pr0(pr.n)
	{
		memset(&o, 0, sizeof o);
		for (size_t i = 0; i < tc.n; ++i) tc.p[i] = tc0.p[i] = v->type_constraints[i];
		for (size_t i = 0; i < tl.n; ++i) tl.p[i] = tl0.p[i] = (scc_TypeLabel) v->type_labels[i];
		for (size_t i = 0; i < pr.n; ++i) pr.p[i] = pr0.p[i] = (scc_PointIndex) v->primary[i];
		o.options_version = v->options_version; o.size_constraint = v->size_constraint; o.num_types = v->num_types;
		o.type_constraints = v->type_constraints ? tc.p : nullptr;
		o.len_type_labels = v->len_type_labels; o.type_labels = v->type_labels ? tl.p : nullptr;
		int e;
		e = v->seed_method; memcpy(&o.seed_method, &e, sizeof(int));
		o.len_primary_data_points = v->len_primary; o.primary_data_points = v->primary ? pr.p : nullptr;
		e = v->pum; memcpy(&o.primary_unassigned_method, &e, sizeof(int));
		e = v->sum; memcpy(&o.secondary_unassigned_method, &e, sizeof(int));
		e = v->seed_radius; memcpy(&o.seed_radius, &e, sizeof(int)); o.seed_supplied_radius = v->seed_r;
		e = v->prim_radius; memcpy(&o.primary_radius, &e, sizeof(int)); o.primary_supplied_radius = v->prim_r;
		e = v->sec_radius; memcpy(&o.secondary_radius, &e, sizeof(int)); o.secondary_supplied_radius = v->sec_r;
		o.batch_size = v->batch_size;
		memcpy((void*) &o0, &o, sizeof o);
	}
	bool mutated() const
	{
		return memcmp(&o, &o0, sizeof o) != 0 || memcmp(tc.p, tc0.p, tc.n * sizeof(uint32_t)) != 0 ||
		       memcmp(tl.p, tl0.p, tl.n * sizeof(scc_TypeLabel)) != 0 || memcmp(pr.p, pr0.p, pr.n * sizeof(scc_PointIndex)) != 0;
	}
};
static_assert(sizeof(scc_SeedMethod) == sizeof(int), "enum size");

static int s_sc(void* ds, const VfOptions* v, void* cl, int* mutated)
{
	Opt o(v);
	int ec = scc_sc_clustering(ds, &o.o, (scc_Clustering*) cl);
	if (mutated) *mutated = o.mutated();
	return ec;
}
static int s_hier(void* ds, uint32_t size, int batch, void* cl) { return scc_hierarchical_clustering(ds, size, batch != 0, (scc_Clustering*) cl); }
static int s_check(const void* cl, const VfOptions* v, int* ok, int null_out)
{
	Opt o(v);
	bool b = true;
	int ec = scc_check_clustering((const scc_Clustering*) cl, &o.o, null_out ? nullptr : &b);
	*ok = b ? 1 : 0;
	if (o.mutated()) *ok = 99;
	return ec;
}
static int s_stats(void* ds, const void* cl, VfStats* out)
{
	if (!out) return scc_get_clustering_stats(ds, (const scc_Clustering*) cl, nullptr);
	scc_ClusteringStats s; memset(&s, 0x77, sizeof s);
	int ec = scc_get_clustering_stats(ds, (const scc_Clustering*) cl, &s);
	out->num_data_points = s.num_data_points; out->num_assigned = s.num_assigned; out->num_clusters = s.num_clusters;
	out->num_populated_clusters = s.num_populated_clusters; out->min_cluster_size = s.min_cluster_size; out->max_cluster_size = s.max_cluster_size;
	out->avg_cluster_size = s.avg_cluster_size; out->sum_dists = s.sum_dists; out->min_dist = s.min_dist; out->max_dist = s.max_dist;
	out->avg_min_dist = s.avg_min_dist; out->avg_max_dist = s.avg_max_dist; out->avg_dist_weighted = s.avg_dist_weighted; out->avg_dist_unweighted = s.avg_dist_unweighted;
	return ec;
}

// ------------------------------------------------------------------ back end
static VfBackend* B = nullptr;
static void* g_handle = nullptr;
static unsigned char* g_zone = nullptr; // PROT_NONE
static const size_t ZONE = (size_t) 1 << 24;
static size_t g_next_obj = 0;
struct Obj { int kind; size_t len; const scc_PointIndex* idx; std::vector<scc_PointIndex> snap; bool live; std::vector<scc_PointIndex> sorted = {}; uint64_t calls = 0; };
static std::map<void*, Obj> g_obj;

static void broke(const char* m) { if (B && !B->contract_broken) { B->contract_broken = 1; snprintf(B->contract_msg, sizeof B->contract_msg, "%s", m); } }
static bool addressable(const void* p, size_t bytes) { if (!__asan_region_is_poisoned || bytes == 0) return true; return __asan_region_is_poisoned((void*) p, bytes) == nullptr; }
static bool inject(int kind)
{
	++B->per_kind[kind];
	if (B->fail_kind >= 0 && kind != B->fail_kind) return false;
	int64_t c = B->calls++;
	bool f = B->fail_at >= 0 && (c == B->fail_at || (B->fail_from && c > B->fail_at));
	if (f && B->failed_kind < 0) B->failed_kind = kind;
	if (f) B->failed_mask |= 1u << kind;
	return f;
}
static double keyof_(size_t a, size_t b)
{
	const double* x = B->data + a * B->dim; const double* y = B->data + b * B->dim;
	double r = 0.0;
	for (uint32_t i = 0; i < B->dim; ++i) {
		double v = x[i] - y[i];
		if (B->metric == 0) r += v * v; else if (B->metric == 1) r += std::fabs(v); else r = std::max(r, std::fabs(v));
	}
	return r;
}
static double dist_(size_t a, size_t b) { double k = keyof_(a, b); return B->metric == 0 ? std::sqrt(k) : k; }
static bool idx_ok(const scc_PointIndex* p, size_t len, const char* what)
{
	if (p == nullptr) { if (len > B->n) { broke(what); return false; } return true; }
	if (!addressable(p, len * sizeof(scc_PointIndex))) { broke(what); return false; }
	for (size_t i = 0; i < len; ++i) if (!(p[i] >= 0 && (uint64_t) p[i] < B->n)) { broke(what); return false; }
	return true;
}
static bool handle_ok(void* ds, const char* what) { if (ds != g_handle) { broke(what); return false; } return true; }

static bool cb_check(void* ds) { ++B->per_kind[CB_CHECK]; return ds == g_handle; }
static size_t cb_num(void* ds) { ++B->per_kind[CB_NUM]; handle_ok(ds, "num_data_points: wrong data set"); return (size_t) (B->fake_n ? B->fake_n : B->n); }
static bool cb_matrix(void* ds, size_t len, const scc_PointIndex* idx, double* out)
{
	bool f = inject(CB_MATRIX);
	if (!handle_ok(ds, "dist_matrix: wrong data set") || !idx_ok(idx, len, "dist_matrix: bad indices")) return false;
	if (len < 2) { broke("dist_matrix: fewer than two points"); return false; }
	size_t cells = len * (len - 1) / 2;
	if (!addressable(out, cells * sizeof(double))) { broke("dist_matrix: output too small"); return false; }
	if (f && !B->scribble) return false;
	size_t w = 0;
	for (size_t a = 0; a < len; ++a) for (size_t b = a + 1; b < len; ++b, ++w)
		out[w] = f ? -1e300 : dist_(idx ? (size_t) idx[a] : a, idx ? (size_t) idx[b] : b);
	return !f;
}
static bool cb_rows(void* ds, size_t nq, const scc_PointIndex* q, size_t nc, const scc_PointIndex* c, double* out)
{
	bool f = inject(CB_ROWS);
	if (!handle_ok(ds, "dist_rows: wrong data set") || !idx_ok(q, nq, "dist_rows: bad queries") || !idx_ok(c, nc, "dist_rows: bad columns")) return false;
	if (nq == 0 || nc == 0) { broke("dist_rows: empty"); return false; }
	if (!addressable(out, nq * nc * sizeof(double))) { broke("dist_rows: output too small"); return false; }
	if (f && !B->scribble) return false;
	for (size_t a = 0; a < nq; ++a) for (size_t b = 0; b < nc; ++b)
		out[a * nc + b] = f ? -1e300 : dist_(q ? (size_t) q[a] : a, c ? (size_t) c[b] : b);
	return !f;
}
static void* new_obj(int kind, size_t len, const scc_PointIndex* idx)
{
	void* h = g_zone + 64 + (g_next_obj++ % (ZONE / 64 - 2)) * 64;
	Obj o{kind, len, idx, {}, true};
	if (idx) o.snap.assign(idx, idx + len);
	if (B->line && idx) { o.sorted = o.snap; std::sort(o.sorted.begin(), o.sorted.end()); }
	g_obj[h] = std::move(o);
	++B->open_objects;
	return h;
}
static Obj* get_obj(void* h, int kind, const char* what)
{
	auto it = g_obj.find(h);
	if (it == g_obj.end() || !it->second.live || it->second.kind != kind) { broke(what); return nullptr; }
	Obj* o = &it->second;
	// objects of long problems are asked many times; after a while only every 512th call looks at all their indices
	if (o->idx && (o->len < 4096 || ++o->calls < 16 || o->calls % 512 == 0)) {
		if (!addressable(o->idx, o->len * sizeof(scc_PointIndex))) { broke("search indices no longer valid while object is open"); return nullptr; }
		for (size_t i = 0; i < o->len; ++i) if (o->idx[i] != o->snap[i]) { broke("search indices changed while object is open"); return nullptr; }
	}
	return o;
}
static bool init_common(int kind, void* ds, size_t len, const scc_PointIndex* idx, void** out, const char* what)
{
	bool f = inject(kind == 0 ? CB_MD_INIT : CB_NN_INIT);
	if (!handle_ok(ds, what) || out == nullptr || len == 0) { broke(what); return false; }
	if (!(B->fake_n && idx == nullptr) && !idx_ok(idx, len, what)) return false;
	if (f) return false;
	*out = new_obj(kind, len, idx);
	return true;
}
static bool close_common(int kind, void** pp, const char* what)
{
	bool f = inject(kind == 0 ? CB_MD_CLOSE : CB_NN_CLOSE);
	if (pp == nullptr || *pp == nullptr) { broke(what); return false; }
	auto it = g_obj.find(*pp);
	if (it == g_obj.end() || !it->second.live || it->second.kind != kind) { broke(what); return false; }
	it->second.live = false; --B->open_objects;
	*pp = nullptr;
	return !f;
}
static bool cb_md_init(void* ds, size_t len, const scc_PointIndex* idx, iscc_MaxDistObject** out) { return init_common(0, ds, len, idx, (void**) out, "init_max_dist_object: bad arguments"); }
static bool cb_md_close(iscc_MaxDistObject** p) { return close_common(0, (void**) p, "close_max_dist_object: object not open"); }
static bool cb_nn_init(void* ds, size_t len, const scc_PointIndex* idx, iscc_NNSearchObject** out) { return init_common(1, ds, len, idx, (void**) out, "init_nn_search_object: bad arguments"); }
static bool cb_nn_close(iscc_NNSearchObject** p) { return close_common(1, (void**) p, "close_nn_search_object: object not open"); }
static uint64_t tiekey(size_t pos, size_t q)
{
	if (B->tie == 0) return pos;
	if (B->tie == 1) return UINT64_MAX - pos;
	uint64_t x = pos * 0x9E3779B97F4A7C15ULL + q * 0xC2B2AE3D27D4EB4FULL; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 27; return x;
}
static bool cb_md_get(iscc_MaxDistObject* h, size_t nq, const scc_PointIndex* q, scc_PointIndex* oi, double* od)
{
	bool f = inject(CB_MD_GET);
	Obj* o = get_obj(h, 0, "get_max_dist: object not open");
	if (!o || !idx_ok(q, nq, "get_max_dist: bad queries")) return false;
	if (nq == 0 || !addressable(oi, nq * sizeof(scc_PointIndex)) || !addressable(od, nq * sizeof(double))) { broke("get_max_dist: bad output"); return false; }
	if (f && !B->scribble) return false;
	std::vector<scc_PointIndex> qq(nq); for (size_t a = 0; a < nq; ++a) qq[a] = q ? q[a] : (scc_PointIndex) a;
	if (B->line && !f) {
		for (size_t a = 0; a < nq; ++a) {
			size_t qi = (size_t) qq[a], lo = o->idx ? (size_t) o->sorted.front() : 0, hi = o->idx ? (size_t) o->sorted.back() : o->len - 1;
			size_t bi = keyof_(qi, lo) > keyof_(qi, hi) ? lo : hi; oi[a] = (scc_PointIndex) bi; od[a] = dist_(qi, bi);
		}
		return true;
	}
	for (size_t a = 0; a < nq; ++a) {
		size_t qi = (size_t) qq[a]; double best = -1.0; size_t bi = 0; uint64_t bt = 0;
		for (size_t s = 0; s < o->len; ++s) {
			size_t si = o->idx ? (size_t) o->idx[s] : s; double k = keyof_(qi, si); uint64_t t = tiekey(s, qi);
			if (k > best || (k == best && t < bt)) { best = k; bi = si; bt = t; }
		}
		oi[a] = (scc_PointIndex) bi; od[a] = f ? -5.0 : dist_(qi, bi);
	}
	return !f;
}
static bool cb_nn_search(iscc_NNSearchObject* h, size_t nq, const scc_PointIndex* q, uint32_t k, bool rs, double radius, size_t* out_ok, scc_PointIndex* out_q, scc_PointIndex* out_nn)
{
	bool f = inject(CB_NN_SEARCH);
	Obj* o = get_obj(h, 1, "nearest_neighbor_search: object not open");
	if (!o || !idx_ok(q, nq, "nearest_neighbor_search: bad queries")) return false;
	if (nq == 0 || k == 0 || k > o->len) { broke("nearest_neighbor_search: k out of range or no queries"); return false; }
	if (rs && !(radius > 0.0)) { broke("nearest_neighbor_search: non-positive radius"); return false; }
	if (rs && out_q == nullptr) { broke("nearest_neighbor_search: no room for ok queries"); return false; }
	if (out_ok == nullptr || !addressable(out_ok, sizeof(size_t)) || out_nn == nullptr || !addressable(out_nn, nq * k * sizeof(scc_PointIndex)) ||
	    (out_q != nullptr && !addressable(out_q, nq * sizeof(scc_PointIndex)))) { broke("nearest_neighbor_search: output too small"); return false; }
	if (f && !B->scribble) return false;
	std::vector<scc_PointIndex> qq(nq); for (size_t a = 0; a < nq; ++a) qq[a] = q ? q[a] : (scc_PointIndex) a;
	struct E { double k; uint64_t t; size_t i; };
	std::vector<E> e; size_t ok = 0;
	double lim = B->metric == 0 ? radius * radius : radius;
	if (B->line && !f) {
		auto at = [&](size_t p) { return o->idx ? (size_t) o->sorted[p] : p; };
		for (size_t a = 0; a < nq; ++a) {
			size_t qi = (size_t) qq[a], r = o->idx ? (size_t) (std::lower_bound(o->sorted.begin(), o->sorted.end(), qq[a]) - o->sorted.begin()) : std::min(qi, o->len), l = r;
			uint32_t j = 0; // l: next candidate on the left is l - 1, r: next on the right
			for (; j < k; ++j) {
				bool left = l > 0 && (r >= o->len || keyof_(qi, at(l - 1)) <= keyof_(qi, at(r))); size_t p = left ? at(--l) : at(r++);
				if (rs && keyof_(qi, p) > lim) break;
				out_nn[ok * k + j] = (scc_PointIndex) p;
			}
			if (j < k) continue;
			if (out_q) out_q[ok] = qq[a];
			++ok;
		}
		*out_ok = ok;
		return true;
	}
	for (size_t a = 0; a < nq; ++a) {
		e.clear(); size_t qi = (size_t) qq[a];
		for (size_t s = 0; s < o->len; ++s) {
			size_t si = o->idx ? (size_t) o->idx[s] : s; double d = keyof_(qi, si);
			if (rs && d > lim) continue;
			e.push_back(E{d, tiekey(s, qi), si});
		}
		if (e.size() < k) continue;
		std::partial_sort(e.begin(), e.begin() + k, e.end(), [](const E& x, const E& y) { return x.k < y.k || (x.k == y.k && x.t < y.t); });
		for (uint32_t j = 0; j < k; ++j) out_nn[ok * k + j] = (scc_PointIndex) (f ? (size_t) 0 : e[j].i);
		if (out_q) out_q[ok] = qq[a];
		++ok;
	}
	*out_ok = f ? nq : ok;
	return !f;
}

static void* s_zone(void)
{
	if (!g_zone) g_zone = (unsigned char*) mmap(nullptr, ZONE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return g_zone;
}
static int s_install(VfBackend* b, void* handle, unsigned m)
{
	s_zone();
	B = b; g_obj.clear(); g_next_obj = 0;
	g_handle = handle ? handle : (void*) g_zone;
	if (b) {
		b->calls = 0; b->failed_kind = -1; b->failed_mask = 0; b->open_objects = 0; b->contract_broken = 0; b->contract_msg[0] = 0;
		memset(b->per_kind, 0, sizeof b->per_kind);
	}
#define M(i, f) ((m >> (i)) & 1u ? (f) : nullptr)
	return scc_set_dist_functions(M(CB_CHECK, cb_check), M(CB_NUM, cb_num), M(CB_MATRIX, cb_matrix), M(CB_ROWS, cb_rows), M(CB_MD_INIT, cb_md_init), M(CB_MD_GET, cb_md_get),
	                              M(CB_MD_CLOSE, cb_md_close), M(CB_NN_INIT, cb_nn_init), M(CB_NN_SEARCH, cb_nn_search), M(CB_NN_CLOSE, cb_nn_close)) ? 1 : 0;
}
static int s_reset(void) { return scc_reset_dist_functions() ? 1 : 0; }
static void s_uninstall(void) { scc_reset_dist_functions(); B = nullptr; g_obj.clear(); }

template <class T> static uint64_t tmax() { return (uint64_t) std::numeric_limits<T>::max(); }

extern "C" const VfApi* vf_get_api(void)
{
	static VfApi a;
	a.name = VF_NAME;
	a.clabel_bits = 8 * sizeof(scc_Clabel); a.clabel_signed = std::is_signed<scc_Clabel>::value;
	a.pi_bits = 8 * sizeof(scc_PointIndex); a.pi_signed = std::is_signed<scc_PointIndex>::value;
	a.tl_bits = 8 * sizeof(scc_TypeLabel); a.tl_signed = std::is_signed<scc_TypeLabel>::value;
	a.clabel_max = tmax<scc_Clabel>(); a.pointindex_max = tmax<scc_PointIndex>(); a.arc_max = VF_ARC_MAX;
	a.na_raw = (int64_t) SCC_CLABEL_NA; a.asserts = VF_ASSERTS;
	a.version = scc_get_compiled_version; a.latest_error = s_latest; a.init_data_set = s_init_ds; a.free_data_set = s_free_ds; a.is_data_set = s_is_ds;
	a.lb_new = s_lb_new; a.lb_set = s_lb_set; a.lb_get = s_lb_get; a.lb_free = s_lb_free;
	a.init_empty = s_init_empty; a.init_existing = s_init_existing; a.free_cl = s_free_cl; a.is_cl = s_is_cl; a.copy_cl = s_copy; a.info = s_info; a.get_labels = s_labels;
	a.default_options = s_defaults; a.sc = s_sc; a.hier = s_hier; a.check = s_check; a.stats = s_stats;
	a.alloc_reset = vf_alloc_reset; a.alloc_count = vf_alloc_count; a.alloc_live = vf_alloc_live; a.alloc_failed = vf_alloc_failed; a.alloc_limit = vf_alloc_limit; a.alloc_reuse = vf_alloc_reuse;
#ifdef VF_HAVE_ANN
	a.set_ann = []() -> int { return scc_set_ann_dist_search() ? 1 : 0; };
#else
	a.set_ann = nullptr;
#endif
	a.ann_arrays = s_arrays;
	a.reset_dist = s_reset; a.install = s_install; a.uninstall = s_uninstall; a.zone = s_zone;
#ifdef VF_HAVE_INTERNAL
	a.in = vf_internal();
#else
	a.in = nullptr;
#endif
	return &a;
}
