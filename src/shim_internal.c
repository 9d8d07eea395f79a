/* Internal entry points that the repository's own tests also call. */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "../include/scclust.h"
#include "../include/scclust_spi.h"
#include "digraph_core.h"
#include "nng_findseeds.h"
#include "dist_search_imp.h"
#include "vf_api.h"

/* plain allocations must not go through the wrapped ones */
void* __real_malloc(size_t); void __real_free(void*);
#define XALLOC(T, n) ((T*) __real_malloc((n) ? (n) * sizeof(T) : 1))

static scc_PointIndex* conv(const int64_t* p, size_t n)
{
	if (p == NULL) return NULL;
	scc_PointIndex* o = XALLOC(scc_PointIndex, n);
	for (size_t i = 0; i < n; ++i) o[i] = (scc_PointIndex) p[i];
	return o;
}
static int i_matrix(void* ds, size_t n, const int64_t* idx, double* out, int* ret)
{
	scc_PointIndex* c = conv(idx, n); size_t cells = n * (n - 1) / 2;
	double* b = XALLOC(double, cells);
	*ret = iscc_imp_get_dist_matrix(ds, n, c, b);
	memcpy(out, b, cells * sizeof(double));
	__real_free(b); __real_free(c);
	return 0;
}
static int i_rows(void* ds, size_t nq, const int64_t* q, size_t nc, const int64_t* c, double* out, int* ret)
{
	scc_PointIndex* cq = conv(q, nq); scc_PointIndex* cc = conv(c, nc);
	double* b = XALLOC(double, nq * nc);
	*ret = iscc_imp_get_dist_rows(ds, nq, cq, nc, cc, b);
	memcpy(out, b, nq * nc * sizeof(double));
	__real_free(b); __real_free(cq); __real_free(cc);
	return 0;
}
static int i_max(void* ds, size_t ns, const int64_t* s, size_t nq, const int64_t* q, int64_t* oi, double* od, int* ret)
{
	scc_PointIndex* cs = conv(s, ns); scc_PointIndex* cq = conv(q, nq);
	scc_PointIndex* bi = XALLOC(scc_PointIndex, nq); double* bd = XALLOC(double, nq);
	iscc_MaxDistObject* o = NULL;
	*ret = iscc_imp_init_max_dist_object(ds, ns, cs, &o);
	if (*ret) {
		*ret = iscc_imp_get_max_dist(o, nq, cq, bi, bd);
		for (size_t i = 0; i < nq; ++i) { oi[i] = (int64_t) bi[i]; od[i] = bd[i]; }
		if (!iscc_imp_close_max_dist_object(&o) || o != NULL) *ret = 0;
	}
	__real_free(bi); __real_free(bd); __real_free(cs); __real_free(cq);
	return 0;
}
static int i_nn(void* ds, size_t ns, const int64_t* s, size_t nq, const int64_t* q, uint32_t k, int rs, double radius, int give_out, int in_place, size_t* out_ok, int64_t* out_q, int64_t* out_nn, int* ret)
{
	scc_PointIndex* cs = conv(s, ns); scc_PointIndex* cq = conv(q, nq);
	scc_PointIndex* bq = give_out ? (in_place && cq ? cq : XALLOC(scc_PointIndex, nq)) : NULL;
	scc_PointIndex* bn = XALLOC(scc_PointIndex, nq * k);
	iscc_NNSearchObject* o = NULL;
	*out_ok = 0;
	*ret = iscc_imp_init_nn_search_object(ds, ns, cs, &o);
	if (*ret) {
		*ret = iscc_imp_nearest_neighbor_search(o, nq, cq, k, rs != 0, radius, out_ok, bq, bn);
		if (*out_ok <= nq) {
			for (size_t i = 0; i < *out_ok * k; ++i) out_nn[i] = (int64_t) bn[i];
			if (bq) for (size_t i = 0; i < *out_ok; ++i) out_q[i] = (int64_t) bq[i];
		}
		if (!iscc_imp_close_nn_search_object(&o) || o != NULL) *ret = 0;
	}
	if (bq != cq) __real_free(bq);
	__real_free(bn); __real_free(cs); __real_free(cq);
	return 0;
}
static int i_seeds(size_t v, const uint64_t* tp, const int64_t* head, int method, size_t capacity, size_t* cnt, int64_t* out, size_t max_out)
{
	size_t arcs = (size_t) tp[v];
	iscc_Digraph dg;
	dg.vertices = v; dg.max_arcs = arcs; dg.head = arcs ? conv(head, arcs) : NULL;
	dg.tail_ptr = XALLOC(iscc_ArcIndex, v + 1);
	for (size_t i = 0; i <= v; ++i) dg.tail_ptr[i] = (iscc_ArcIndex) tp[i];
	iscc_SeedResult sr; sr.capacity = capacity; sr.count = 0; sr.seeds = NULL;
	int ec = (int) iscc_find_seeds(&dg, (scc_SeedMethod) method, &sr);
	*cnt = 0;
	if (ec == 0) {
		*cnt = sr.count;
		for (size_t i = 0; i < sr.count && i < max_out; ++i) out[i] = (int64_t) sr.seeds[i];
		free(sr.seeds);
	}
	__real_free(dg.head); __real_free(dg.tail_ptr);
	return ec;
}
static const VfInternal IN = { i_matrix, i_rows, i_max, i_nn, i_seeds };
const VfInternal* vf_internal(void) { return &IN; }
