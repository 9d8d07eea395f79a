/* Canonical, type-independent view of one configuration of the library.
 * One shared object per configuration implements it (shim.cpp + alloc_wrap.c
 * + shim_internal.c + the library built from /repo). */
#ifndef VF_API_H
#define VF_API_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define VF_NA INT64_MIN

enum { EC_OK, EC_UNKNOWN, EC_INVALID, EC_NOMEM, EC_NOSOL, EC_TOOLARGE, EC_DIST, EC_NOTIMPL };
enum { SM_LEXICAL, SM_BATCHES, SM_IN_ORDER, SM_IN_UPD, SM_EX_ORDER, SM_EX_UPD };
enum { UM_IGNORE, UM_ANY, UM_CASSIGNED, UM_CSEED };
enum { RM_NO, RM_SUPPLIED, RM_SEED, RM_EST };

typedef struct VfOptions {
	int32_t options_version;
	uint32_t size_constraint;
	uint32_t num_types;
	const uint32_t* type_constraints; /* may be NULL */
	size_t len_type_constraints;      /* elements behind type_constraints */
	size_t len_type_labels;           /* passed on */
	const int64_t* type_labels;       /* may be NULL */
	size_t cnt_type_labels;           /* elements behind type_labels */
	int seed_method;
	size_t len_primary;               /* passed on */
	const int64_t* primary;           /* may be NULL */
	size_t cnt_primary;               /* elements behind primary */
	int pum, sum;
	int seed_radius; double seed_r;
	int prim_radius; double prim_r;
	int sec_radius; double sec_r;
	uint32_t batch_size;
} VfOptions;

typedef struct VfStats {
	uint64_t num_data_points, num_assigned, num_clusters, num_populated_clusters, min_cluster_size, max_cluster_size;
	double avg_cluster_size, sum_dists, min_dist, max_dist, avg_min_dist, avg_max_dist, avg_dist_weighted, avg_dist_unweighted;
} VfStats;

/* ---- user-supplied distance back end, implemented in the shim ---- */
enum { CB_CHECK, CB_NUM, CB_MATRIX, CB_ROWS, CB_MD_INIT, CB_MD_GET, CB_MD_CLOSE, CB_NN_INIT, CB_NN_SEARCH, CB_NN_CLOSE, CB_COUNT };
typedef struct VfBackend {
	uint64_t n; uint32_t dim; const double* data;
	int metric;      /* 0 Euclid, 1 L1, 2 Linf */
	int tie;         /* 0 lowest position first, 1 highest first, 2 hashed */
	int64_t fail_at; /* index of the data-carrying callback that fails (-1: never) */
	int fail_from;   /* all callbacks from fail_at on fail */
	int fail_kind;   /* >=0: count only callbacks of this kind */
	int scribble;    /* a failing callback leaves junk in its outputs */
	int line;        /* data are one-dimensional and increasing: answer searches without scanning */
	uint64_t fake_n; /* if nonzero: reported number of points */
	/* results */
	int64_t calls;           /* number of counted callbacks */
	int64_t per_kind[CB_COUNT];
	int failed_kind;         /* kind of first failed callback or -1 */
	unsigned failed_mask;    /* kinds that failed */
	int64_t open_objects;
	int contract_broken;
	char contract_msg[256];
} VfBackend;

typedef struct VfInternal {
	/* all -1 / NULL when the internal entry points could not be built */
	int (*dist_matrix)(void* ds, size_t n, const int64_t* idx, double* out, int* ret);
	int (*dist_rows)(void* ds, size_t nq, const int64_t* q, size_t nc, const int64_t* c, double* out, int* ret);
	int (*max_dist)(void* ds, size_t ns, const int64_t* s, size_t nq, const int64_t* q, int64_t* out_idx, double* out_d, int* ret);
	int (*nn_search)(void* ds, size_t ns, const int64_t* s, size_t nq, const int64_t* q, uint32_t k, int radius_search, double radius,
	                 int give_out, int in_place, size_t* out_ok, int64_t* out_q, int64_t* out_nn, int* ret);
	int (*find_seeds)(size_t vertices, const uint64_t* tail_ptr, const int64_t* head, int method, size_t capacity,
	                  size_t* out_count, int64_t* out_seeds, size_t max_out);
} VfInternal;

typedef struct VfApi {
	const char* name;
	int clabel_bits, clabel_signed; int pi_bits, pi_signed; int tl_bits, tl_signed;
	uint64_t clabel_max, pointindex_max, arc_max;
	int64_t na_raw; /* raw NA value cast to int64 */
	int asserts;
	void (*version)(uint32_t*, uint32_t*, uint32_t*);
	int (*latest_error)(size_t, char*);
	int (*init_data_set)(uint64_t n, uint32_t d, size_t len, const double* m, void** out);
	void (*free_data_set)(void**);
	int (*is_data_set)(const void*);
	/* typed label buffers (exact size heap blocks) */
	void* (*lb_new)(size_t n);
	void (*lb_set)(void*, size_t, int64_t);
	int64_t (*lb_get)(const void*, size_t);
	void (*lb_free)(void*);
	int (*init_empty)(uint64_t n, void* lb, void** out);
	int (*init_existing)(uint64_t n, uint64_t k, void* lb, int deep, void** out);
	void (*free_cl)(void**);
	int (*is_cl)(const void*);
	int (*copy_cl)(const void*, void**);
	int (*info)(const void*, uint64_t*, uint64_t*);
	int (*get_labels)(const void*, size_t len, int64_t* out); /* goes through an exact-size typed buffer */
	void (*default_options)(VfOptions*);
	/* *mutated is set if options or an array behind them changed */
	int (*sc)(void* ds, const VfOptions*, void* cl, int* mutated);
	int (*hier)(void* ds, uint32_t size, int batch, void* cl);
	int (*check)(const void* cl, const VfOptions*, int* ok, int null_out);
	int (*stats)(void* ds, const void* cl, VfStats* out);
	/* allocation control */
	void (*alloc_reset)(int fill, int64_t fail_at, int fail_from); /* resets the counter; fill<0: no fill */
	int64_t (*alloc_count)(void);
	int64_t (*alloc_live)(void);
	int64_t (*alloc_failed)(void);
	void (*alloc_limit)(uint64_t max_single);
	void (*alloc_reuse)(int on); // freed blocks are handed out again at once
	/* distance functions */
	int (*reset_dist)(void);
	int (*install)(VfBackend*, void* handle, unsigned mask); /* mask bit per CB_*; handle: opaque data set pointer */
	void (*uninstall)(void);
	int (*set_ann)(void); /* the ANN search functions of the examples; NULL if they could not be built */
	int64_t (*ann_arrays)(void); /* arrays they hold */
	void* (*zone)(void); /* an address that cannot be read or written */
	const VfInternal* in;
} VfApi;

const VfApi* vf_get_api(void);

#ifdef __cplusplus
}
#endif
#endif
