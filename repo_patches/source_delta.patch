From 0620c9e39dee75a54c8a8b826e50101e77a49701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 01/15] fix: count the first cluster when sizing hierarchical
 work areas

iscc_hi_init_cl_stack left cluster 0 out of the largest-cluster size, so
refining a clustering whose first cluster is the largest wrote past the
end of the edge and distance buffers.
---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..34f5dd6 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From e5de2daba6f7d4406b05df06b06471d083ba1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 02/15] fix: use two different centers when all points of a
 cluster coincide

With only identical points the farthest point can be the point itself.
Hierarchical clustering then moved the same point to both halves,
leaving other points without a label.
---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 34f5dd6..8bab876 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	if (*out_center1 == *out_center2) {
+		// All points coincide, any other point will do as second center
+		*out_center2 = (cl->members[0] == *out_center1) ? cl->members[1] : cl->members[0];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From 3052746029d3cc71a1e0b08b24a32c3547665aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 03/15] fix: handle type constraints that are all zero

With no type required, iscc_get_nng_with_type_constraint took the union
of zero digraphs, which reads uninitialised memory. Only the size
constraint is binding then, so use the size constrained NNG.
---
 src/nng_core.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..22a093c 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -250,6 +250,23 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 		return ec;
 	}
 
+	if (tc.sum_type_constraints == 0) {
+		// No type is required, so only the size constraint is binding
+		free(seedable);
+		free(nng_by_type);
+		free(tc.type_group_size);
+		free(tc.point_store);
+		free(tc.type_groups);
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	uint_fast16_t num_non_zero_type_constraints = 0;
 	for (uint_fast16_t i = 0; i < num_types; ++i) {
 		if (type_constraints[i] > 0) {
-- 
2.43.0


From a7f402519687dab5e09935ef205fa1c71795c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 04/15] fix: respect the primary radius with
 SCC_UM_CLOSEST_ASSIGNED

The shortcut that assigns points by the NNG only knows the seed radius.
Without type constraints, points were assigned beyond the primary radius
whenever it was smaller than the seed radius (or there was no seed
radius).
---
 src/nng_clustering.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..fe632df 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -212,6 +212,11 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	assert((primary_radius == SCC_RM_NO_RADIUS) || (primary_radius == SCC_RM_USE_SUPPLIED));
 	assert((secondary_radius == SCC_RM_NO_RADIUS) || (secondary_radius == SCC_RM_USE_SUPPLIED));
 
+	// The NNG is built with the seed radius. `SCC_UM_CLOSEST_ASSIGNED` can
+	// use it only if all its arcs are within the primary radius as well.
+	const bool nng_within_primary_radius = (primary_radius == SCC_RM_NO_RADIUS) ||
+	        ((options->seed_radius == SCC_RM_USE_SUPPLIED) && (options->seed_supplied_radius <= primary_supplied_radius));
+
 	// Initialize cluster labels
 	if (clustering->cluster_label == NULL) {
 		clustering->external_labels = false;
@@ -226,7 +231,7 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       data_set,
 	                                       &seed_result,
 	                                       nng,
-	                                       (options->num_types < 2),
+	                                       (options->num_types < 2) && nng_within_primary_radius,
 	                                       options->primary_unassigned_method,
 	                                       (primary_radius == SCC_RM_USE_SUPPLIED),
 	                                       primary_supplied_radius,
-- 
2.43.0


From 464e5e6a290075efe36b2ae3abc7f69834352ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:21 +0000
Subject: [PATCH 05/15] fix: short data matrix accepted when points times
 dimensions overflows

---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..53af849 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if (num_data_points > len_data_matrix / num_dimensions) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From 391d75a6b939fe3954ef342dc87282cd0ca75b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:21 +0000
Subject: [PATCH 06/15] fix: stack size overflow when refining a clustering
 with a huge number of clusters

---
 src/hierarchical_clustering.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 8bab876..d0faa6e 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -201,7 +201,7 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 
 	scc_ErrorCode ec;
 	size_t size_largest_cluster = 0; // Initialize to avoid gcc warning
-	iscc_hi_ClusterStack cl_stack;
+	iscc_hi_ClusterStack cl_stack = { 0, 0, NULL, NULL }; // Initialize to avoid gcc warning
 	if (out_clustering->num_clusters == 0) {
 		if (out_clustering->cluster_label == NULL) {
 			out_clustering->external_labels = false;
@@ -310,10 +310,11 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 	assert(out_cl_stack != NULL);
 	assert(out_size_largest_cluster != NULL);
 
-	const uint64_t tmp_capacity = in_cl->num_clusters + 1 + ((uint64_t) (10 * log2((double) in_cl->num_data_points)));
-	if (tmp_capacity > SIZE_MAX) {
+	const uint64_t extra_capacity = 1 + ((uint64_t) (10 * log2((double) in_cl->num_data_points)));
+	if (in_cl->num_clusters > SIZE_MAX - extra_capacity) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many clusters.");
 	}
+	const uint64_t tmp_capacity = in_cl->num_clusters + extra_capacity;
 	*out_cl_stack = (iscc_hi_ClusterStack) {
 		.capacity = (size_t) tmp_capacity,
 		.items = in_cl->num_clusters,
-- 
2.43.0


From aa38187bbdbeb05dfc4eb47e8e7d29f5cc6503af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:34 +0000
Subject: [PATCH 07/15] fix: table size overflow when checking a clustering
 with a huge number of clusters

---
 src/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..4b4cf56 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -138,7 +138,7 @@ scc_ErrorCode scc_check_clustering(const scc_Clustering* const clustering,
 
 	} else { // num_types >= 2
 
-		size_t* const cluster_type_sizes = calloc(num_types * clustering->num_clusters, sizeof(size_t));
+		size_t* const cluster_type_sizes = calloc(clustering->num_clusters, num_types * sizeof(size_t));
 		if (cluster_type_sizes == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 		for (size_t i = 0; i < clustering->num_data_points; ++i) {
-- 
2.43.0


From eacab2d36a9d9341851bdefad46a1beceb4bb909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 08/15] fix: return on allocation failure when finding seeds by
 exclusion

The error was made but not returned, so freed memory was written. The index
array also leaked when the exclusion graph could not be made.
---
 src/nng_findseeds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From 981f069055ea77584715b8ffd49f18330bec1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 09/15] fix: report allocation failure when assigning by
 nearest neighbor graph

The error code was taken for the number of assigned points.
---
 src/nng_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 22a093c..8134f64 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -499,7 +499,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -980,7 +985,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX;
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From 708a88177d5c5b0750cc9fc944f7136cc4ebe3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 10/15] fix: check allocation of search result when assigning
 leftover points

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 8134f64..8777f3b 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1032,6 +1032,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From 55b30a4c6dd83d1efcbc8e0d2893c21effbc5a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 11/15] fix: check allocation of primary data point markers in
 batch clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..31fd76a 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From a15cdee08d826f076e7c060c2e543cbfb3b0457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:09 +0000
Subject: [PATCH 12/15] fix: overflow in size of search result in batch
 clustering

The product of two `uint32_t` wrapped around, making the buffer too small.
---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 31fd76a..2037996 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[(size_t) size_constraint * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 41a565da3e5e9f4afcd385ba06327d6bf93d26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 13/15] fix: report failed secondary assignment

An error in the assignment of the secondary unassigned points was dropped.
---
 src/nng_core.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index 8777f3b..f809595 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -652,6 +652,8 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
+	if (ec != SCC_ER_OK) return ec;
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From 6483a858339af4064571b6dbbbe746924c835986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 14/15] fix: keep clustering empty when assignment of leftover
 points fails

The number of clusters was already set, so the incomplete labels looked like
a clustering and a new attempt was refused.
---
 src/nng_clustering.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index fe632df..5a13f13 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -241,6 +241,9 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       (secondary_radius == SCC_RM_USE_SUPPLIED),
 	                                       secondary_supplied_radius);
 
+	// Labels are incomplete on error, so the clustering is still empty
+	if (ec != SCC_ER_OK) clustering->num_clusters = 0;
+
 	free(seed_result.seeds);
 	return ec;
 }
-- 
2.43.0


From 33819fe4ccc4606e5d9e2e6d7c3a38caf158bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 15/15] fix: restore labels when refinement of existing
 clustering fails

Labels of already finished clusters were overwritten while the number of
clusters was kept, leaving an inconsistent clustering.
---
 src/hierarchical_clustering.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index d0faa6e..7e85005 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -26,6 +26,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 #include "dist_search.h"
 #include "clustering_struct.h"
 #include "error.h"
@@ -240,6 +241,17 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		ec = iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 
+	// Keep existing labels so they can be restored on error
+	scc_Clabel* old_labels = NULL;
+	if ((ec == SCC_ER_OK) && (out_clustering->num_clusters != 0)) {
+		old_labels = malloc(sizeof(scc_Clabel[out_clustering->num_data_points]));
+		if (old_labels == NULL) {
+			ec = iscc_make_error(SCC_ER_NO_MEMORY);
+		} else {
+			memcpy(old_labels, out_clustering->cluster_label, sizeof(scc_Clabel[out_clustering->num_data_points]));
+		}
+	}
+
 	if (ec == SCC_ER_OK) {
 		ec = iscc_hi_run_hierarchical_clustering(&cl_stack,
 		                                         out_clustering,
@@ -247,8 +259,13 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		                                         &work_area,
 		                                         size_constraint,
 		                                         batch_assign);
+		if ((ec != SCC_ER_OK) && (old_labels != NULL)) {
+			memcpy(out_clustering->cluster_label, old_labels, sizeof(scc_Clabel[out_clustering->num_data_points]));
+		}
 	}
 
+	free(old_labels);
+
 	free(work_area.pointindex_array1);
 	free(work_area.pointindex_array2);
 	free(work_area.dist_array);
-- 
2.43.0

