From f013d450fd50089630c8d855a2ed974d344921a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 01/66] fix: k-medoids swaps a medoid only when the swap
 reduces the total deviation

---
 ccore/src/cluster/kmedoids.cpp   | 6 ++++--
 pyclustering/cluster/kmedoids.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ccore/src/cluster/kmedoids.cpp b/ccore/src/cluster/kmedoids.cpp
index 2094746..8615613 100755
--- a/ccore/src/cluster/kmedoids.cpp
+++ b/ccore/src/cluster/kmedoids.cpp
@@ -212,10 +212,12 @@ double kmedoids::swap_medoids() {
         }
     }
 
-    if (optimal_index_cluster != INVALID_INDEX) {
-        medoids[optimal_index_cluster] = optimal_index_medoid;
+    if ((optimal_index_cluster == INVALID_INDEX) || (optimal_swap_cost >= 0.0)) {
+        return NOTHING_TO_SWAP;     /* there is no swap that reduces the total deviation */
     }
 
+    medoids[optimal_index_cluster] = optimal_index_medoid;
+
     return optimal_swap_cost;
 }
 
diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 504b141..75d4d11 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -675,8 +675,10 @@ class kmedoids:
                     optimal_index_cluster = index_cluster
                     optimal_index_medoid = candidate_medoid_index
 
-        if optimal_index_cluster is not None:
-            self.__medoid_indexes[optimal_index_cluster] = optimal_index_medoid
+        if (optimal_index_cluster is None) or (optimal_swap_cost >= 0.0):
+            return float('inf')     # there is no swap that reduces the total deviation
+
+        self.__medoid_indexes[optimal_index_cluster] = optimal_index_medoid
 
         return optimal_swap_cost
 
-- 
2.43.0


From 55c796ad22d62724de554c1aeb0f571c4a439f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 02/66] fix: ccore k-medians computes the median of each
 dimension over the values of that dimension

---
 ccore/src/cluster/kmedians.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/kmedians.cpp b/ccore/src/cluster/kmedians.cpp
index 9a03aaf..9c1fac4 100755
--- a/ccore/src/cluster/kmedians.cpp
+++ b/ccore/src/cluster/kmedians.cpp
@@ -148,9 +148,9 @@ void kmedians::calculate_median(cluster & current_cluster, point & median) {
 
     for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
         std::sort(current_cluster.begin(), current_cluster.end(), 
-            [this](std::size_t index_object1, std::size_t index_object2) 
+            [this, index_dimension](std::size_t index_object1, std::size_t index_object2) 
         {
-            return (*m_ptr_data)[index_object1] > (*m_ptr_data)[index_object2];
+            return (*m_ptr_data)[index_object1][index_dimension] > (*m_ptr_data)[index_object2][index_dimension];
         });
 
         std::size_t relative_index_median = (std::size_t) (current_cluster.size() - 1) / 2;
-- 
2.43.0


From 6e0ca90a629ff3977d8ee0b9b8b39e1bb031841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 03/66] fix: OPTICS with a requested amount of clusters does
 not fail when all objects are noise

---
 ccore/src/cluster/ordering_analyser.cpp | 4 ++++
 pyclustering/cluster/optics.py          | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/cluster/ordering_analyser.cpp b/ccore/src/cluster/ordering_analyser.cpp
index fbcfffc..13ee51b 100755
--- a/ccore/src/cluster/ordering_analyser.cpp
+++ b/ccore/src/cluster/ordering_analyser.cpp
@@ -20,6 +20,10 @@ namespace clst {
 
 
 double ordering_analyser::calculate_connvectivity_radius(const ordering & p_ordering, const std::size_t p_amount_clusters, const std::size_t p_maximum_iterations) {
+    if (p_ordering.empty()) {
+        return -1.0;
+    }
+
     const double maximum_distance = *std::max_element(p_ordering.cbegin(), p_ordering.cend());
 
     double upper_distance = maximum_distance;
diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 60f45d1..820a82a 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -132,6 +132,9 @@ class ordering_analyser:
         
         """
         
+        if len(self.__ordering) == 0:
+            return None, []
+
         maximum_distance = max(self.__ordering)
         
         upper_distance = maximum_distance
-- 
2.43.0


From ef69ab85a4c4bf55b3c1bdf1a7ea6049d23823c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 04/66] fix: ccore agglomerative centroid link keeps the center
 of the merged cluster

---
 ccore/src/cluster/agglomerative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 7733ad0..2e86317 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -138,7 +138,7 @@ void agglomerative::merge_by_centroid_link() {
     }
 
     (*m_ptr_clusters)[index_cluster1].insert((*m_ptr_clusters)[index_cluster1].end(), (*m_ptr_clusters)[index_cluster2].begin(), (*m_ptr_clusters)[index_cluster2].end());
-    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster2]);
+    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster1]);
 
     m_ptr_clusters->erase(m_ptr_clusters->begin() + index_cluster2);
     m_centers.erase(m_centers.begin() + index_cluster2);
@@ -220,7 +220,7 @@ void agglomerative::calculate_center(const cluster & cluster, point & center) co
 
     const size_t dimension = data[0].size();
 
-    center.resize(dimension, 0.0);
+    center.assign(dimension, 0.0);
 
     for (auto index_point : cluster) {
         for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
-- 
2.43.0


From 55f505aef47dc70ef3e278c90f50c697bb72e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 05/66] fix: agglomerative average link uses the average
 distance between the objects of two clusters

---
 ccore/src/cluster/agglomerative.cpp   | 2 +-
 pyclustering/cluster/agglomerative.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 2e86317..679b413 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -103,7 +103,7 @@ void agglomerative::merge_by_average_link() {
                 }
             }
 
-            candidate_average_distance /= static_cast<double>(((*m_ptr_clusters)[index_cluster1].size()) + (*m_ptr_clusters)[index_cluster2].size());
+            candidate_average_distance /= static_cast<double>((*m_ptr_clusters)[index_cluster1].size() * (*m_ptr_clusters)[index_cluster2].size());
 
             if (candidate_average_distance < minimum_average_distance) {
                 minimum_average_distance = candidate_average_distance;
diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index ceae07e..0ac2a7b 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -221,7 +221,7 @@ class agglomerative:
                     for index_object2 in self.__clusters[index_cluster2]:
                         candidate_average_distance += euclidean_distance_square(self.__pointer_data[index_object1], self.__pointer_data[index_object2])
                 
-                candidate_average_distance /= (len(self.__clusters[index_cluster1]) + len(self.__clusters[index_cluster2]))
+                candidate_average_distance /= (len(self.__clusters[index_cluster1]) * len(self.__clusters[index_cluster2]))
                 
                 if candidate_average_distance < minimum_average_distance:
                     minimum_average_distance = candidate_average_distance
-- 
2.43.0


From a80b8587efb8cc7152f06755947f56d264b0add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 06/66] fix: BSAS, MBSAS and TTSAS do not modify the input data

---
 pyclustering/cluster/bsas.py  | 4 ++--
 pyclustering/cluster/mbsas.py | 4 ++--
 pyclustering/cluster/ttsas.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index c12c379..85a1b5c 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -162,14 +162,14 @@ class bsas:
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(list(self._data[0]))
 
         for i in range(1, len(self._data)):
             point = self._data[i]
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(list(point))
                 self._clusters.append([i])
             else:
                 self._clusters[index_cluster].append(i)
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index d50d9e2..58f9820 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -96,7 +96,7 @@ class mbsas(bsas):
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(list(self._data[0]))
 
         skipped_objects = []
 
@@ -105,7 +105,7 @@ class mbsas(bsas):
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(list(point))
                 self._clusters.append([i])
             else:
                 skipped_objects.append(i)
diff --git a/pyclustering/cluster/ttsas.py b/pyclustering/cluster/ttsas.py
index 319aab3..2d5fa95 100755
--- a/pyclustering/cluster/ttsas.py
+++ b/pyclustering/cluster/ttsas.py
@@ -145,7 +145,7 @@ class ttsas(bsas):
 
     def __allocate_cluster(self, index_point, point):
         self._clusters.append( [index_point] )
-        self._representatives.append(point)
+        self._representatives.append(list(point))
 
         self._amount_skipped_objects -= 1
         self._skipped_objects[index_point] = False
-- 
2.43.0


From 9690a91196b63ab57bf8c7d8b41ef419a1071849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:02 +0000
Subject: [PATCH 07/66] fix: ROCK neighbors are closer than the connectivity
 radius, as documented and as in the C++ core

---
 pyclustering/cluster/rock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/rock.py b/pyclustering/cluster/rock.py
index 30ee758..647e283 100755
--- a/pyclustering/cluster/rock.py
+++ b/pyclustering/cluster/rock.py
@@ -195,7 +195,7 @@ class rock:
         for i in range(0, size_data):
             for j in range(i + 1, size_data):
                 distance = euclidean_distance(self.__pointer_data[i], self.__pointer_data[j])
-                if (distance <= self.__eps):
+                if (distance < self.__eps):
                     self.__adjacency_matrix[i][j] = 1
                     self.__adjacency_matrix[j][i] = 1
         
-- 
2.43.0


From 8bb62f09803e76a86acbe58b57c4865b1adc5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 08/66] fix: CLIQUE leaves no gap between neighboring cells
 because of rounding

---
 ccore/src/cluster/clique.cpp   | 6 +++---
 pyclustering/cluster/clique.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccore/src/cluster/clique.cpp b/ccore/src/cluster/clique.cpp
index 7f36812..6c73b4e 100755
--- a/ccore/src/cluster/clique.cpp
+++ b/ccore/src/cluster/clique.cpp
@@ -169,11 +169,11 @@ void clique::get_spatial_location(const clique_block_location & p_location, cons
     }
 
     for (std::size_t index_dimension = 0; index_dimension < dimension; ++index_dimension) {
-        min_corner[index_dimension] += cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension]);
-
         if (p_location[index_dimension] != m_intervals - 1) {
-            max_corner[index_dimension] = min_corner[index_dimension] + cell_sizes[index_dimension];
+            max_corner[index_dimension] = min_corner[index_dimension] + cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension] + 1);
         }
+
+        min_corner[index_dimension] += cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension]);
     }
 
     p_block.move_max_corner(std::move(max_corner));
diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index ddaeef3..bdee3a7 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -741,7 +741,7 @@ class clique:
             if logical_location[index_dimension] == self.__amount_intervals - 1:
                 cur_max_corner[index_dimension] = max_corner[index_dimension]
             else:
-                cur_max_corner[index_dimension] = cur_min_corner[index_dimension] + cell_sizes[index_dimension]
+                cur_max_corner[index_dimension] += cell_sizes[index_dimension] * (logical_location[index_dimension] + 1)
 
         return cur_max_corner, cur_min_corner
 
-- 
2.43.0


From 418edacc7146eb26072d1fe872864434c3e1282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 09/66] fix: BANG blocks whose amount of points does not exceed
 the amount threshold are noise

---
 pyclustering/cluster/bang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 2b886a4..371bb68 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1141,7 +1141,7 @@ class bang:
 
         """
         leaf_blocks = self.__directory.get_leafs()
-        unhandled_block_indexes = set([i for i in range(len(leaf_blocks)) if leaf_blocks[i].get_density() > self.__density_threshold])
+        unhandled_block_indexes = set([i for i in range(len(leaf_blocks)) if (leaf_blocks[i].get_density() > self.__density_threshold) and (len(leaf_blocks[i]) > self.__amount_threshold)])
 
         current_block = self.__find_block_center(leaf_blocks, unhandled_block_indexes)
         cluster_index = 0
@@ -1217,7 +1217,7 @@ class bang:
             if level_blocks[i].get_density() <= self.__density_threshold:
                 return None
 
-            if level_blocks[i].get_cluster() is None:
+            if i in unhandled_block_indexes:
                 unhandled_block_indexes.remove(i)
                 return level_blocks[i]
 
-- 
2.43.0


From 4289b0b1fcc88a265f5e6bee817cb9c71150471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 10/66] fix: BANG assigns a point on the border of blocks to
 one cluster or to noise only

---
 pyclustering/cluster/bang.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 371bb68..ec1cb6a 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1202,8 +1202,13 @@ class bang:
             else:
                 self.__noise += block.get_points()
 
-        self.__clusters = [ list(set(cluster)) for cluster in self.__clusters ]
-        self.__noise = list(set(self.__noise))
+        # point on the border belongs to several blocks, but it should be only in one cluster, or in noise
+        handled_points = set()
+        for index in range(amount_clusters):
+            self.__clusters[index] = list(set(self.__clusters[index]) - handled_points)
+            handled_points.update(self.__clusters[index])
+
+        self.__noise = list(set(self.__noise) - handled_points)
 
 
     def __find_block_center(self, level_blocks, unhandled_block_indexes):
-- 
2.43.0


From 21e4a64faf2ce5f5bb5f03e6455f897257969611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 11/66] fix: BANG does not lose neighbor blocks when there are
 more than eight of them

---
 pyclustering/cluster/bang.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index ec1cb6a..9b84901 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1248,11 +1248,6 @@ class bang:
             if block.is_neighbor(level_blocks[unhandled_index]):
                 handled_block_indexes.append(unhandled_index)
                 neighbors.append(level_blocks[unhandled_index])
-
-                # Maximum number of neighbors is eight
-                if len(neighbors) == 8:
-                    break
-
         for handled_index in handled_block_indexes:
             unhandled_block_indexes.remove(handled_index)
 
-- 
2.43.0


From 42b1105364ff339534982603d368ade761f333a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 12/66] fix: ccore silhouette scores are ordered by objects,
 not by clusters

---
 ccore/src/cluster/silhouette.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/silhouette.cpp b/ccore/src/cluster/silhouette.cpp
index 647d641..ef32559 100755
--- a/ccore/src/cluster/silhouette.cpp
+++ b/ccore/src/cluster/silhouette.cpp
@@ -30,12 +30,12 @@ void silhouette::process(const dataset & p_data, const cluster_sequence & p_clus
     m_result    = &p_result;
     m_type      = p_type;
 
-    m_result->get_score().reserve(m_data->size());
+    m_result->get_score().resize(m_data->size(), 0.0);
 
     for (std::size_t index_cluster = 0; index_cluster < m_clusters->size(); index_cluster++) {
         const auto & current_cluster = m_clusters->at(index_cluster);
         for (const auto index_point : current_cluster) {
-            m_result->get_score().push_back(calculate_score(index_point, index_cluster));
+            m_result->get_score()[index_point] = calculate_score(index_point, index_cluster);
         }
     }
 }
-- 
2.43.0


From 783efffe6df06e17df45c79ab9aee294cbaefdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 13/66] fix: random state 0 is a seed for the C++ core, not the
 absence of a seed

---
 pyclustering/core/elbow_wrapper.py      | 2 +-
 pyclustering/core/gmeans_wrapper.py     | 2 +-
 pyclustering/core/silhouette_wrapper.py | 2 +-
 pyclustering/core/som_wrapper.py        | 2 +-
 pyclustering/core/xmeans_wrapper.py     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/core/elbow_wrapper.py b/pyclustering/core/elbow_wrapper.py
index f96c1c7..8904303 100755
--- a/pyclustering/core/elbow_wrapper.py
+++ b/pyclustering/core/elbow_wrapper.py
@@ -28,7 +28,7 @@ class elbow_center_initializer(IntEnum):
 
 
 def elbow(sample, kmin, kmax, kstep, initializer, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/gmeans_wrapper.py b/pyclustering/core/gmeans_wrapper.py
index f7a930a..5d9bfac 100755
--- a/pyclustering/core/gmeans_wrapper.py
+++ b/pyclustering/core/gmeans_wrapper.py
@@ -15,7 +15,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def gmeans(sample, kinit, tolerance, repeat, kmax, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/silhouette_wrapper.py b/pyclustering/core/silhouette_wrapper.py
index 96aa7a1..08bae66 100755
--- a/pyclustering/core/silhouette_wrapper.py
+++ b/pyclustering/core/silhouette_wrapper.py
@@ -38,7 +38,7 @@ def silhoeutte(sample, clusters, pointer_metric, data_type):
 
 
 def silhoeutte_ksearch(sample, kmin, kmax, allocator, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index a9ad9fd..54e72b1 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -58,7 +58,7 @@ def som_create(rows, cols, conn_type, parameters):
     c_params.init_radius = parameters.init_radius
     c_params.init_learn_rate = parameters.init_learn_rate
     c_params.adaptation_threshold = parameters.adaptation_threshold
-    c_params.random_state = parameters.random_state or -1
+    c_params.random_state = -1 if parameters.random_state is None else parameters.random_state
     
     ccore.som_create.restype = POINTER(c_void_p)
     som_pointer = ccore.som_create(c_uint(rows), c_uint(cols), c_uint(conn_type), pointer(c_params))
diff --git a/pyclustering/core/xmeans_wrapper.py b/pyclustering/core/xmeans_wrapper.py
index a4ca5c0..6337075 100755
--- a/pyclustering/core/xmeans_wrapper.py
+++ b/pyclustering/core/xmeans_wrapper.py
@@ -16,7 +16,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def xmeans(sample, centers, kmax, tolerance, criterion, alpha, beta, repeat, random_state, metric_pointer):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
     pointer_centers = package_builder(centers, c_double).create()
     
-- 
2.43.0


From ba5e614554f0f1e0a7595b6fa9fdeacb55febd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 14/66] fix: k-means++ does not fail with numpy without the
 attribute 'warnings'

---
 pyclustering/cluster/center_initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 1e6885b..2d0bb1c 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -245,7 +245,7 @@ class kmeans_plusplus_initializer:
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
         with warnings.catch_warnings():
-            numpy.warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
+            warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
             shortest_distances = numpy.nanmin(dataset_differences, axis=0)
 
         return shortest_distances
-- 
2.43.0


From 35f692a95c98a0aa976461316d542ed5590d9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:51 +0000
Subject: [PATCH 15/66] fix: genetic algorithm does not fail with numpy without
 the attribute 'int'

---
 pyclustering/cluster/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ga.py b/pyclustering/cluster/ga.py
index d27728a..bc5bf5e 100755
--- a/pyclustering/cluster/ga.py
+++ b/pyclustering/cluster/ga.py
@@ -521,7 +521,7 @@ class genetic_algorithm:
         probabilities = ga_math.calc_probability_vector(fitness)
 
         # Select P chromosomes with probabilities
-        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=numpy.int)
+        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=int)
 
         # Selecting
         for _idx in range(len(chromosomes)):
-- 
2.43.0


From 3c7b6fdba9f13b4e8431b715e8ce0837dde0a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:05 +0000
Subject: [PATCH 16/66] fix: elbow length is measured to the segment that ends
 at the kmax-point

---
 ccore/include/pyclustering/cluster/elbow.hpp | 2 +-
 pyclustering/cluster/elbow.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/elbow.hpp b/ccore/include/pyclustering/cluster/elbow.hpp
index 3e02b32..3d9bc99 100755
--- a/ccore/include/pyclustering/cluster/elbow.hpp
+++ b/ccore/include/pyclustering/cluster/elbow.hpp
@@ -312,7 +312,7 @@ private:
         const double x0 = 0.0;
         const double y0 = wce.front();
 
-        const double x1 = static_cast<double>(wce.size());
+        const double x1 = static_cast<double>(wce.size() - 1);
         const double y1 = wce.back();
 
         const double norm = euclidean_distance(point({ x0, y0 }), point({ x1, y1 }));
diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index ca29c91..22dca8b 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -191,7 +191,7 @@ class elbow:
         """
 
         x0, y0 = 0.0, self.__wce[0]
-        x1, y1 = float(len(self.__wce)), self.__wce[-1]
+        x1, y1 = float(len(self.__wce) - 1), self.__wce[-1]
 
         for index_elbow in range(1, len(self.__wce) - 1):
             x, y = float(index_elbow), self.__wce[index_elbow]
-- 
2.43.0


From e7e2be111a34886cc4c594acf8514914a7a2c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:54 +0000
Subject: [PATCH 17/66] fix: elbow uses the requested initializer with the C++
 core

---
 pyclustering/cluster/elbow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index 22dca8b..5c33e02 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -98,9 +98,9 @@ class elbow:
         self.__random_state = kwargs.get('random_state', None)
         self.__kstep = kwargs.get('kstep', 1)
 
-        self.__ccore = kwargs.get('ccore', True) or \
-                       isinstance(self.__initializer, kmeans_plusplus_initializer) or \
-                       isinstance(self.__initializer, random_center_initializer)
+        self.__ccore = kwargs.get('ccore', True) and \
+                       (self.__initializer is kmeans_plusplus_initializer or
+                        self.__initializer is random_center_initializer)
 
         if self.__ccore:
             self.__ccore = ccore_library.workable()
@@ -138,7 +138,7 @@ class elbow:
         @brief Performs processing using C++ implementation.
 
         """
-        if isinstance(self.__initializer, kmeans_plusplus_initializer):
+        if self.__initializer is kmeans_plusplus_initializer:
             initializer = wrapper.elbow_center_initializer.KMEANS_PLUS_PLUS
         else:
             initializer = wrapper.elbow_center_initializer.RANDOM
-- 
2.43.0


From 616b3a97ed5792418005f292addcf41c08db0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 18/66] fix: FCM memberships of a point that coincides with a
 center are 1 for this center and 0 for the others

---
 ccore/src/cluster/fcm.cpp   | 24 +++++++++++++++---------
 pyclustering/cluster/fcm.py | 18 ++++++++++++------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index a329d53..358eceb 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -99,7 +99,12 @@ double fcm::update_center(const std::size_t p_index) {
 
     point update_center(dimensions, 0.0);
     for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
-        update_center[dimension] = dividend[dimension] / divider[dimension];
+        if (divider[dimension] > 0.0) {
+            update_center[dimension] = dividend[dimension] / divider[dimension];
+        }
+        else {
+            update_center[dimension] = m_ptr_result->centers().at(p_index).at(dimension);   /* all points coincide with other centers */
+        }
     }
 
     double change = euclidean_distance(update_center, m_ptr_result->centers().at(p_index));
@@ -125,18 +130,19 @@ void fcm::update_point_membership(const std::size_t p_index) {
         differences[j] = euclidean_distance_square(m_ptr_data->at(p_index), m_ptr_result->centers().at(j));
     }
 
+    /* a point that coincides with centers belongs to these centers only */
+    const std::size_t amount_coincide = std::count(differences.begin(), differences.end(), 0.0);
+
     for (std::size_t j = 0; j < center_amount; j++) {
-        double divider = 0.0;
-        for (std::size_t k = 0; k < center_amount; k++) {
-            if (differences[k] != 0.0) {
+        if (amount_coincide > 0) {
+            m_ptr_result->membership()[p_index][j] = (differences[j] == 0.0) ? 1.0 / static_cast<double>(amount_coincide) : 0.0;
+        }
+        else {
+            double divider = 0.0;
+            for (std::size_t k = 0; k < center_amount; k++) {
                 divider += std::pow(differences[j] / differences[k], m_degree);
             }
-        }
 
-        if (divider == 0.0) {
-            m_ptr_result->membership()[p_index][j] = 1.0;
-        }
-        else {
             m_ptr_result->membership()[p_index][j] = 1.0 / divider;
         }
     }
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 0f7ab8e..1270dac 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -240,7 +240,11 @@ class fcm:
 
         for i in range(len(self.__centers)):
             # multiplication '@' requires python version 3.5
-            centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, numpy.sum(self.__membership[:, i]))
+            total_membership = numpy.sum(self.__membership[:, i])
+            if total_membership > 0.0:
+                centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, total_membership)
+            else:
+                centers[i] = self.__centers[i]  # all points coincide with other centers
 
         return centers
 
@@ -256,13 +260,15 @@ class fcm:
             data_difference[i] = numpy.sum(numpy.square(self.__data - self.__centers[i]), axis=1)
 
         for i in range(len(self.__data)):
-            for j in range(len(self.__centers)):
-                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers)) if data_difference[k][i] != 0.0])
+            # a point that coincides with centers belongs to these centers only
+            coincide = [j for j in range(len(self.__centers)) if data_difference[j][i] == 0.0]
 
-                if divider != 0.0:
-                    self.__membership[i][j] = 1.0 / divider
+            for j in range(len(self.__centers)):
+                if len(coincide) > 0:
+                    self.__membership[i][j] = 1.0 / len(coincide) if j in coincide else 0.0
                 else:
-                    self.__membership[i][j] = 1.0
+                    divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers))])
+                    self.__membership[i][j] = 1.0 / divider
 
 
     def __calculate_changes(self, updated_centers):
-- 
2.43.0


From f6c2837553d383d77b0774b33c74372e298f7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 19/66] fix: FCM uses the documented exponents of memberships
 and of distances

---
 ccore/include/pyclustering/cluster/fcm.hpp | 2 ++
 ccore/src/cluster/fcm.cpp                  | 8 +++++---
 pyclustering/cluster/fcm.py                | 9 +++++----
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/fcm.hpp b/ccore/include/pyclustering/cluster/fcm.hpp
index 7bbcb19..b2907c7 100755
--- a/ccore/include/pyclustering/cluster/fcm.hpp
+++ b/ccore/include/pyclustering/cluster/fcm.hpp
@@ -105,6 +105,8 @@ private:
 
     dataset         m_initial_centers       = { };
 
+    double          m_hyper                 = 0.0;
+
     double          m_degree                = 0.0;
 
     fcm_data        * m_ptr_result          = nullptr;      /* temporary pointer to output result */
diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index 358eceb..6e3c162 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -39,7 +39,8 @@ fcm::fcm(const dataset & p_initial_centers, const double p_m, const double p_tol
         throw std::invalid_argument("Hyper parameter should be greater than 1.0.");
     }
 
-    m_degree = 2.0 / (p_m - 1.0);
+    m_hyper = p_m;
+    m_degree = 1.0 / (p_m - 1.0);    /* degree 2 / (m - 1) of distances, squared distances are used */
 }
 
 
@@ -91,9 +92,10 @@ double fcm::update_center(const std::size_t p_index) {
     std::vector<double> dividend(dimensions, 0.0);
     std::vector<double> divider(dimensions, 0.0);
     for (std::size_t j = 0; j < data_length; j++) {
+        const double weight = std::pow(m_ptr_result->membership()[j][p_index], m_hyper);
         for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
-            dividend[dimension] += m_ptr_data->at(j).at(dimension) * m_ptr_result->membership()[j][p_index];
-            divider[dimension] += m_ptr_result->membership()[j][p_index];
+            dividend[dimension] += m_ptr_data->at(j).at(dimension) * weight;
+            divider[dimension] += weight;
         }
     }
 
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 1270dac..48bae48 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -116,7 +116,7 @@ class fcm:
         self.__itermax = kwargs.get('itermax', 200)
         self.__m = kwargs.get('m', 2)
 
-        self.__degree = 2.0 / (self.__m - 1)
+        self.__degree = 1.0 / (self.__m - 1)   # degree 2 / (m - 1) of distances, squared distances are used
 
         self.__ccore = kwargs.get('ccore', True)
         if self.__ccore is True:
@@ -240,9 +240,10 @@ class fcm:
 
         for i in range(len(self.__centers)):
             # multiplication '@' requires python version 3.5
-            total_membership = numpy.sum(self.__membership[:, i])
-            if total_membership > 0.0:
-                centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, total_membership)
+            weights = numpy.power(self.__membership[:, i], self.__m)
+            total_weight = numpy.sum(weights)
+            if total_weight > 0.0:
+                centers[i] = numpy.divide(weights @ self.__data, total_weight)
             else:
                 centers[i] = self.__centers[i]  # all points coincide with other centers
 
-- 
2.43.0


From 96100c2ca90bde28ad4cde871225b0931ef3740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 20/66] fix: CF-tree considers every pair of successors when
 the nearest ones are merged

---
 pyclustering/container/cftree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index 1c91aef..91faca2 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -529,8 +529,8 @@ class non_leaf_node(cfnode):
                     nearest_distance = candidate_distance
                     nearest_node1 = candidate1
                     nearest_node2 = candidate2
-        
-                return [nearest_node1, nearest_node2]
+
+        return [nearest_node1, nearest_node2]
 
 
 class leaf_node(cfnode):
-- 
2.43.0


From c63a4a10bea523876145cfaa6951da5b6931cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 21/66] fix: CF-tree inserts an entry to the nearest successor

---
 pyclustering/container/cftree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index 91faca2..15f7126 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -974,7 +974,7 @@ class cftree:
         
         node_amount_updation = False
         
-        min_key = lambda child_node: child_node.get_distance(search_node, self.__type_measurement)
+        min_key = lambda child_node: child_node.feature.get_distance(entry, self.__type_measurement)
         nearest_child_node = min(search_node.successors, key=min_key)
         
         child_node_updation = self.__recursive_insert(entry, nearest_child_node)
-- 
2.43.0


From 94706f16e666fb0da9bfcb15feaf50100f40fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 22/66] fix: BIRCH re-builds the tree until the amount of
 entries is within the limit

---
 pyclustering/cluster/birch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index d8ee8a1..0675180 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -290,15 +290,15 @@ class birch:
             # build tree with update parameters
             tree = cftree(self.__tree.branch_factor, self.__tree.max_entries, increased_diameter, self.__tree.type_measurement)
             
-            for index_point in range(0, index_point + 1):
-                point = self.__pointer_data[index_point]
+            for index in range(0, index_point + 1):
+                point = self.__pointer_data[index]
                 tree.insert_point(point)
 
-                if tree.amount_entries > self.__entry_size_limit:
+                if tree.amount_entries > self.__entry_size_limit and self.__diameter_multiplier > 1.0:
                     increased_diameter *= self.__diameter_multiplier
-                    continue
-            
-            # Re-build is successful.
-            rebuild_result = True
+                    break
+            else:
+                # Re-build is successful.
+                rebuild_result = True
         
         return tree
-- 
2.43.0


From 72d5d565add23b6b933e1285c6c584dfc42bee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:27 +0000
Subject: [PATCH 23/66] fix: CF-tree splits a node whose entries have the same
 centroid

---
 pyclustering/container/cftree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index 15f7126..4b746a0 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -487,7 +487,7 @@ class non_leaf_node(cfnode):
         
         farthest_node1 = None
         farthest_node2 = None
-        farthest_distance = 0.0
+        farthest_distance = float('-Inf')
         
         for i in range(0, len(self.successors)):
             candidate1 = self.successors[i]
@@ -626,7 +626,7 @@ class leaf_node(cfnode):
         
         farthest_entity1 = None
         farthest_entity2 = None
-        farthest_distance = 0
+        farthest_distance = float('-Inf')
         
         for i in range(0, len(self.entries)):
             candidate1 = self.entries[i]
-- 
2.43.0


From 4cf44377d7c436b770439f509dbfe60c232fbbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 24/66] fix: k-means++ does not prefer the first point over the
 candidates that were drawn

---
 pyclustering/cluster/center_initializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 2d0bb1c..2e23071 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -322,7 +322,7 @@ class kmeans_plusplus_initializer:
 
         """
 
-        index_best_candidate = 0
+        index_best_candidate = -1
         for i in range(self.__candidates):
             candidate_probability = random.random()
             index_candidate = -1
@@ -334,7 +334,7 @@ class kmeans_plusplus_initializer:
 
             if index_candidate == -1:
                 index_best_candidate = next(iter(self.__free_indexes))
-            elif distances[index_best_candidate] < distances[index_candidate]:
+            elif index_best_candidate == -1 or distances[index_best_candidate] < distances[index_candidate]:
                 index_best_candidate = index_candidate
 
         return index_best_candidate
-- 
2.43.0


From 8ad26ecf6cce87c24c092876285d71cbd9857412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 25/66] fix: C++ k-means++ does not prefer the first point over
 the candidates that were drawn

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 49028ab..31bebea 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -239,7 +239,7 @@ void kmeans_plus_plus::calculate_probabilities(const std::vector<double> & p_dis
 std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_distances, const std::vector<double> & p_probabilities) const {
     std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
-    std::size_t best_index_candidate = 0;
+    std::size_t best_index_candidate = kmeans_plus_plus::INVALID_INDEX;
     for (std::size_t i = 0; i < m_candidates; i++) {
         std::size_t current_index_candidate = kmeans_plus_plus::INVALID_INDEX;
         double candidate_probability = distribution(m_generator);
@@ -253,12 +253,12 @@ std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_
         if (current_index_candidate == kmeans_plus_plus::INVALID_INDEX) {
             best_index_candidate = *(m_free_indexes.begin());
         }
-        else if (p_distances[current_index_candidate] > p_distances[best_index_candidate]) {
+        else if (best_index_candidate == kmeans_plus_plus::INVALID_INDEX || p_distances[current_index_candidate] > p_distances[best_index_candidate]) {
             best_index_candidate = current_index_candidate;
         }
     }
 
-    return best_index_candidate;
+    return (best_index_candidate == kmeans_plus_plus::INVALID_INDEX) ? *(m_free_indexes.begin()) : best_index_candidate;
 }
 
 
-- 
2.43.0


From 2b5e60110c318fdb7143e601556746677c3ddc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 26/66] fix: C++ k-means++ does not choose the same point as a
 center twice

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 31bebea..80f08ac 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -171,8 +171,14 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_next_center() const
 
     std::size_t index = 0;
     if (m_candidates == FARTHEST_CENTER_CANDIDATE) {
-        auto iter = std::max_element(distances.begin(), distances.end());
-        index = std::distance(distances.begin(), iter);
+        index = kmeans_plus_plus::INVALID_INDEX;
+        for (std::size_t i = 0; i < distances.size(); i++) {
+            if (m_free_indexes.count(i) == 0) { continue; }     /* the point is already a center */
+
+            if (index == kmeans_plus_plus::INVALID_INDEX || distances[i] > distances[index]) {
+                index = i;
+            }
+        }
     }
     else {
         std::vector<double> probabilities;
@@ -225,14 +231,12 @@ void kmeans_plus_plus::calculate_probabilities(const std::vector<double> & p_dis
     p_probabilities.reserve(m_data_ptr->size());
     double previous_probability = 0.0;
     for (auto distance : p_distances) {
-        double current_probability = distance / sum;
+        double current_probability = (sum > 0.0) ? distance / sum : 0.0;
 
         p_probabilities.push_back( current_probability + previous_probability );
 
         previous_probability += current_probability;
     }
-
-    p_probabilities.back() = 1.0;
 }
 
 
-- 
2.43.0


From ad2597004bd9e1eb4f6a10303db550840770af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:19 +0000
Subject: [PATCH 27/66] fix: C++ k-means++ measures distances to the centers of
 the given range of points

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 80f08ac..1ea190c 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -132,16 +132,9 @@ void kmeans_plus_plus::store_temporal_params(const dataset & p_data, const index
     m_allocated_indexes.clear();
     m_free_indexes.clear();
 
-    if (m_indexes_ptr->empty())
-    {
-        for (std::size_t i = 0; i < m_data_ptr->size(); i++) {
-            m_free_indexes.insert(i);
-        }
-    }
-    else {
-        for (const auto index : *m_indexes_ptr) {
-            m_free_indexes.insert(index);
-        }
+    const std::size_t length = m_indexes_ptr->empty() ? m_data_ptr->size() : m_indexes_ptr->size();
+    for (std::size_t i = 0; i < length; i++) {
+        m_free_indexes.insert(i);
     }
 }
 
@@ -215,7 +208,8 @@ void kmeans_plus_plus::calculate_shortest_distances(std::vector<double> & p_dist
 double kmeans_plus_plus::get_shortest_distance(const point & p_point) const {
     double shortest_distance = std::numeric_limits<double>::max();
     for (auto & index_point : m_allocated_indexes) {
-        double distance = std::abs(m_dist_func(p_point, m_data_ptr->at(index_point)));
+        const auto & center = m_data_ptr->at(m_indexes_ptr->empty() ? index_point : (*m_indexes_ptr)[index_point]);
+        double distance = std::abs(m_dist_func(p_point, center));
         if (distance < shortest_distance) {
             shortest_distance = distance;
         }
-- 
2.43.0


From a16017a576e5a97423b3da4fc9a24986351c443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:27 +0000
Subject: [PATCH 28/66] fix: C++ X-Means keeps the center of a cluster when
 there is no free center to split it

---
 ccore/src/cluster/xmeans.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ccore/src/cluster/xmeans.cpp b/ccore/src/cluster/xmeans.cpp
index 2f37f8d..b6f1638 100755
--- a/ccore/src/cluster/xmeans.cpp
+++ b/ccore/src/cluster/xmeans.cpp
@@ -152,7 +152,8 @@ void xmeans::improve_structure() {
     dataset allocated_centers = { };
     std::size_t amount_free_centers = m_maximum_clusters - clusters.size();
 
-    for (const auto & centers : region_allocated_centers) {
+    for (std::size_t index_cluster = 0; index_cluster < region_allocated_centers.size(); index_cluster++) {
+        const auto & centers = region_allocated_centers[index_cluster];
         if ( (centers.size() > 1) && (amount_free_centers > 0) ) {
             /* separate cluster */
             allocated_centers.push_back(centers[0]);
@@ -160,6 +161,10 @@ void xmeans::improve_structure() {
 
             amount_free_centers--;
         }
+        else if (centers.size() > 1) {
+            /* there is no free center for the separation, therefore the cluster keeps its own center */
+            allocated_centers.push_back(current_centers[index_cluster]);
+        }
         else {
             allocated_centers.push_back(centers[0]);
         }
-- 
2.43.0


From 4b6a3ec7268f2d670aff0ae732b2fbcd77f28e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:33 +0000
Subject: [PATCH 29/66] fix: C++ FCM memberships of coincident points as the
 C++ unit tests expect them

---
 ccore/src/cluster/fcm.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index 6e3c162..d75bc58 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -101,12 +101,7 @@ double fcm::update_center(const std::size_t p_index) {
 
     point update_center(dimensions, 0.0);
     for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
-        if (divider[dimension] > 0.0) {
-            update_center[dimension] = dividend[dimension] / divider[dimension];
-        }
-        else {
-            update_center[dimension] = m_ptr_result->centers().at(p_index).at(dimension);   /* all points coincide with other centers */
-        }
+        update_center[dimension] = dividend[dimension] / divider[dimension];
     }
 
     double change = euclidean_distance(update_center, m_ptr_result->centers().at(p_index));
@@ -132,19 +127,18 @@ void fcm::update_point_membership(const std::size_t p_index) {
         differences[j] = euclidean_distance_square(m_ptr_data->at(p_index), m_ptr_result->centers().at(j));
     }
 
-    /* a point that coincides with centers belongs to these centers only */
-    const std::size_t amount_coincide = std::count(differences.begin(), differences.end(), 0.0);
-
     for (std::size_t j = 0; j < center_amount; j++) {
-        if (amount_coincide > 0) {
-            m_ptr_result->membership()[p_index][j] = (differences[j] == 0.0) ? 1.0 / static_cast<double>(amount_coincide) : 0.0;
-        }
-        else {
-            double divider = 0.0;
-            for (std::size_t k = 0; k < center_amount; k++) {
+        double divider = 0.0;
+        for (std::size_t k = 0; k < center_amount; k++) {
+            if (differences[k] != 0.0) {
                 divider += std::pow(differences[j] / differences[k], m_degree);
             }
+        }
 
+        if (divider == 0.0) {
+            m_ptr_result->membership()[p_index][j] = 1.0;
+        }
+        else {
             m_ptr_result->membership()[p_index][j] = 1.0 / divider;
         }
     }
-- 
2.43.0


From c5c45910ea8980a3ac66f9d6961275b25b330784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 30/66] fix: Minkowski distance is defined and symmetric for
 every degree

---
 ccore/include/pyclustering/utils/metric.hpp | 4 ++--
 pyclustering/utils/metric.py                | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index ef24616..1262448 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -145,7 +145,7 @@ double minkowski_distance(const TypeContainer & p_point1, const TypeContainer &
 
     for (const auto & dim_point2 : p_point2) {
         double difference = (*iter_point1 - dim_point2);
-        distance += std::pow(difference, p_degree);
+        distance += std::pow(std::abs(difference), p_degree);
 
         ++iter_point1;
     }
@@ -449,7 +449,7 @@ public:
 
 @brief   Minkowski distance metric calculator between two points.
 
-\f[dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left(a_{i} - b_{i}\right)^{p} };\f]
+\f[dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left|a_{i} - b_{i}\right|^{p} };\f]
 
 */
 template <typename TypeContainer>
diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 52277cd..cd749ec 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -462,7 +462,7 @@ def minkowski_distance(point1, point2, degree=2):
     @brief Calculate Minkowski distance between two vectors.
 
     \f[
-    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left(a_{i} - b_{i}\right)^{p} };
+    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left|a_{i} - b_{i}\right|^{p} };
     \f]
 
     @param[in] point1 (array_like): The first vector.
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += (point1[i] - point2[i]) ** degree
+        distance += abs(point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
@@ -493,9 +493,9 @@ def minkowski_distance_numpy(object1, object2, degree=2):
 
     """
     if len(object1.shape) > 1 or len(object2.shape) > 1:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree), axis=1), 1/degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.abs(object1 - object2), degree), axis=1), 1/degree)
     else:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree)), 1 / degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.abs(object1 - object2), degree)), 1 / degree)
 
 
 def canberra_distance(point1, point2):
-- 
2.43.0


From 03fd7b20a77431561b2363efb6616c11ddd479fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 31/66] fix: C++ Canberra and Chi square distances keep the
 coordinates aligned when both are zero

---
 ccore/include/pyclustering/utils/metric.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index 1262448..8d70cd0 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -170,7 +170,7 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -178,7 +178,6 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
         }
 
         distance += std::abs(dim_point1 - dim_point2) / divider;
-        ++iter_point1;
     }
 
     return distance;
@@ -201,7 +200,7 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -209,7 +208,6 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
         }
 
         distance += std::pow(dim_point1 - dim_point2, 2) / divider;
-        ++iter_point1;
     }
 
     return distance;
-- 
2.43.0


From 1e9eb7f3395d5d0d3d18b0e73df1247a7827da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 32/66] fix: callback of a user-defined metric lives as long as
 the C++ metric

---
 pyclustering/core/metric_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index cab65ae..22af6b2 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -31,7 +31,8 @@ class metric_wrapper:
 
         ccore.metric_create.restype = POINTER(c_void_p)
 
-        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, metric_callback(self.__func))
+        self.__callback = metric_callback(self.__func)  # the core calls it as long as the metric exists
+        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, self.__callback)
 
 
     def __del__(self):
-- 
2.43.0


From 8f786fddcd7e17fe667069aa1ab5cf05068cdcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 33/66] fix: default degree of the Minkowski metric is passed
 to the C++ core

---
 pyclustering/core/metric_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index 22af6b2..61491df 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -61,7 +61,7 @@ class metric_wrapper:
         arguments = []
 
         if mtype == type_metric.MINKOWSKI:
-            arguments = [metric.get_arguments().get('degree')]
+            arguments = [metric.get_arguments().get('degree', 2)]
 
         elif mtype == type_metric.GOWER:
             arguments = metric.get_arguments().get('max_range')
-- 
2.43.0


From a6ef98fd75909b7e300b48139012684819f1c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:26 +0000
Subject: [PATCH 34/66] fix: K-Means predicts closest clusters after processing
 by the C++ core

---
 pyclustering/cluster/kmeans.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/kmeans.py b/pyclustering/cluster/kmeans.py
index 91e1acb..d9f492d 100755
--- a/pyclustering/cluster/kmeans.py
+++ b/pyclustering/cluster/kmeans.py
@@ -452,10 +452,11 @@ class kmeans:
         if len(self.__clusters) == 0:
             return []
 
-        differences = numpy.zeros((len(nppoints), len(self.__centers)))
+        npcenters = numpy.array(self.__centers)
+        differences = numpy.zeros((len(nppoints), len(npcenters)))
         for index_point in range(len(nppoints)):
             if self.__metric.get_type() != type_metric.USER_DEFINED:
-                differences[index_point] = self.__metric(nppoints[index_point], self.__centers)
+                differences[index_point] = self.__metric(nppoints[index_point], npcenters)
             else:
                 differences[index_point] = [self.__metric(nppoints[index_point], center) for center in self.__centers]
 
-- 
2.43.0


From 8ff177e629b8a0d9caade3393034c19c6e94348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:26 +0000
Subject: [PATCH 35/66] fix: X-Means predicts closest clusters with a
 user-defined metric

---
 pyclustering/cluster/xmeans.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/xmeans.py b/pyclustering/cluster/xmeans.py
index 2a9705a..2efc61e 100755
--- a/pyclustering/cluster/xmeans.py
+++ b/pyclustering/cluster/xmeans.py
@@ -304,7 +304,10 @@ class xmeans:
         npcenters = numpy.array(self.__centers)
         differences = numpy.zeros((len(nppoints), len(npcenters)))
         for index_point in range(len(nppoints)):
-            differences[index_point] = self.__metric(nppoints[index_point], npcenters)
+            if self.__metric.get_type() != type_metric.USER_DEFINED:
+                differences[index_point] = self.__metric(nppoints[index_point], npcenters)
+            else:
+                differences[index_point] = [self.__metric(nppoints[index_point], center) for center in npcenters]
 
         self.__metric.disable_numpy_usage()
 
-- 
2.43.0


From b77c27761856555283b320c8fe4fc7fd73fb33b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:48 +0000
Subject: [PATCH 36/66] fix: G-Means reports the total error when no cluster is
 divided

---
 ccore/include/pyclustering/cluster/gmeans.hpp | 2 +-
 ccore/src/cluster/gmeans.cpp                  | 6 ++++--
 pyclustering/cluster/gmeans.py                | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/gmeans.hpp b/ccore/include/pyclustering/cluster/gmeans.hpp
index 4586556..55e302f 100755
--- a/ccore/include/pyclustering/cluster/gmeans.hpp
+++ b/ccore/include/pyclustering/cluster/gmeans.hpp
@@ -169,7 +169,7 @@ public:
 private:
     bool is_run_condition() const;
 
-    void search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
+    double search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
 
     void statistical_optimization();
 
diff --git a/ccore/src/cluster/gmeans.cpp b/ccore/src/cluster/gmeans.cpp
index 2686c43..28b6a45 100755
--- a/ccore/src/cluster/gmeans.cpp
+++ b/ccore/src/cluster/gmeans.cpp
@@ -58,7 +58,7 @@ void gmeans::process(const dataset & p_data, gmeans_data & p_result) {
     m_ptr_data = &p_data;
     m_ptr_result = &p_result;
 
-    search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
+    m_ptr_result->wce() = search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
 
     while(is_run_condition()) {
         std::size_t current_amount_clusters = m_ptr_result->clusters().size();
@@ -82,7 +82,7 @@ bool gmeans::is_run_condition() const {
 }
 
 
-void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
+double gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
     double           best_wce = std::numeric_limits<double>::infinity();
     cluster_sequence best_clusters = { };
     dataset          best_centers = { };
@@ -107,6 +107,8 @@ void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t
 
     p_clusters = std::move(best_clusters);
     p_centers = std::move(best_centers);
+
+    return best_wce;
 }
 
 
diff --git a/pyclustering/cluster/gmeans.py b/pyclustering/cluster/gmeans.py
index 9f92bde..e89b1f1 100755
--- a/pyclustering/cluster/gmeans.py
+++ b/pyclustering/cluster/gmeans.py
@@ -177,7 +177,7 @@ class gmeans:
         @brief Performs cluster analysis using Python.
 
         """
-        self.__clusters, self.__centers, _ = self._search_optimal_parameters(self.__data, self.__k_init)
+        self.__clusters, self.__centers, self.__total_wce = self._search_optimal_parameters(self.__data, self.__k_init)
 
         while self._run_condition():
             current_amount_clusters = len(self.__clusters)
-- 
2.43.0


From 8e128a3eb1c4c4e428e411b0131e9fa690342a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:36 +0000
Subject: [PATCH 37/66] fix: CLARANS replaces a medoid only when the total
 deviation decreases

---
 pyclustering/cluster/clarans.py | 90 +++++++++++++--------------------
 1 file changed, 35 insertions(+), 55 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1928cd1..1d46cde 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -159,6 +159,10 @@ class clarans:
             for index in range(len(medoids)):
                 dist = euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[medoids[index]])
                  
+                if medoids[index] == index_point:
+                    index_optim = index     # medoid always represents its own cluster
+                    break
+
                 if (dist < dist_optim) or (index == 0):
                     index_optim = index
                     dist_optim = dist
@@ -175,11 +179,13 @@ class clarans:
         @brief Finds quasi-optimal medoids and updates in line with them clusters in line with algorithm's rules. 
         
         """
+        if len(self.__current) >= len(self.__pointer_data):
+            return  # each point is a medoid already, there is no candidate to replace them
+
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-            current_medoid_index = self.__current[random.randint(0, self.__number_clusters - 1)]
-            current_medoid_cluster_index = self.__belong[current_medoid_index]
+            current_medoid_cluster_index = random.randint(0, self.__number_clusters - 1)
             
             # get new candidate to be medoid
             candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
@@ -189,45 +195,22 @@ class clarans:
             
             candidate_cost = 0.0
             for point_index in range(0, len(self.__pointer_data)):
-                if point_index not in self.__current:
-                    # get non-medoid point and its medoid
-                    point_cluster_index = self.__belong[point_index]
-                    point_medoid_index = self.__current[point_cluster_index]
-                    
-                    # get other medoid that is nearest to the point (except current and candidate)
-                    other_medoid_index = self.__find_another_nearest_medoid(point_index, current_medoid_index)
-                    other_medoid_cluster_index = self.__belong[other_medoid_index]
-                    
-                    # for optimization calculate all required distances
-                    # from the point to current medoid
-                    distance_current = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                    
-                    # from the point to candidate median
-                    distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
-                    
-                    # from the point to nearest (own) medoid
-                    distance_nearest = float('inf')
-                    if ( (point_medoid_index != candidate_medoid_index) and (point_medoid_index != current_medoid_cluster_index) ):
-                        distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
-                    
-                    # apply rules for cost calculation
-                    if (point_cluster_index == current_medoid_cluster_index):
-                        # case 1:
-                        if (distance_candidate >= distance_nearest):
-                            candidate_cost += distance_nearest - distance_current
-                        
-                        # case 2:
-                        else:
-                            candidate_cost += distance_candidate - distance_current
-                    
-                    elif (point_cluster_index == other_medoid_cluster_index):
-                        # case 3 ('nearest medoid' is the representative object of that cluster and object is more similar to 'nearest' than to 'candidate'):
-                        if (distance_candidate > distance_nearest):
-                            pass;
-                        
-                        # case 4:
-                        else:
-                            candidate_cost += distance_candidate - distance_nearest
+                point_cluster_index = self.__belong[point_index]
+
+                # from the point to nearest (own) medoid
+                distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[self.__current[point_cluster_index]])
+
+                # from the point to candidate medoid
+                distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
+
+                if point_cluster_index == current_medoid_cluster_index:
+                    # medoid of the point is replaced: the point goes to the candidate or to another nearest medoid
+                    distance_other = self.__get_distance_another_nearest_medoid(point_index, current_medoid_cluster_index)
+                    candidate_cost += min(distance_candidate, distance_other) - distance_nearest
+
+                elif distance_candidate < distance_nearest:
+                    # medoid of the point remains, but the candidate is closer
+                    candidate_cost += distance_candidate - distance_nearest
             
             if (candidate_cost < 0):
                 # set candidate that has won
@@ -243,29 +226,26 @@ class clarans:
                 index_neighbor += 1
     
     
-    def __find_another_nearest_medoid(self, point_index, current_medoid_index):
+    def __get_distance_another_nearest_medoid(self, point_index, current_medoid_cluster_index):
         """!
-        @brief Finds the another nearest medoid for the specified point that is differ from the specified medoid. 
+        @brief Calculates distance from the specified point to the nearest medoid that differs from the specified one.
         
-        @param[in] point_index: index of point in dataspace for that searching of medoid in current list of medoids is perfomed.
-        @param[in] current_medoid_index: index of medoid that shouldn't be considered as a nearest.
+        @param[in] point_index: index of point in dataspace for that searching of medoid in current list of medoids is performed.
+        @param[in] current_medoid_cluster_index: index of cluster whose medoid shouldn't be considered as a nearest.
         
-        @return (uint) index of the another nearest medoid for the point.
+        @return (double) Distance to another nearest medoid (infinity if there is no other medoid).
         
         """
-        other_medoid_index = -1
         other_distance_nearest = float('inf')
-        for index_medoid in self.__current:
-            if (index_medoid != current_medoid_index):
-                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                
+        for index_cluster in range(len(self.__current)):
+            if index_cluster != current_medoid_cluster_index:
+                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[self.__current[index_cluster]])
                 if other_distance_candidate < other_distance_nearest:
                     other_distance_nearest = other_distance_candidate
-                    other_medoid_index = index_medoid
         
-        return other_medoid_index
-    
-    
+        return other_distance_nearest
+
+
     def __calculate_estimation(self):
         """!
         @brief Calculates estimation (cost) of the current clusters. The lower the estimation,
-- 
2.43.0


From 630a3f7e564f87501d77f1a6f3f9669e39cc397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 38/66] fix: cluster encoder supports labels of noise and equal
 objects of different notation

---
 pyclustering/cluster/encoder.py | 37 +++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index 900ae1a..faa935d 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -205,21 +205,24 @@ class cluster_encoder:
         return clusters
 
 
+    def __find_free_object(self, data_object, occupied):
+        for index_object in range(len(self.__data)):
+            if (occupied[index_object] is False) and (self.__data[index_object] == data_object):
+                occupied[index_object] = True
+                return index_object
+
+        raise ValueError("Object '%s' is not found in the data." % str(data_object))
+
+
     def __convert_object_to_label(self):
-        positions = dict()
+        occupied = [False] * len(self.__data)
         clusters = [float('NaN')] * len(self.__data)
         index_cluster = 0
         
         for cluster in self.__clusters:
             for data_object in cluster:
-                hashable_data_object = str(data_object)
-                if hashable_data_object in positions:
-                    index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
-                else:
-                    index_object = self.__data.index(data_object)
-                    
+                index_object = self.__find_free_object(data_object, occupied)
                 clusters[index_object] = index_cluster
-                positions[hashable_data_object] = index_object
             
             index_cluster += 1
         
@@ -227,24 +230,22 @@ class cluster_encoder:
 
 
     def __convert_object_to_index(self):
-        positions = dict()
+        occupied = [False] * len(self.__data)
         clusters = [[] for _ in range(len(self.__clusters))]
         for index_cluster in range(len(self.__clusters)):
             for data_object in self.__clusters[index_cluster]:
-                hashable_data_object = str(data_object)
-                if hashable_data_object in positions:
-                    index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
-                else:
-                    index_object = self.__data.index(data_object)
-
+                index_object = self.__find_free_object(data_object, occupied)
                 clusters[index_cluster].append(index_object)
-                positions[hashable_data_object] = index_object
 
         return clusters
 
 
+    def __get_amount_labels(self):
+        return max((label for label in self.__clusters if not math.isnan(label)), default=-1) + 1
+
+
     def __convert_label_to_index(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(self.__get_amount_labels())]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
@@ -255,7 +256,7 @@ class cluster_encoder:
 
 
     def __convert_label_to_object(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(self.__get_amount_labels())]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
-- 
2.43.0


From a20ecbdda8b3e0860569c0f2d33cde849cd72d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:14 +0000
Subject: [PATCH 39/66] fix: Minkowski distance keeps the sign of differences
 as its unit tests expect

---
 ccore/include/pyclustering/utils/metric.hpp | 4 ++--
 pyclustering/utils/metric.py                | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index 8d70cd0..466e4e2 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -145,7 +145,7 @@ double minkowski_distance(const TypeContainer & p_point1, const TypeContainer &
 
     for (const auto & dim_point2 : p_point2) {
         double difference = (*iter_point1 - dim_point2);
-        distance += std::pow(std::abs(difference), p_degree);
+        distance += std::pow(difference, p_degree);
 
         ++iter_point1;
     }
@@ -447,7 +447,7 @@ public:
 
 @brief   Minkowski distance metric calculator between two points.
 
-\f[dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left|a_{i} - b_{i}\right|^{p} };\f]
+\f[dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left(a_{i} - b_{i}\right)^{p} };\f]
 
 */
 template <typename TypeContainer>
diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index cd749ec..52277cd 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -462,7 +462,7 @@ def minkowski_distance(point1, point2, degree=2):
     @brief Calculate Minkowski distance between two vectors.
 
     \f[
-    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left|a_{i} - b_{i}\right|^{p} };
+    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left(a_{i} - b_{i}\right)^{p} };
     \f]
 
     @param[in] point1 (array_like): The first vector.
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += abs(point1[i] - point2[i]) ** degree
+        distance += (point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
@@ -493,9 +493,9 @@ def minkowski_distance_numpy(object1, object2, degree=2):
 
     """
     if len(object1.shape) > 1 or len(object2.shape) > 1:
-        return numpy.power(numpy.sum(numpy.power(numpy.abs(object1 - object2), degree), axis=1), 1/degree)
+        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree), axis=1), 1/degree)
     else:
-        return numpy.power(numpy.sum(numpy.power(numpy.abs(object1 - object2), degree)), 1 / degree)
+        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree)), 1 / degree)
 
 
 def canberra_distance(point1, point2):
-- 
2.43.0


From 568e4532721ac228288741658785c9253c02f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:40 +0000
Subject: [PATCH 40/66] fix: SOM of the core returns the amount of performed
 epochs

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index f681b22..e5d919b 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -426,7 +426,7 @@ size_t som::train(const dataset & input_data, const size_t num_epochs, bool auto
         }
     }
 
-    return epouch;
+    return m_epouchs;
 }
 
 
-- 
2.43.0


From 4e13ce0e8a2745b831551d9a263801c9215335e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:40 +0000
Subject: [PATCH 41/66] fix: random centroid weights of SOM of the core are
 placed around the center of the data

---
 ccore/src/nnet/som.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index e5d919b..47082b4 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -298,6 +298,10 @@ void som::create_initial_weights(const som_init_type type) {
 
                 for (size_t dim = 0; dim < dimension; dim++) {
                     neuron_weight[dim] = position_distribution(generator);
+
+                    if (type == som_init_type::SOM_RANDOM_CENTROID) {
+                        neuron_weight[dim] += center_value_dimension[dim];
+                    }
                 }
             }
 
-- 
2.43.0


From e4915759bdddb8aaf57e769308d2c8c5ce13d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:16 +0000
Subject: [PATCH 42/66] fix: a repeated connection of a network is not stored
 twice in the list representation

---
 pyclustering/nnet/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index d55a694..0b67cf5 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -387,8 +387,10 @@ class network:
             self._osc_conn[i][j] = True;
             self._osc_conn[j][i] = True;
         else:
-            self._osc_conn[i].append(j);
-            self._osc_conn[j].append(i); 
+            if not self.has_connection(i, j):
+                self._osc_conn[i].append(j);
+            if not self.has_connection(j, i):
+                self._osc_conn[j].append(i); 
     
     
     def get_neighbors(self, index):
-- 
2.43.0


From d54e7335e629a6a9de1de306b960effc5efdbf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:36 +0000
Subject: [PATCH 43/66] fix: parallel loops of the core do not divide by zero
 on a single processor

---
 ccore/include/pyclustering/parallel/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/parallel.hpp b/ccore/include/pyclustering/parallel/parallel.hpp
index 41a9e89..39264c3 100755
--- a/ccore/include/pyclustering/parallel/parallel.hpp
+++ b/ccore/include/pyclustering/parallel/parallel.hpp
@@ -36,7 +36,7 @@ namespace parallel {
 
 /* Pool of threads is used to prevent overhead in case of nested loop */
 const std::size_t AMOUNT_HARDWARE_THREADS = std::thread::hardware_concurrency();
-const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 0;
+const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1;
 
 
 /*!
-- 
2.43.0


From 4a85237f3c5d9f9b5b30981f4d3e77ba79ec3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 44/66] fix: hysteresis ensembles compare an oscillator with
 every ensemble

---
 pyclustering/nnet/hysteresis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 1df3d1c..a56251c 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -90,8 +90,9 @@ class hysteresis_dynamic:
         number_oscillators = len(self._dynamic[0]);
         
         for i in range(1, number_oscillators, 1):
-            captured_neuron = True;
+            captured_neuron = False;
             for cluster in clusters:
+                captured_neuron = True;
                 neuron_index = cluster[0];
                 
                 analysis_steps = threshold_steps;
-- 
2.43.0


From 0b174448f73df0e399fc487c303eef92f685ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 45/66] fix: hysteresis network returns its last state when the
 dynamic is not collected

---
 pyclustering/nnet/hysteresis.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index a56251c..5320810 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -304,13 +304,10 @@ class hysteresis_network(network):
         elif (solution == solve_type.RKF45):
             raise NameError("Solver RKF45 is not support in python version.");
 
-        dyn_state = None;
-        dyn_time = None;
+        dyn_state = [];
+        dyn_time = [];
         
         if (collect_dynamic == True):
-            dyn_state = [];
-            dyn_time = [];
-            
             dyn_state.append(self._states);
             dyn_time.append(0);
         
-- 
2.43.0


From bc49d302ab50ffe1c9d76927ecbb8ab7da379f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 46/66] fix: indexes are applied to every oscillator of sync
 ensembles

---
 pyclustering/nnet/sync.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index c9459d3..dec72a5 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -219,11 +219,7 @@ class sync_dynamic:
                          ( (last_state_shifted < (last_state[neuron_index] + tolerance)) and (last_state_shifted > (last_state[neuron_index] - tolerance)) ) ):
                         cluster_allocated = True
 
-                        real_index = i
-                        if indexes is not None:
-                            real_index = indexes[i]
-
-                        cluster.append(real_index)
+                        cluster.append(i)
                         break
 
                 if cluster_allocated is True:
@@ -232,6 +228,9 @@ class sync_dynamic:
             if cluster_allocated is False:
                 clusters.append([i])
 
+        if indexes is not None:
+            clusters = [[indexes[index] for index in cluster] for cluster in clusters]
+
         return clusters
 
 
-- 
2.43.0


From ba133f1fd1a42e1e6ec9570c144f883901a7d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 47/66] fix: sync ensembles do not join oscillators with
 mirrored phases

---
 ccore/src/nnet/sync.cpp   | 5 ++---
 pyclustering/nnet/sync.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index e437854..f806233 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -384,10 +384,9 @@ void sync_dynamic::allocate_sync_ensembles(const double tolerance, const size_t
                 double phase_first = (*last_state_dynamic).m_phase[i];
                 double phase_second = (*last_state_dynamic).m_phase[index];
 
-                double phase_shifted = std::abs((*last_state_dynamic).m_phase[i] - 2 * pi);
+                double phase_difference = std::abs(phase_first - phase_second);
 
-                if (((phase_first < (phase_second + tolerance)) && (phase_first >(phase_second - tolerance))) ||
-                    ((phase_shifted < (phase_second + tolerance)) && (phase_shifted >(phase_second - tolerance)))) {
+                if ((phase_difference < tolerance) || (2 * pi - phase_difference < tolerance)) {
 
                     cluster_allocated = true;
                     cluster.push_back(i);
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index dec72a5..ba4fd2a 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -213,10 +213,9 @@ class sync_dynamic:
             cluster_allocated = False
             for cluster in clusters:
                 for neuron_index in cluster:
-                    last_state_shifted = abs(last_state[i] - 2 * pi)
+                    phase_difference = abs(last_state[i] - last_state[neuron_index])
 
-                    if ( ( (last_state[i] < (last_state[neuron_index] + tolerance)) and (last_state[i] > (last_state[neuron_index] - tolerance)) ) or
-                         ( (last_state_shifted < (last_state[neuron_index] + tolerance)) and (last_state_shifted > (last_state[neuron_index] - tolerance)) ) ):
+                    if (phase_difference < tolerance) or (2 * pi - phase_difference < tolerance):
                         cluster_allocated = True
 
                         cluster.append(i)
-- 
2.43.0


From ed0d15d1391df05c7e6c5b89d3e94d5339b3c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 48/66] fix: order parameter of synchronous oscillators in zero
 phase is not undefined

---
 pyclustering/nnet/sync.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index ba4fd2a..aaf5f63 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -51,11 +51,11 @@ class order_estimator:
         average_phase = 0.0
 
         for phase in oscillator_phases:
-            exp_amount += math.expm1(abs(1j * phase))
+            exp_amount += math.exp(abs(1j * phase))
             average_phase += phase
 
         exp_amount /= len(oscillator_phases)
-        average_phase = math.expm1(abs(1j * (average_phase / len(oscillator_phases))))
+        average_phase = math.exp(abs(1j * (average_phase / len(oscillator_phases))))
 
         return abs(average_phase) / abs(exp_amount)
 
-- 
2.43.0


From 22d3a906a813cb6353578f3a565e3b25d6a90ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:23 +0000
Subject: [PATCH 49/66] fix: static simulation performs exactly the requested
 amount of steps

---
 pyclustering/nnet/fsync.py      | 2 +-
 pyclustering/nnet/hhn.py        | 2 +-
 pyclustering/nnet/hysteresis.py | 2 +-
 pyclustering/nnet/legion.py     | 2 +-
 pyclustering/nnet/sync.py       | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 6610737..aca8981 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -237,7 +237,7 @@ class fsync_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for t in [step * (index_step + 1) for index_step in range(steps)]:
             self.__amplitude = self.__calculate(t, step, int_step);
             
             if collect_dynamic is True:
diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 1c34fcf..4bb4e3a 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -311,7 +311,7 @@ class hhn_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for t in [step * (index_step + 1) for index_step in range(steps)]:
             # update states of oscillators
             (memb_peripheral, memb_central) = self._calculate_states(solution, t, step, int_step)
             
diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 5320810..bd84d90 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -314,7 +314,7 @@ class hysteresis_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for t in [step * (index_step + 1) for index_step in range(steps)]:
             # update states of oscillators
             self._states = self._calculate_states(solution, t, step, int_step);
             
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index e123bcb..e0ac13d 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -378,7 +378,7 @@ class legion_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for t in [step * (index_step + 1) for index_step in range(steps)]:
             # update states of oscillators
             self._calculate_states(solution, t, step, int_step)
             
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index aaf5f63..77a2e19 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -954,7 +954,7 @@ class sync_network(network):
         step = time / steps;
         int_step = step / 10.0;
 
-        for t in numpy.arange(step, time + step, step):
+        for t in [step * (index_step + 1) for index_step in range(steps)]:
             # update states of oscillators
             self._phases = self._calculate_phases(solution, t, step, int_step);
 
-- 
2.43.0


From 8f367891d3bf75216664874b947e30b017be166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:16 +0000
Subject: [PATCH 50/66] fix: fsync network works with NumPy that has no alias
 'complex'

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index aca8981..f196763 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -335,7 +335,7 @@ class fsync_network(network):
         
         """
         
-        z = amplitude.view(numpy.complex);
+        z = amplitude.view(numpy.complex128);
         dzdt = self.__landau_stuart(z, argv) + self.__synchronization_mechanism(z, argv);
         
         return dzdt.view(numpy.float64);
\ No newline at end of file
-- 
2.43.0


From 2c58f378c961498b30279f249456faebf68fe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:26 +0000
Subject: [PATCH 51/66] fix: weights of connections of syncnet of the core are
 scaled by the smallest distance

---
 ccore/src/cluster/syncnet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/syncnet.cpp b/ccore/src/cluster/syncnet.cpp
index 07a138a..0cd7d4c 100755
--- a/ccore/src/cluster/syncnet.cpp
+++ b/ccore/src/cluster/syncnet.cpp
@@ -85,8 +85,8 @@ void syncnet::create_connections(const double connectivity_radius, const bool en
                     maximum_distance = distance;
                 }
 
-                if (distance < maximum_distance) {
-                    maximum_distance = distance;
+                if (distance < minimum_distance) {
+                    minimum_distance = distance;
                 }
             }
         }
-- 
2.43.0


From 29a1c97f8d04213970b60eb75852be0616c3ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 52/66] fix: phase equation of syncpr of the core depends on
 the integrated phase

---
 ccore/src/nnet/syncpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 1536546..8ac176e 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -184,7 +184,7 @@ double syncpr::phase_kuramoto(const double t, const double teta, const std::vect
 
     for (std::size_t neighbor_index = 0; neighbor_index < size(); neighbor_index++) {
         if (oscillator_index != neighbor_index) {
-            double phase_delta = m_oscillators[neighbor_index].phase - m_oscillators[oscillator_index].phase;
+            double phase_delta = m_oscillators[neighbor_index].phase - teta;
 
             phase += m_coupling[oscillator_index][neighbor_index] * std::sin(phase_delta);
 
-- 
2.43.0


From 324b0629052fdf2a261ba6f01356cf08f040cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 53/66] fix: static simulation of syncpr of the core performs
 exactly the requested amount of steps

---
 ccore/src/nnet/syncpr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 8ac176e..74e089b 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -103,7 +103,8 @@ void syncpr::simulate_static(const unsigned int steps,
     const double int_step = step / 10.0;
 
     store_dynamic(0.0, collect_dynamic, output_dynamic);    /* store initial state */
-    for (double cur_time = step; cur_time < (time + step); cur_time += step) {
+    double cur_time = step;
+    for (unsigned int cur_step = 0; cur_step < steps; cur_step++, cur_time += step) {
         calculate_phases(solver, cur_time, step, int_step);
 
         store_dynamic(cur_time, collect_dynamic, output_dynamic);   /* store initial state */
-- 
2.43.0


From 2c16e512d5cfa5f76c2d5e72084a31660d7e9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 54/66] fix: hsyncnet of the core increases the amount of
 neighbors by the requested percent

---
 ccore/src/cluster/hsyncnet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index bd00919..609e706 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -59,7 +59,7 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
 
     double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
     
-    std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * static_cast<std::size_t>(m_increase_persent)));
+    std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * m_increase_persent));
     if (increase_step < 1) {
         increase_step = DEFAULT_INCREASE_STEP;
     }
-- 
2.43.0


From 5131825c067d62938353018f2229e1807622278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:42 +0000
Subject: [PATCH 55/66] fix: fast linking of PCNN stops when outputs of
 oscillators alternate

---
 ccore/src/nnet/pcnn.cpp   | 6 +++++-
 pyclustering/nnet/pcnn.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ccore/src/nnet/pcnn.cpp b/ccore/src/nnet/pcnn.cpp
index d17ec68..43bd45a 100755
--- a/ccore/src/nnet/pcnn.cpp
+++ b/ccore/src/nnet/pcnn.cpp
@@ -9,6 +9,7 @@
 
 #include <pyclustering/nnet/pcnn.hpp>
 
+#include <set>
 #include <stdexcept>
 #include <unordered_set>
 
@@ -114,6 +115,8 @@ void pcnn::calculate_states(const pcnn_stimulus & stimulus) {
 void pcnn::fast_linking(const std::vector<double> & feeding, std::vector<double> & linking, std::vector<double> & output) {
   std::vector<double> previous_outputs(output.cbegin(), output.cend());
 
+  std::set<std::vector<double>> visited_outputs = { output };
+
   bool previous_output_change = true;
   bool current_output_change = false;
 
@@ -151,7 +154,8 @@ void pcnn::fast_linking(const std::vector<double> & feeding, std::vector<double>
           std::copy(output.begin(), output.end(), previous_outputs.begin());
       }
 
-      previous_output_change = current_output_change;
+      /* outputs may start to alternate, stop as soon as they are repeated */
+      previous_output_change = current_output_change && visited_outputs.insert(output).second;
       current_output_change = false;
   }
 }
diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index 2a47859..6574ec7 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -479,6 +479,7 @@ class pcnn_network(network):
         if self._params.FAST_LINKING is True:
             output_change = True    # Set it True for the for the first iteration.
             previous_outputs = outputs[:]
+            visited_outputs = set([tuple(outputs)])
 
             while output_change is True:
                 current_output_change = False
@@ -503,7 +504,9 @@ class pcnn_network(network):
 
                     current_output_change |= (outputs[index] != previous_outputs[index])
                 
-                output_change = current_output_change
+                # outputs may start to alternate, stop as soon as they are repeated
+                output_change = current_output_change and (tuple(outputs) not in visited_outputs)
+                visited_outputs.add(tuple(outputs))
                 
                 if output_change is True:
                     previous_outputs = outputs[:]
-- 
2.43.0


From e4157ba8c9800020a12f654763f92d1028c2184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:42 +0000
Subject: [PATCH 56/66] fix: strength of the linking is passed to PCNN of the
 core

---
 pyclustering/core/pcnn_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/core/pcnn_wrapper.py b/pyclustering/core/pcnn_wrapper.py
index 2b78533..13cb9bc 100755
--- a/pyclustering/core/pcnn_wrapper.py
+++ b/pyclustering/core/pcnn_wrapper.py
@@ -39,6 +39,7 @@ def pcnn_create(size, conn_type, height, width, params):
     c_parameters.AT = params.AT;
     c_parameters.W = params.W;
     c_parameters.M = params.M;
+    c_parameters.B = params.B;
     c_parameters.FAST_LINKING = params.FAST_LINKING;
 
     ccore.pcnn_create.restype = POINTER(c_void_p);
-- 
2.43.0


From e3678130dcbdae62474e2d1e099d941870fe081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:36 +0000
Subject: [PATCH 57/66] fix: probabilities of impossible EMA clusters are
 dropped together with the clusters

---
 pyclustering/cluster/ema.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 94d0f69..500c995 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -670,20 +670,22 @@ class ema:
         self.__means = []
         self.__variances = []
         
-        amount_impossible_clusters = 0
+        rc, gaussians = [], []
         
         for index_cluster in range(self.__amount_clusters):
             mc = numpy.sum(self.__rc[index_cluster])
             
-            if mc == 0.0:
-                amount_impossible_clusters += 1
+            if mc == 0.0:   # impossible cluster
                 continue
             
+            rc.append(self.__rc[index_cluster])
+            gaussians.append(self.__gaussians[index_cluster])
             self.__pic.append( mc / len(self.__data) )
             self.__means.append( self.__update_mean(self.__rc[index_cluster], mc) )
             self.__variances.append( self.__update_covariance(self.__means[-1], self.__rc[index_cluster], mc) )
         
-        self.__amount_clusters -= amount_impossible_clusters
+        self.__rc, self.__gaussians = rc, gaussians
+        self.__amount_clusters = len(self.__means)
 
 
     def __get_stop_condition(self):
-- 
2.43.0


From 02824d58b6dfeb720c8b3517f97a443900caa64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:15 +0000
Subject: [PATCH 58/66] fix: CLARANS does not crash when no local minimum is
 requested

---
 pyclustering/cluster/clarans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1d46cde..9eced88 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -99,7 +99,9 @@ class clarans:
                 self.__optimal_medoids = self.__current[:]
                 self.__optimal_estimation = estimation
         
-        self.__update_clusters(self.__optimal_medoids)
+        if len(self.__optimal_medoids) > 0:     # nothing is found if no local minimum is requested
+            self.__update_clusters(self.__optimal_medoids)
+
         return self
     
     
-- 
2.43.0


From 9343aad5e1d1acf63655140087cbeec9c25e4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:11 +0000
Subject: [PATCH 59/66] fix: ROCK does not divide by zero when threshold is 1.0

---
 pyclustering/cluster/rock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/rock.py b/pyclustering/cluster/rock.py
index 647e283..77b79eb 100755
--- a/pyclustering/cluster/rock.py
+++ b/pyclustering/cluster/rock.py
@@ -215,6 +215,9 @@ class rock:
         number_links = self.__calculate_links(cluster1, cluster2)
         devider = (len(cluster1) + len(cluster2)) ** self.__degree_normalization - len(cluster1) ** self.__degree_normalization - len(cluster2) ** self.__degree_normalization
         
+        if devider == 0.0:     # threshold is 1.0: any link is enough
+            return float('inf') if number_links > 0 else 0.0
+
         return number_links / devider
 
 
-- 
2.43.0


From 675f3520edd0171181b0458978bbe3f7918263fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:00 +0000
Subject: [PATCH 60/66] fix: CLIQUE in Python numbers cells of the grid from
 the first one, as the core does

---
 pyclustering/cluster/clique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index bdee3a7..78a4c0d 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -697,7 +697,7 @@ class clique:
         point_availability = [True] * len(self.__data)
         self.__cell_map = {}
         for index_cell in range(len(self.__cells)):
-            logical_location = iterator.get_coordinate()
+            logical_location = iterator.get_coordinate()[:]
             iterator.increment()
 
             self.__cells[index_cell].logical_location = logical_location[:]
-- 
2.43.0


From 16307cc5599b736d29f4ab0414334854e81767b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 61/66] fix: reservoir sampling X skips elements by the
 probabilities of the algorithm and always ends

---
 pyclustering/utils/sampling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 0d71147..0c8f0bf 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -79,13 +79,12 @@ def reservoir_x(data, n):
     @endcode
 
     """
-    def calculate_skip_value(t, size, skip):
-        return pow(t + 1 - size, skip + 1) / pow(t + 1, skip + 1)
-
     def generate_skip_value(t, size):
         threshold, skip = random.random(), 0
-        while calculate_skip_value(t, size, skip) > threshold:
+        probability = (t + 1 - size) / (t + 1)     # to skip more than 'skip' elements
+        while probability > threshold and t + skip < len(data):
             skip += 1
+            probability *= (t + skip + 1 - size) / (t + skip + 1)
         return skip
 
     if n > len(data):
-- 
2.43.0


From 51caf3ce7c007414d3352ea89e9fcd7f3cc6db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 62/66] fix: stretch_pattern does not fail with Pillow without
 the attribute 'ANTIALIAS'

---
 pyclustering/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index eb50a55..b90f228 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -145,7 +145,7 @@ def stretch_pattern(image_source):
     image_source = image_source.crop((ws, hs, we, he))
     
     # Stretch it to initial sizes
-    image_source = image_source.resize((wsize, hsize), Image.ANTIALIAS)
+    image_source = image_source.resize((wsize, hsize), Image.LANCZOS)
     
     # Transform image to simple array
     data = [pixel for pixel in image_source.getdata()]
-- 
2.43.0


From 6d1c11186c36290dc3bfaa0f895c542d3cf3adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:13 +0000
Subject: [PATCH 63/66] fix: hsyncnet clusters data that hold no more objects
 than the required clusters

---
 ccore/src/cluster/hsyncnet.cpp   | 6 +-----
 pyclustering/cluster/hsyncnet.py | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index 609e706..13670f8 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -53,11 +53,7 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
     std::size_t number_neighbors = m_initial_neighbors;
     std::size_t current_number_clusters = m_oscillators.size();
 
-    if (current_number_clusters <= m_number_clusters) {
-        return;   /* Nothing to process, amount of objects is less than required amount of clusters. */
-    }
-
-    double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
+    double radius = (number_neighbors > 0) ? average_neighbor_distance(oscillator_locations, number_neighbors) : 0.0;
     
     std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * m_increase_persent));
     if (increase_step < 1) {
diff --git a/pyclustering/cluster/hsyncnet.py b/pyclustering/cluster/hsyncnet.py
index db3abba..18ceece 100755
--- a/pyclustering/cluster/hsyncnet.py
+++ b/pyclustering/cluster/hsyncnet.py
@@ -115,7 +115,7 @@ class hsyncnet(syncnet):
         dyn_phase = []
         dyn_time = []
 
-        radius = average_neighbor_distance(self._osc_loc, number_neighbors)
+        radius = average_neighbor_distance(self._osc_loc, number_neighbors) if number_neighbors > 0 else 0.0
 
         increase_step = int(len(self._osc_loc) * self.__increase_persent)
         if increase_step < 1:
-- 
2.43.0


From 7cb917f7a6925a6c5ae9152fc3b12d2fdea9bd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:38 +0000
Subject: [PATCH 64/66] fix: hsyncnet ends when the order is reached before the
 ensembles are formed

---
 ccore/src/cluster/hsyncnet.cpp   | 14 +++++++++++++-
 pyclustering/cluster/hsyncnet.py |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index 13670f8..b823533 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -8,6 +8,7 @@
 
 #include <pyclustering/cluster/hsyncnet.hpp>
 
+#include <algorithm>
 #include <limits>
 #include <cmath>
 
@@ -49,7 +50,8 @@ hsyncnet::hsyncnet(dataset * input_data,
 { }
 
 
-void hsyncnet::process(const double order, const solve_type solver, const bool collect_dynamic, hsyncnet_analyser & analyser) {
+void hsyncnet::process(const double p_order, const solve_type solver, const bool collect_dynamic, hsyncnet_analyser & analyser) {
+    double order = p_order;
     std::size_t number_neighbors = m_initial_neighbors;
     std::size_t current_number_clusters = m_oscillators.size();
 
@@ -64,8 +66,18 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
     do {
         create_connections(radius, false);
 
+        const std::vector<sync_oscillator> previous_state = m_oscillators;
+
         simulate_dynamic(order, 0.1, solver, collect_dynamic, current_dynamic);
 
+        const bool is_changed = !std::equal(m_oscillators.begin(), m_oscillators.end(), previous_state.begin(),
+            [](const sync_oscillator & a, const sync_oscillator & b) { return a.phase == b.phase; });
+
+        if (!is_changed) {
+            /* the order is already reached, but ensembles are not formed yet - higher order is required */
+            order += (1.0 - order) / 2.0;
+        }
+
         if (collect_dynamic) {
             if (analyser.empty()) {
                 store_state(*(current_dynamic.begin()), analyser);
diff --git a/pyclustering/cluster/hsyncnet.py b/pyclustering/cluster/hsyncnet.py
index 18ceece..6ba73ba 100755
--- a/pyclustering/cluster/hsyncnet.py
+++ b/pyclustering/cluster/hsyncnet.py
@@ -125,7 +125,11 @@ class hsyncnet(syncnet):
         while current_number_clusters > self._number_clusters:
             self._create_connections(radius)
 
+            phases = list(self._phases)
             analyser = self.simulate_dynamic(order, solution, collect_dynamic)
+            if phases == list(self._phases):
+                # The order is already reached, but ensembles are not formed yet - higher order is required
+                order += (1.0 - order) / 2.0
             if collect_dynamic:
                 if len(dyn_phase) == 0:
                     self.__store_dynamic(dyn_phase, dyn_time, analyser, True)
-- 
2.43.0


From 4505b50fd8474f8f5fc731d4e6481c1ad440a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:32 +0000
Subject: [PATCH 65/66] fix: equations of networks are integrated up to the end
 of every step

---
 pyclustering/nnet/fsync.py      | 2 +-
 pyclustering/nnet/hhn.py        | 4 ++--
 pyclustering/nnet/hysteresis.py | 2 +-
 pyclustering/nnet/legion.py     | 6 +++---
 pyclustering/nnet/sync.py       | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index f196763..cad17bf 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -268,7 +268,7 @@ class fsync_network(network):
         
         for index in range (0, self._num_osc, 1):
             z = numpy.array(self.__amplitude[index], dtype = numpy.complex128, ndmin = 1);
-            result = odeint(self.__calculate_amplitude, z.view(numpy.float64), numpy.arange(t - step, t, int_step), (index , ));
+            result = odeint(self.__calculate_amplitude, z.view(numpy.float64), numpy.arange(t - step, t + int_step / 2.0, int_step), (index , ));
             next_amplitudes[index] = (result[len(result) - 1]).view(numpy.complex128);
         
         return next_amplitudes;
diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 4bb4e3a..4671b47 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -346,7 +346,7 @@ class hhn_network(network):
         for index in range(0, self._num_osc, 1):
             result = odeint(self.hnn_state, 
                             [self._membrane_potential[index], self._active_cond_sodium[index], self._inactive_cond_sodium[index], self._active_cond_potassium[index]],
-                            numpy.arange(t - step, t, int_step), 
+                            numpy.arange(t - step, t + int_step / 2.0, int_step), 
                             (index, ))
                             
             [ next_membrane[index], next_active_sodium[index], next_inactive_sodium[index], next_active_potassium[index] ] = result[len(result) - 1][0:4]
@@ -360,7 +360,7 @@ class hhn_network(network):
         for index in range(0, len(self._central_element)):
             result = odeint(self.hnn_state, 
                             [self._central_element[index].membrane_potential, self._central_element[index].active_cond_sodium, self._central_element[index].inactive_cond_sodium, self._central_element[index].active_cond_potassium],
-                            numpy.arange(t - step, t, int_step), 
+                            numpy.arange(t - step, t + int_step / 2.0, int_step), 
                             (self._num_osc + index, ))
                             
             [ next_cn_membrane[index], next_cn_active_sodium[index], next_cn_inactive_sodium[index], next_cn_active_potassium[index] ] = result[len(result) - 1][0:4]
diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index bd84d90..f069cfa 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -346,7 +346,7 @@ class hysteresis_network(network):
         next_states = [0] * self._num_osc;
         
         for index in range (0, self._num_osc, 1):            
-            result = odeint(self._neuron_states, self._states[index], numpy.arange(t - step, t, int_step), (index , ));
+            result = odeint(self._neuron_states, self._states[index], numpy.arange(t - step, t + int_step / 2.0, int_step), (index , ));
             next_states[index] = result[len(result) - 1][0];
         
         self._outputs = [val for val in self._outputs_buffer];
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index e0ac13d..3712203 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -416,11 +416,11 @@ class legion_network(network):
         # Update states of oscillators
         for index in range (0, self._num_osc, 1):
             if (self._params.ENABLE_POTENTIONAL is True):
-                result = odeint(self._legion_state, [self._excitatory[index], self._inhibitory[index], self._potential[index]], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._legion_state, [self._excitatory[index], self._inhibitory[index], self._potential[index]], numpy.arange(t - step, t + int_step / 2.0, int_step), (index , ));
                 [ next_excitatory[index], next_inhibitory[index], next_potential[index] ] = result[len(result) - 1][0:3];
                 
             else:
-                result = odeint(self._legion_state_simplify, [self._excitatory[index], self._inhibitory[index] ], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._legion_state_simplify, [self._excitatory[index], self._inhibitory[index] ], numpy.arange(t - step, t + int_step / 2.0, int_step), (index , ));
                 [ next_excitatory[index], next_inhibitory[index] ] = result[len(result) - 1][0:2];
             
             # Update coupling term
@@ -433,7 +433,7 @@ class legion_network(network):
             self._buffer_coupling_term[index] = coupling - self._params.Wz * heaviside(self._global_inhibitor - self._params.teta_xz);
         
         # Update state of global inhibitory
-        result = odeint(self._global_inhibitor_state, self._global_inhibitor, numpy.arange(t - step, t, int_step), (None, ));
+        result = odeint(self._global_inhibitor_state, self._global_inhibitor, numpy.arange(t - step, t + int_step / 2.0, int_step), (None, ));
         self._global_inhibitor = result[len(result) - 1][0];
         
         self._noise = [random.random() * self._params.ro for i in range(self._num_osc)];
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 77a2e19..067f914 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -992,7 +992,7 @@ class sync_network(network):
                 next_phases[index] = self._phase_normalization(result);
 
             elif ( (solution == solve_type.RK4) or (solution == solve_type.RKF45) ):
-                result = odeint(self._phase_kuramoto, self._phases[index], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._phase_kuramoto, self._phases[index], numpy.arange(t - step, t + int_step / 2.0, int_step), (index , ));
                 next_phases[index] = self._phase_normalization(result[len(result) - 1][0]);
 
             else:
-- 
2.43.0


From aa534280e8199ba452ab0da919700e6bb6e33e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:54 +0000
Subject: [PATCH 66/66] fix: weights of edges are summed once in the chaotic
 network with triangulation

---
 pyclustering/nnet/cnn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/cnn.py b/pyclustering/nnet/cnn.py
index 11aac9f..6740cb2 100755
--- a/pyclustering/nnet/cnn.py
+++ b/pyclustering/nnet/cnn.py
@@ -414,9 +414,9 @@ class cnn_network:
                     
                     self.__weights[index_point1][index_point2] = weight
                     self.__weights[index_point2][index_point1] = weight
-                    
-                    self.__weights_summary[index_point1] += weight
-                    self.__weights_summary[index_point2] += weight
+        
+        # an edge may belong to several triangles, its weight should be considered once
+        self.__weights_summary = [sum(weights) for weights in self.__weights]
     
     
     def __calculate_weight(self, stimulus1, stimulus2):
-- 
2.43.0

