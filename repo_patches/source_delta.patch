From ee7ffc68e2cbfa64e1d3a3365874ba8234d58d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:12 +0000
Subject: [PATCH 01/15] fix: keep wrapped radii in 64 bits so regions may grow
 beyond 2^31

---
 src/pymatching/sparse_blossom/flooder/detector_node.cc | 4 ++--
 src/pymatching/sparse_blossom/flooder/detector_node.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.cc b/src/pymatching/sparse_blossom/flooder/detector_node.cc
index 3e90c71..733a7b3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.cc
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.cc
@@ -20,11 +20,11 @@
 
 namespace pm {
 
-int32_t DetectorNode::compute_wrapped_radius() const {
+cumulative_time_int DetectorNode::compute_wrapped_radius() const {
     if (reached_from_source == nullptr) {
         return 0;
     }
-    int32_t total = 0;
+    cumulative_time_int total = 0;
     auto r = region_that_arrived;
     while (r != region_that_arrived_top) {
         total += r->radius.y_intercept();
diff --git a/src/pymatching/sparse_blossom/flooder/detector_node.h b/src/pymatching/sparse_blossom/flooder/detector_node.h
index 446de58..deb4bb3 100644
--- a/src/pymatching/sparse_blossom/flooder/detector_node.h
+++ b/src/pymatching/sparse_blossom/flooder/detector_node.h
@@ -51,7 +51,7 @@ class DetectorNode {
     GraphFillRegion* region_that_arrived_top;
     /// Stores the latest value of `compute_wrapped_radius` so it doesn't need to be recomputed
     /// as much. Updated whenever region_that_arrived_top changes.
-    int32_t wrapped_radius_cached;
+    cumulative_time_int wrapped_radius_cached;
     /// Of the detection events within the owning region, which one is this node linked to.
     DetectorNode* reached_from_source;
     /// Which observables are crossed, travelling from this node to the source
@@ -95,7 +95,7 @@ class DetectorNode {
     /// sum of the radius of (always frozen) not-top-level regions containing this node. It is a
     /// useful intermediate value for quickly computing the local radius of the node, because it
     /// accounts for everything except the (potentially varying) top level region.
-    int32_t compute_wrapped_radius() const;
+    cumulative_time_int compute_wrapped_radius() const;
 
     /// It works out the local radius of the node, but bounds it to not go beyond the given bounding
     /// region. This is useful for understanding the internal structure of the blossoms.
-- 
2.43.0


From 8a84c498d994c7fdd5e739cc8137449187f7653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 02/15] fix: reject out-of-range detection events before
 touching decoder state

---
 .../sparse_blossom/driver/mwpm_decoding.cc      | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 3f08c37..0bbc336 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -83,16 +83,19 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
     if (!mwpm.flooder.queue.empty()) {
         throw std::invalid_argument("!mwpm.flooder.queue.empty()");
     }
+    // Reject invalid detection events before modifying the state of the decoder
+    for (auto& detection : detection_events) {
+        if (detection >= mwpm.flooder.graph.nodes.size())
+            throw std::invalid_argument(
+                "The detection event with index " + std::to_string(detection) +
+                " does not correspond to a node in the graph, which only has " +
+                std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
+    }
     mwpm.flooder.queue.cur_time = 0;
 
     if (mwpm.flooder.negative_weight_detection_events.empty()) {
         // Just add detection events if graph has no negative weights
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "The detection event with index " + std::to_string(detection) +
-                    " does not correspond to a node in the graph, which only has " +
-                    std::to_string(mwpm.flooder.graph.nodes.size()) + " nodes.");
             if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                 !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
                 mwpm.create_detection_event(&mwpm.flooder.graph.nodes[detection]);
@@ -106,10 +109,6 @@ void process_timeline_until_completion(pm::Mwpm& mwpm, const std::vector<uint64_
 
         // Now add detection events for unmarked nodes
         for (auto& detection : detection_events) {
-            if (detection >= mwpm.flooder.graph.nodes.size())
-                throw std::invalid_argument(
-                    "Detection event index `" + std::to_string(detection) +
-                    "` is larger than any detector node index in the graph.");
             if (!mwpm.flooder.graph.nodes[detection].radius_of_arrival) {
                 if (detection + 1 > mwpm.flooder.graph.is_user_graph_boundary_node.size() ||
                     !mwpm.flooder.graph.is_user_graph_boundary_node[detection])
-- 
2.43.0


From 9b9a4a6017fce2bd0b5332375662c0d80c01ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 03/15] fix: do not shift observables 31..63 out of an int in
 bit_vector_to_obs_mask

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index 0bbc336..c568c3c 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -65,7 +65,7 @@ pm::obs_int pm::bit_vector_to_obs_mask(const std::vector<uint8_t>& bit_vector) {
         throw std::invalid_argument("Too many observables");
     pm::obs_int obs_mask = 0;
     for (size_t i = 0; i < num_observables; i++)
-        obs_mask ^= bit_vector[i] << i;
+        obs_mask ^= (pm::obs_int)bit_vector[i] << i;
     return obs_mask;
 }
 
-- 
2.43.0


From fa59913fe6055fba368f24beb977bde0df351c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 04/15] fix: add the solution weight to the weight argument for
 up to 64 observables too

---
 src/pymatching/sparse_blossom/driver/mwpm_decoding.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
index c568c3c..b6f0817 100644
--- a/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
+++ b/src/pymatching/sparse_blossom/driver/mwpm_decoding.cc
@@ -237,7 +237,7 @@ void pm::decode_detection_events(
         // Translate observable mask into bit vector
         fill_bit_vector_from_obs_mask(bit_packed_res.obs_mask, obs_begin_ptr, num_observables);
         // Add negative weight sum to blossom solution weight
-        weight = bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
+        weight += bit_packed_res.weight + mwpm.flooder.negative_weight_sum;
     }
 
     if (edge_correlations) {
-- 
2.43.0


From cf850043ed7616bb09532e8639a6e30fc0cb664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 05/15] fix: count the observables of an edge that replaces an
 existing one

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 3133439..36328db 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -99,8 +99,13 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         // Update the existing edge weight and probability in the adjacency list of `node`
         neighbor.edge_it->weight = new_weight;
         neighbor.edge_it->error_probability = new_error_probability;
-        if (use_new_observables)
+        if (use_new_observables) {
             neighbor.edge_it->observable_indices = parallel_observables;
+            for (auto& obs : parallel_observables) {
+                if (obs + 1 > _num_observables)
+                    _num_observables = obs + 1;
+            }
+        }
 
         _mwpm_needs_updating = true;
         if (new_error_probability < 0 || new_error_probability > 1)
-- 
2.43.0


From 7c37bb33e049610090206b800ab52eadeee2fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:59 +0000
Subject: [PATCH 06/15] fix: allow noise again once a replacement gives every
 edge an error probability

---
 src/pymatching/sparse_blossom/driver/user_graph.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index 36328db..feb7463 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -14,6 +14,8 @@
 
 #include "pymatching/sparse_blossom/driver/user_graph.h"
 
+#include <algorithm>
+
 #include "pymatching/rand/rand_gen.h"
 #include "pymatching/sparse_blossom/driver/implied_weights.h"
 
@@ -108,8 +110,14 @@ void pm::UserGraph::merge_edge_or_boundary_edge(
         }
 
         _mwpm_needs_updating = true;
-        if (new_error_probability < 0 || new_error_probability > 1)
+        if (new_error_probability < 0 || new_error_probability > 1) {
             _all_edges_have_error_probabilities = false;
+        } else if (!_all_edges_have_error_probabilities) {
+            // The replaced edge may have been the only one without a valid error probability
+            _all_edges_have_error_probabilities = std::all_of(edges.begin(), edges.end(), [](const UserEdge& e) {
+                return is_valid_probability(e.error_probability);
+            });
+        }
     }
 }
 
-- 
2.43.0


From 407dc50e9cc05d5b19b45430b9a4fafeb87cdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:59 +0000
Subject: [PATCH 07/15] fix: reject shortest-path requests for unknown or
 unconnected nodes instead of dereferencing null

---
 src/pymatching/sparse_blossom/driver/user_graph.cc    | 8 +++++---
 src/pymatching/sparse_blossom/search/search_flooder.h | 6 ++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.cc b/src/pymatching/sparse_blossom/driver/user_graph.cc
index feb7463..3f3d00c 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.cc
@@ -379,13 +379,15 @@ void pm::UserGraph::handle_dem_instruction_include_correlations(
 
 void pm::UserGraph::get_nodes_on_shortest_path_from_source(size_t src, size_t dst, std::vector<size_t>& out_nodes) {
     auto& mwpm = get_mwpm_with_search_graph();
-    bool src_is_boundary = is_boundary_node(src);
-    bool dst_is_boundary = is_boundary_node(dst);
     if (src != SIZE_MAX && src >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(src) + " is not in the graph");
     if (dst != SIZE_MAX && dst >= nodes.size())
         throw std::invalid_argument("node " + std::to_string(dst) + " is not in the graph");
-    if (!src_is_boundary) {
+    bool src_is_boundary = is_boundary_node(src);
+    bool dst_is_boundary = is_boundary_node(dst);
+    if (!src_is_boundary && src == dst) {
+        out_nodes.push_back(src);
+    } else if (!src_is_boundary) {
         size_t dst_tmp = dst_is_boundary ? SIZE_MAX : dst;
         mwpm.search_flooder.iter_edges_on_shortest_path_from_source(src, dst_tmp, [&](const pm::SearchGraphEdge edge) {
             out_nodes.push_back(edge.detector_node - &mwpm.search_flooder.graph.nodes[0]);
diff --git a/src/pymatching/sparse_blossom/search/search_flooder.h b/src/pymatching/sparse_blossom/search/search_flooder.h
index 6f3f60b..4bc0179 100644
--- a/src/pymatching/sparse_blossom/search/search_flooder.h
+++ b/src/pymatching/sparse_blossom/search/search_flooder.h
@@ -15,6 +15,8 @@
 #ifndef PYMATCHING2_SEARCH_FLOODER_H
 #define PYMATCHING2_SEARCH_FLOODER_H
 
+#include <stdexcept>
+
 #include "pymatching/sparse_blossom/search/search_graph.h"
 #include "pymatching/sparse_blossom/tracker/radix_heap_queue.h"
 
@@ -105,6 +107,10 @@ void SearchFlooder::iter_edges_on_shortest_path_from_source(size_t src, size_t d
     SearchDetectorNode* loc_from_ptr = &graph.nodes[src];
     SearchDetectorNode* loc_to_ptr = dst == SIZE_MAX ? nullptr : &graph.nodes[dst];
     auto collision_edge = run_until_collision(loc_from_ptr, loc_to_ptr);
+    if (!collision_edge.detector_node) {
+        reset();
+        throw std::invalid_argument("There is no path between the source and destination nodes");
+    }
 
     std::vector<SearchGraphEdge> path_edges_1;
     iter_edges_on_path_traced_back_from_node(
-- 
2.43.0


From fcf62557918623a8301bf0bff2fa8ac89fe134c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:19 +0000
Subject: [PATCH 08/15] fix: reconstruct the arenas that Mwpm::reset destroys

---
 src/pymatching/sparse_blossom/matcher/mwpm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymatching/sparse_blossom/matcher/mwpm.cc b/src/pymatching/sparse_blossom/matcher/mwpm.cc
index 2dd7314..3b5b4cd 100644
--- a/src/pymatching/sparse_blossom/matcher/mwpm.cc
+++ b/src/pymatching/sparse_blossom/matcher/mwpm.cc
@@ -474,6 +474,9 @@ void Mwpm::reset() {
     for (auto &m : search_flooder.graph.nodes)
         m.reset();
     flooder.queue.clear();
+    // Start a new lifetime for the arenas, which are used again after the reset
     node_arena.~Arena();
+    new (&node_arena) Arena<AltTreeNode>();
     flooder.region_arena.~Arena();
+    new (&flooder.region_arena) Arena<GraphFillRegion>();
 }
-- 
2.43.0


From c661a34ef8bf2aa95a4c15277cd7e60b5d20063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 09/15] fix: compare all observables in count_mistakes, not
 only the first 64

---
 .../sparse_blossom/driver/namespaced_main.cc         | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index 760e621..c9ab924 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -142,6 +142,7 @@ int main_count_mistakes(int argc, const char **argv) {
 
     stim::SparseShot sparse_shot;
     stim::SparseShot obs_shot;
+    pm::ExtendedMatchingResult res(mwpm.flooder.graph.num_observables);
     size_t num_mistakes = 0;
     size_t num_shots = 0;
     auto start = std::chrono::steady_clock::now();
@@ -153,12 +154,17 @@ int main_count_mistakes(int argc, const char **argv) {
                 throw std::invalid_argument("Obs data ended before shot data ended.");
             }
         }
-        auto res = pm::decode_detection_events_for_up_to_64_observables(mwpm, sparse_shot.hits, enable_correlations);
-        if (obs_shot.obs_mask_as_u64() != res.obs_mask) {
-            num_mistakes++;
+        pm::decode_detection_events(mwpm, sparse_shot.hits, res.obs_crossed.data(), res.weight, enable_correlations);
+        for (size_t k = 0; k < num_obs; k++) {
+            bool actual = k < obs_shot.obs_mask.num_bits_padded() && obs_shot.obs_mask[k];
+            if (actual != (bool)res.obs_crossed[k]) {
+                num_mistakes++;
+                break;
+            }
         }
         sparse_shot.clear();
         obs_shot.clear();
+        res.reset();
         num_shots++;
     }
     fprintf(stats_out, "%zu / %zu\n", num_mistakes, num_shots);
-- 
2.43.0


From b1ef25f248ac4cae4998440a0182ac92815de200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 10/15] fix: report a missing --obs_in instead of counting
 against absent observables

---
 src/pymatching/sparse_blossom/driver/namespaced_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/sparse_blossom/driver/namespaced_main.cc b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
index c9ab924..e668408 100644
--- a/src/pymatching/sparse_blossom/driver/namespaced_main.cc
+++ b/src/pymatching/sparse_blossom/driver/namespaced_main.cc
@@ -118,7 +118,7 @@ int main_count_mistakes(int argc, const char **argv) {
     bool enable_correlations = stim::find_bool_argument("--enable_correlations", argc, argv);
 
     bool time = stim::find_bool_argument("--time", argc, argv);
-    if (!append_obs && obs_in == nullptr) {
+    if (!append_obs && obs_in == stdin) {
         throw std::invalid_argument("Must specify --in_includes_appended_observables or --obs_in.");
     }
 
-- 
2.43.0


From 9a22bd2dcf8d5882dd7e518c95ea349ddcfde260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:42 +0000
Subject: [PATCH 11/15] fix: reject check matrix entries that only become one
 after a cast to uint8

---
 src/pymatching/sparse_blossom/driver/user_graph.pybind.cc | 2 +-
 src/pymatching/sparse_blossom/driver/user_graph.pybind.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
index 7b227e5..4557b53 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.cc
@@ -30,7 +30,7 @@ pm_pybind::CompressedSparseColumnCheckMatrix::CompressedSparseColumnCheckMatrix(
     // As stated in the scipy documentation for the CSC representation: "The row indices for column i
     // are stored in indices[indptr[i]:indptr[i+1]] and their corresponding values are stored in
     // data[indptr[i]:indptr[i+1]]."
-    data = matrix.attr("data").cast<py::array_t<uint8_t>>();
+    data = matrix.attr("data").cast<py::array_t<double>>();
     indices = matrix.attr("indices").cast<py::array_t<int64_t>>();
     indptr = matrix.attr("indptr").cast<py::array_t<int64_t>>();
 
diff --git a/src/pymatching/sparse_blossom/driver/user_graph.pybind.h b/src/pymatching/sparse_blossom/driver/user_graph.pybind.h
index 1b9ea90..1936724 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.pybind.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.pybind.h
@@ -26,7 +26,7 @@ namespace pm_pybind {
 
 struct CompressedSparseColumnCheckMatrix {
     explicit CompressedSparseColumnCheckMatrix(const py::object &matrix);
-    py::array_t<uint8_t> data;
+    py::array_t<double> data;
     py::array_t<int64_t> indices;
     py::array_t<int64_t> indptr;
     size_t num_rows;
-- 
2.43.0


From bf73eeadbf050f6f620d2fc25b169ff52df8a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:42 +0000
Subject: [PATCH 12/15] fix: keep isolated nodes in to_networkx

---
 src/pymatching/matching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymatching/matching.py b/src/pymatching/matching.py
index 3ac8fed..c3365c5 100644
--- a/src/pymatching/matching.py
+++ b/src/pymatching/matching.py
@@ -1671,6 +1671,7 @@ class Matching:
         """
         graph = nx.Graph()
         num_nodes = self.num_nodes
+        graph.add_nodes_from(range(num_nodes))
         has_virtual_boundary = False
         for u, v, data in self.edges():
             if v is None:
-- 
2.43.0


From f5e3e11210b5e03bb8c7394931125b50365b6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:42 +0000
Subject: [PATCH 13/15] fix: return the exit code of the command from cli_argv

---
 src/pymatching/_cli_argv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymatching/_cli_argv.py b/src/pymatching/_cli_argv.py
index e9fbd93..bd33c1d 100644
--- a/src/pymatching/_cli_argv.py
+++ b/src/pymatching/_cli_argv.py
@@ -4,4 +4,4 @@ import pymatching
 
 
 def cli_argv():
-    pymatching.cli(command_line_args=sys.argv[1:])
+    return pymatching.cli(command_line_args=sys.argv[1:])
-- 
2.43.0


From 67c6666a5b2452264e425cdcc61b6f929e9dfda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 14/15] fix: list the events of the last bucket in
 radix_heap_queue's listings

---
 src/pymatching/sparse_blossom/tracker/radix_heap_queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
index 70877eb..0d21087 100644
--- a/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
+++ b/src/pymatching/sparse_blossom/tracker/radix_heap_queue.h
@@ -107,7 +107,7 @@ struct radix_heap_queue {
 
     /// Checks if all events are in the correct bucket.
     bool satisfies_invariants() const {
-        for (size_t b = 0; b < bit_buckets.size() - 1; b++) {
+        for (size_t b = 0; b < bit_buckets.size(); b++) {
             for (size_t k = 0; k < bit_buckets[b].size(); k++) {
                 if (cur_bit_bucket_for(bit_buckets[b][k].time) != b) {
                     return false;
@@ -167,7 +167,7 @@ struct radix_heap_queue {
     /// during normal operation.
     std::vector<FloodCheckEvent> to_vector() const {
         std::vector<FloodCheckEvent> result;
-        for (size_t b = 0; b < bit_buckets.size() - 1; b++) {
+        for (size_t b = 0; b < bit_buckets.size(); b++) {
             result.insert(result.begin(), bit_buckets[b].begin(), bit_buckets[b].end());
         }
         std::sort(result.begin(), result.end(), [](const FloodCheckEvent &e1, const FloodCheckEvent &e2) {
@@ -189,7 +189,7 @@ template <bool use_validation>
 std::ostream &operator<<(std::ostream &out, radix_heap_queue<use_validation> q) {
     out << "bit_bucket_queue {\n";
     out << "    cur_time=" << q.cur_time << "\n";
-    for (size_t b = 0; b < q.bit_buckets.size() - 1; b++) {
+    for (size_t b = 0; b < q.bit_buckets.size(); b++) {
         auto copy = q.bit_buckets[b];
         if (!copy.empty()) {
             out << "    bucket[" << b << "] {\n";
-- 
2.43.0


From b2ff2233d894a3251632a129e6bfbe5f1cb9463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 15/15] fix: apply implied weights to the edges that remain
 after set_boundary

A model loaded with correlations threw 'Failed to find neighbor' from every
decode once some of its nodes were made boundary nodes, because the implied
weights still named edges that had become boundary edges or were not added
to the matching graph. Name the corresponding edges of the graph being
built, and omit rules for edges that are not in it.
---
 .../sparse_blossom/driver/user_graph.h        | 54 +++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/src/pymatching/sparse_blossom/driver/user_graph.h b/src/pymatching/sparse_blossom/driver/user_graph.h
index 4fedb99..ca52ffc 100644
--- a/src/pymatching/sparse_blossom/driver/user_graph.h
+++ b/src/pymatching/sparse_blossom/driver/user_graph.h
@@ -150,9 +150,9 @@ inline double UserGraph::iter_discretized_edges(
         bool node1_boundary = is_boundary_node(e.node1);
         bool node2_boundary = is_boundary_node(e.node2);
         if (node2_boundary && !node1_boundary) {
-            boundary_edge_func(e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
         } else if (node1_boundary && !node2_boundary) {
-            boundary_edge_func(e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
+            boundary_edge_func(e.node2, e.node1, w, e.observable_indices, e.implied_weights_for_other_edges);
         } else if (!node1_boundary) {
             edge_func(e.node1, e.node2, w, e.observable_indices, e.implied_weights_for_other_edges);
         }
@@ -169,25 +169,71 @@ inline double UserGraph::to_matching_or_search_graph_helper(
     // that parallel boundary edges with negative edge weights can be handled correctly
     std::vector<bool> has_boundary_edge(nodes.size(), false);
     std::vector<pm::signed_weight_int> boundary_edge_weights(nodes.size());
+    // The boundary node (SIZE_MAX for the virtual boundary) of the boundary edge kept for each node
+    std::vector<size_t> boundary_edge_boundary_nodes(nodes.size(), SIZE_MAX);
     std::vector<std::vector<size_t>> boundary_edge_observables(nodes.size());
     std::vector<std::vector<ImpliedWeightUnconverted>> boundary_edge_implied_weights_unconverted(nodes.size());
 
     double normalising_constant = iter_discretized_edges(
         num_distinct_weights,
-        edge_func,
+        [](size_t,
+           size_t,
+           pm::signed_weight_int,
+           const std::vector<size_t>&,
+           const std::vector<ImpliedWeightUnconverted>&) {
+        },
         [&](size_t u,
+            size_t boundary_node,
             pm::signed_weight_int weight,
             const std::vector<size_t>& observables,
             const std::vector<ImpliedWeightUnconverted>& implied_weights_for_other_edges) {
             // For parallel boundary edges, keep the boundary edge with the smaller weight
             if (!has_boundary_edge[u] || boundary_edge_weights[u] > weight) {
                 boundary_edge_weights[u] = weight;
+                boundary_edge_boundary_nodes[u] = boundary_node;
                 boundary_edge_observables[u] = observables;
                 has_boundary_edge[u] = true;
                 boundary_edge_implied_weights_unconverted[u] = implied_weights_for_other_edges;
             }
         });
 
+    // The implied weights refer to edges of the user graph. Refer to the corresponding edges of the graph being built,
+    // omitting edges that are not added to it (self-loops, edges between boundary nodes and discarded parallel
+    // boundary edges).
+    auto implied_weights_for_added_edges = [&](const std::vector<ImpliedWeightUnconverted>& implied_weights) {
+        std::vector<ImpliedWeightUnconverted> added;
+        for (const auto& rule : implied_weights) {
+            bool node1_boundary = is_boundary_node(rule.node1);
+            bool node2_boundary = is_boundary_node(rule.node2);
+            if (!node1_boundary && !node2_boundary) {
+                if (rule.node1 != rule.node2)
+                    added.push_back(rule);
+            } else if (node1_boundary != node2_boundary) {
+                size_t node = node1_boundary ? rule.node2 : rule.node1;
+                size_t boundary_node = node1_boundary ? rule.node1 : rule.node2;
+                if (has_boundary_edge[node] && boundary_edge_boundary_nodes[node] == boundary_node)
+                    added.push_back({node, SIZE_MAX, rule.implied_weight});
+            }
+        }
+        return added;
+    };
+
+    iter_discretized_edges(
+        num_distinct_weights,
+        [&](size_t u,
+            size_t v,
+            pm::signed_weight_int weight,
+            const std::vector<size_t>& observables,
+            const std::vector<ImpliedWeightUnconverted>& implied_weights_for_other_edges) {
+            edge_func(u, v, weight, observables, implied_weights_for_added_edges(implied_weights_for_other_edges));
+        },
+        [](size_t,
+           size_t,
+           pm::signed_weight_int,
+           const std::vector<size_t>&,
+           const std::vector<ImpliedWeightUnconverted>&) {
+        });
+
     // Now add boundary edges to the graph
     for (size_t i = 0; i < has_boundary_edge.size(); i++) {
         if (has_boundary_edge[i])
@@ -195,7 +241,7 @@ inline double UserGraph::to_matching_or_search_graph_helper(
                 i,
                 boundary_edge_weights[i],
                 boundary_edge_observables[i],
-                boundary_edge_implied_weights_unconverted[i]);
+                implied_weights_for_added_edges(boundary_edge_implied_weights_unconverted[i]));
     }
     return normalising_constant;
 }
-- 
2.43.0

