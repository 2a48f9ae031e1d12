From 9976eb2b949714a8b69ec81f49c190f7265465fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/35] fix: DynamicParallelForRangeLoop async backend ignored
 range_start

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From b2c6ba5e8b42eb3007d4137e1c726dc2ddc2b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 02/35] fix: static OpenMP loops gave several work ranges the
 same thread number in nested or limited teams

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index d8e02bc..a622352 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -189,7 +189,7 @@ void StaticParallelForRangeLoop(
             range_start, range_end, real_num_threads, thread_num);
         const ThreadWorkRange work_range(
             thread_range_start_end.first, thread_range_start_end.second,
-            openmp_helpers::GetContextOmpThreadNum());
+            thread_num);
         functor(work_range);
       }
       catch (...)
-- 
2.43.0


From 8739f457a661b503acc0cb2f925860e9852576b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 03/35] fix: AddNodeToRoadmap mixed up edge directions when
 adding asymmetric connections from the new state

With connection_is_symmetric = false and NEW_STATE_TO_ROADMAP the distance
from KNN is the new-state-to-roadmap distance, but it was used (and its
validity swapped) as the roadmap-to-new-state one.
---
 .../simple_prm_planner.hpp                    | 31 +++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..b6aeec1 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,8 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
+    // The KNN distance is in the direction of the KNN query.
+    const double knn_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +283,27 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(knn_distance, knn_distance);
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+      // KNN provides the distance in one direction, compute the other.
+      const double graph_to_node_distance
+          = (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
+              ? knn_distance : distance_fn(nearest_neighbor_state, state);
       const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+          = (nn_distance_direction == NNDistanceDirection::NEW_STATE_TO_ROADMAP)
+              ? knn_distance : distance_fn(state, nearest_neighbor_state);
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From 5eae6235262361e6fb0c5b7450d1a8f6ae4021e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 04/35] fix: GraphKNNProvider did not refuse negative neighbor
 indices, contrary to its documented range

---
 include/common_robotics_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index b6aeec1..35a8973 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -115,7 +115,7 @@ private:
   {
     for (const auto& neighbor : nearest_neighbors)
     {
-      if (neighbor.Index() >= roadmap_size ||
+      if (neighbor.Index() < 0 || neighbor.Index() >= roadmap_size ||
           neighbor.Index() >= max_node_index_for_knn)
       {
         throw std::runtime_error(
-- 
2.43.0


From baace0640a03c3fa920428a4a73cb015b94e5e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 05/35] fix: AddNodeAndConnect with a parent not in the tree
 left a badly linked node behind

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..0c29a92 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,11 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    // Check the parent before adding, so that the tree's linkage stays valid.
+    if ((parent_index < 0) || (parent_index >= Size()))
+    {
+      throw std::out_of_range("parent_index is not a node in the tree");
+    }
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From c1afdf4b355acd2dfd846c7874b7314d4fe5cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 06/35] fix: RRTPlanMultiPath called an optional goal callback
 without checking it was provided

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 0c29a92..ee9cc1f 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -710,7 +710,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
-- 
2.43.0


From d54005d2b0d42dbee2c51096e41c76c4c85b4b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 07/35] fix: BiRRTPlanMultiPath called an optional goal bridge
 callback without checking it was provided

---
 .../common_robotics_utilities/simple_rrt_planner.hpp  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index ee9cc1f..cd9520b 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -966,10 +966,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From ebf523f062eae49891f7631f97684a59bb6d7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 08/35] fix: voxel grid OnMutableAccess(GridIndex) passed the y
 index as z

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From 6afb2b157af220e6112fc7165102095eb29d9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 09/35] fix: mutable chunk accessors of dynamic spatial hashed
 voxel grid were const and could not be instantiated

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..620ef6c 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -417,7 +417,7 @@ public:
   }
 
   DynamicSpatialHashedGridQuery<T> GetIndexMutable(
-      const GridIndex& internal_cell_index) const
+      const GridIndex& internal_cell_index)
   {
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -1058,7 +1058,7 @@ public:
     return chunks_;
   }
 
-  ChunkMap& GetMutableInternalChunks() const
+  ChunkMap& GetMutableInternalChunks()
   {
     if (OnMutableRawAccess())
     {
-- 
2.43.0


From 6dd26a90e687bc58caa9f212c6b0d83acd313e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 10/35] fix: locations rounded onto a chunk border of a dynamic
 spatial hashed voxel grid were refused with an exception

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 63 ++++++++++++-------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 620ef6c..df44623 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -176,37 +176,52 @@ private:
   GridSizes sizes_;
   DSHVGFillStatus fill_status_ = DSHVGFillStatus::NOT_FILLED;
 
+  // Cell containing the provided offset from the chunk base along one axis, or
+  // -1 if the offset is not in the chunk. Which chunk contains a location is
+  // computed separately, so floating-point rounding can place a location on (or
+  // next to) a chunk border slightly outside of the chunk found to contain it.
+  // Such locations belong to the cell at the border.
+  static int64_t GetOffsetCell(
+      const double offset, const double cell_size, const int64_t num_cells)
+  {
+    constexpr double border_tolerance = 1e-6;
+    const double raw_cell = offset / cell_size;
+    if (raw_cell >= 0.0 && raw_cell < static_cast<double>(num_cells))
+    {
+      return static_cast<int64_t>(std::floor(raw_cell));
+    }
+    else if (raw_cell < 0.0 && raw_cell > -border_tolerance)
+    {
+      return 0;
+    }
+    else if (raw_cell >= static_cast<double>(num_cells) &&
+             raw_cell < static_cast<double>(num_cells) + border_tolerance)
+    {
+      return num_cells - 1;
+    }
+    else
+    {
+      return -1;
+    }
+  }
+
   int64_t GetLocationDataIndex(const Eigen::Vector4d& location) const
   {
     const Eigen::Vector4d location_wrt_chunk = location - region_.Base();
-    // First, make sure the location is in the range this chunk covers
-    if (location_wrt_chunk(0) < 0.0
-        || location_wrt_chunk(1) < 0.0
-        || location_wrt_chunk(2) < 0.0
-        || location_wrt_chunk(0) >= sizes_.XSize()
-        || location_wrt_chunk(1) >= sizes_.YSize()
-        || location_wrt_chunk(2) >= sizes_.ZSize())
+    const int64_t x_cell = GetOffsetCell(
+        location_wrt_chunk(0), sizes_.CellXSize(), sizes_.NumXCells());
+    const int64_t y_cell = GetOffsetCell(
+        location_wrt_chunk(1), sizes_.CellYSize(), sizes_.NumYCells());
+    const int64_t z_cell = GetOffsetCell(
+        location_wrt_chunk(2), sizes_.CellZSize(), sizes_.NumZCells());
+    // Make sure the location is in the range this chunk covers
+    if (sizes_.IndexInBounds(x_cell, y_cell, z_cell))
     {
-      return -1;
+      return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
     }
-    // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
-          || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
-      {
-        return -1;
-      }
-      else
-      {
-        return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      return -1;
     }
   }
 
-- 
2.43.0


From 4349c58c2cde6fab4a86f89fd401bb862c022e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 11/35] fix: a write allocating a chunk asked OnMutableAccess
 twice, so a write refused the second time still created the chunk

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 50 ++++++++-----------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index df44623..5004978 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -952,25 +952,22 @@ public:
     {
       const ChunkRegion region = GetContainingChunkRegion(grid_frame_location);
       auto found_chunk_itr = chunks_.find(region);
-      if (found_chunk_itr != chunks_.end())
-      {
-        if (set_type == DSHVGSetType::SET_CELL)
-        {
-          return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
-        }
-        else
-        {
-          return found_chunk_itr->second.SetChunkValue(value);
-        }
-      }
-      else
+      if (found_chunk_itr == chunks_.end())
       {
         const DSHVGFillType fill_type
             = (set_type == DSHVGSetType::SET_CELL)
                 ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK;
         AllocateChunkAt(region, fill_type);
-        return SetLocation4d(location, set_type, value);
+        found_chunk_itr = chunks_.find(region);
+      }
+      if (set_type == DSHVGSetType::SET_CELL)
+      {
+        return found_chunk_itr->second.SetCellLocation4d(
+            grid_frame_location, value);
+      }
+      else
+      {
+        return found_chunk_itr->second.SetChunkValue(value);
       }
     }
     else
@@ -1005,25 +1002,22 @@ public:
     {
       const ChunkRegion region = GetContainingChunkRegion(grid_frame_location);
       auto found_chunk_itr = chunks_.find(region);
-      if (found_chunk_itr != chunks_.end())
-      {
-        if (set_type == DSHVGSetType::SET_CELL)
-        {
-          return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
-        }
-        else
-        {
-          return found_chunk_itr->second.SetChunkValue(value);
-        }
-      }
-      else
+      if (found_chunk_itr == chunks_.end())
       {
         const DSHVGFillType fill_type
             = (set_type == DSHVGSetType::SET_CELL)
                 ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK;
         AllocateChunkAt(region, fill_type);
-        return SetLocation4d(location, set_type, value);
+        found_chunk_itr = chunks_.find(region);
+      }
+      if (set_type == DSHVGSetType::SET_CELL)
+      {
+        return found_chunk_itr->second.SetCellLocation4d(
+            grid_frame_location, value);
+      }
+      else
+      {
+        return found_chunk_itr->second.SetChunkValue(value);
       }
     }
     else
-- 
2.43.0


From a3882769f83c6855575a88ef240a3bf9dc00a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 12/35] fix: network serialization of std::string failed a
 static assertion

---
 include/common_robotics_utilities/serialization.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..f831afc 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -708,7 +708,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     std::vector<uint8_t>& buffer,
     const uint64_t buffer_position)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
@@ -765,7 +766,8 @@ template<typename T>
 inline uint64_t SerializeNetworkMemcpyable(const T& item_to_serialize,
                                            std::vector<uint8_t>& buffer)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
@@ -816,7 +818,8 @@ template<typename T>
 inline Deserialized<T> DeserializeNetworkMemcpyable(
     const std::vector<uint8_t>& buffer, const uint64_t starting_offset)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
-- 
2.43.0


From a04b23be1d9d3a4f5d7b7feaeb7a8fa5f79b93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 13/35] fix: matrices without elements were serialized by
 copying past the end of the buffer

---
 src/common_robotics_utilities/serialization.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..dd9ddfe 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -49,8 +49,11 @@ uint64_t SerializeMatrixXd(
   const size_t serialized_length = sizeof(double) * rows * cols;
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
-  // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Serialize the contained items, if any (an empty matrix has no first byte)
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -143,7 +146,11 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   }
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only copy if there is something to copy
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From a5015d01bbd182ff347ebfb25ee8dcf53fa11a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 14/35] fix: assigning an OwningMaybe from a value whose copy
 throws destroyed the old value twice

---
 include/common_robotics_utilities/maybe.hpp | 22 +++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..f7bba66 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -33,6 +33,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -52,12 +57,20 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
   void Cleanup()
   {
-    switch (type_)
+    const auto type = type_;
+    // If constructing a replacement value throws, nothing is left to clean up.
+    type_ = TYPE_NONE;
+    switch (type)
     {
       case TYPE_A:
       {
@@ -69,6 +82,10 @@ private:
         value_b_.~B();
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
   }
 
@@ -79,7 +96,8 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  // TYPE_NONE means that constructing a value during assignment failed.
+  enum {TYPE_A, TYPE_B, TYPE_NONE} type_ = TYPE_NONE;
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
-- 
2.43.0


From 31a46941c28057595978fae9549879bda264627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 15/35] fix: ChangeOmpNumThreadsWrapper restored the current
 team size instead of the setting found on entry

---
 include/common_robotics_utilities/openmp_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index f10557c..ecfce97 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -162,7 +162,9 @@ public:
     {
       throw std::invalid_argument("num_threads must be greater than zero");
     }
-    starting_num_omp_threads_ = GetNumOmpThreads();
+    // Save the setting itself, not the size of the team it gives now, which may
+    // be smaller (thread limit, dynamic adjustment).
+    starting_num_omp_threads_ = GetContextMaxNumOmpThreads();
 #if defined(_OPENMP)
     omp_set_num_threads(num_threads);
 #endif
-- 
2.43.0


From 47d6d8d8969a2ab6dbdfd20098fadc3db127af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 16/35] fix: K-means refuses more clusters than items instead
 of running forever

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..d298da4 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,12 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (num_clusters > static_cast<int64_t>(data.size()))
+  {
+    // Initial cluster centers are distinct elements of data, so there must be
+    // enough of them to draw from.
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From 09a2e182a1d708a7b8f96b6bfdc1a69fcfb604e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 17/35] fix: warping cost takes the cheapest neighbor also when
 two are tied

---
 include/common_robotics_utilities/simple_dtw.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..2a8b2a4 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -91,11 +91,11 @@ public:
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
+        if (im1j <= im1jm1 && im1j <= ijm1)
         {
           prev_cost = im1j;
         }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
+        else if (ijm1 <= im1j && ijm1 <= im1jm1)
         {
           prev_cost = ijm1;
         }
-- 
2.43.0


From 7657b627d1c101cf9bd4daa1778ef6668cb8db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 18/35] fix: seeding XorShift1024StarPRNG also resets its
 position

---
 include/common_robotics_utilities/simple_prngs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..ba6ae8a 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -173,6 +173,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From 5275809498308306f228ce48bce5610270a553cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 19/35] fix: CompressAndWriteToFile reports files that cannot
 be written

---
 src/common_robotics_utilities/zlib_helpers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 4ea45b5..21c76a3 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -156,9 +156,17 @@ void CompressAndWriteToFile(
 {
   const auto compressed = CompressBytes(uncompressed);
   std::ofstream output_file(filename, std::ios::out | std::ios::binary);
+  if (!output_file.is_open())
+  {
+    throw std::runtime_error("Failed to open file [" + filename + "]");
+  }
   output_file.write(reinterpret_cast<const char*>(compressed.data()),
                     static_cast<std::streamsize>(compressed.size()));
   output_file.close();
+  if (!output_file)
+  {
+    throw std::runtime_error("Failed to write entire contents of file");
+  }
 }
 } // namespace zlib_helpers
 CRU_NAMESPACE_END
-- 
2.43.0


From 14e1e56485806d8de26d51e4bd5243744cfe2cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 20/35] fix: a copied trajectory no longer keeps an iterator
 into the original's steps

Copying (or cloning) a trajectory copied its cached segment iterator, which
refers to the step list of the original. Querying the copy at a time at or
after the cached one walked the original's list, which may have been
destroyed.
---
 .../time_optimal_trajectory_parametrization.cpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..93e13a6 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -273,6 +273,10 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // The cached segment refers to elements of the trajectory it was cached in,
+  // so a copy must start without one.
+  Trajectory(const Trajectory& other);
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
@@ -578,6 +582,15 @@ Trajectory::Trajectory(const Path& path,
   }
 }
 
+Trajectory::Trajectory(const Trajectory& other)
+  : path_(other.path_),
+    max_velocity_(other.max_velocity_),
+    max_acceleration_(other.max_acceleration_),
+    n_(other.n_),
+    trajectory_(other.trajectory_),
+    time_step_(other.time_step_),
+    cached_time_(std::numeric_limits<double>::max()) {}
+
 /* Part of the original TOTP implementation, disabled here since it is unused.
 void Trajectory::OutputPhasePlaneTrajectory() const
 {
-- 
2.43.0


From 743c81a48c7b3389f4fd693fced0d49b4fcfb697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 21/35] fix: GetUniformRandomInRange handles ranges wider than
 the type

end - start overflowed for signed types and the number of values in the
range did not fit in SizeType, e.g. uint8_t [0, 255] and int8_t [-100, 100]
threw, and wide int32_t ranges were undefined behaviour.
---
 include/common_robotics_utilities/utility.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/utility.hpp b/include/common_robotics_utilities/utility.hpp
index 72d9a62..ae36347 100644
--- a/include/common_robotics_utilities/utility.hpp
+++ b/include/common_robotics_utilities/utility.hpp
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
+#include <cmath>
+#include <cstdint>
 #include <cstdlib>
 #include <functional>
 #include <future>
@@ -261,10 +264,15 @@ SizeType GetUniformRandomInRange(
   {
     throw std::invalid_argument("start must be <= end");
   }
-  const SizeType range = end - start;
-  const SizeType offset =
-      GetUniformRandomIndex<SizeType>(uniform_unit_real_fn, range + 1);
-  return start + offset;
+  // Neither end - start nor the number of values in the range need fit in
+  // SizeType, so the range is computed modulo 2^64 and the count as a double.
+  const uint64_t range =
+      static_cast<uint64_t>(end) - static_cast<uint64_t>(start);
+  const uint64_t offset = std::min(
+      static_cast<uint64_t>(std::floor(
+          uniform_unit_real_fn() * (static_cast<double>(range) + 1.0))),
+      range);
+  return static_cast<SizeType>(static_cast<uint64_t>(start) + offset);
 }
 
 template <class T>
-- 
2.43.0


From a1d9ee38049bef27def489ec9fa36a84abfe94fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 22/35] fix: AverageContinuousRevolute ignored the wrap of the
 angles it averages

---
 src/common_robotics_utilities/math.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 108a219..fcce334 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -749,7 +749,22 @@ double ComputeStdDevStdVectorDouble(const std::vector<double>& values)
 double AverageContinuousRevolute(const std::vector<double>& angles,
                                  const std::vector<double>& weights)
 {
-  return AverageStdVectorDouble(angles, weights);
+  // Average the signed distances from the first angle with non-zero weight, so
+  // that angles on both sides of the [-pi,pi) wrap are averaged correctly.
+  size_t reference_idx = 0;
+  while (reference_idx < weights.size() && weights[reference_idx] == 0.0)
+  {
+    reference_idx++;
+  }
+  const double reference
+      = (reference_idx < angles.size()) ? angles[reference_idx] : 0.0;
+  std::vector<double> distances(angles.size(), 0.0);
+  for (size_t idx = 0; idx < angles.size(); idx++)
+  {
+    distances[idx] = ContinuousRevoluteSignedDistance(reference, angles[idx]);
+  }
+  return AddContinuousRevoluteValues(
+      reference, AverageStdVectorDouble(distances, weights));
 }
 
 Eigen::Vector3d AverageEigenVector3d(const VectorVector3d& vectors,
-- 
2.43.0


From 6a62c3ad67f9d4a80826e6748bb43eaf58228916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 23/35] fix: GetArbitraryOrthogonalVector returned rounding
 noise parallel to the vector

---
 include/common_robotics_utilities/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 5e885d5..96d0de6 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -450,6 +450,10 @@ GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
   const ssize_t vector_size = vector.size();
   if (vector_size > 0)
   {
+    // Rejecting a unit axis that is (nearly) parallel to vector leaves nothing
+    // but numerical noise. In two or more dimensions, at least one axis is left
+    // with half of its squared norm or more.
+    const auto min_squared_norm = static_cast<typename DerivedV::Scalar>(0.25);
     for (ssize_t idx = 0; idx < vector_size; idx++)
     {
       Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1> test_vector
@@ -459,7 +463,7 @@ GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
       const auto rejected_vector = VectorRejection(vector, test_vector);
       const typename DerivedV::Scalar rejected_vector_squared_norm
           = rejected_vector.squaredNorm();
-      if (rejected_vector_squared_norm > 0)
+      if (rejected_vector_squared_norm > min_squared_norm)
       {
         return rejected_vector;
       }
-- 
2.43.0


From d82fc84613cc80b3be00345cda492dde91d437e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 24/35] fix: GetArbitraryOrthogonalVectorToPlane could not be
 instantiated

---
 include/common_robotics_utilities/math.hpp | 57 +++++++++-------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 96d0de6..0afa360 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <functional>
+#include <limits>
 #include <map>
 #include <vector>
 
@@ -489,43 +490,31 @@ GetArbitraryOrthogonalVectorToPlane(
       && (vector_size == plane_vector1.size())
       && (vector_size == plane_vector2.size()))
   {
-    const Eigen::MatrixBase<DerivedV> unit_plane_vector1
-        = plane_vector1 / plane_vector1.norm();
-    const Eigen::MatrixBase<DerivedV> unit_plane_vector2
-        = plane_vector2 / plane_vector2.norm();
-    const typename DerivedV::Scalar plane_vector_dot_product_mag
-        = std::abs(unit_plane_vector1.dot(unit_plane_vector2));
-    if (plane_vector_dot_product_mag == 1.0)
+    using VectorType = Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>;
+    const VectorType unit_plane_vector1 = plane_vector1 / plane_vector1.norm();
+    const VectorType unit_plane_vector2 = plane_vector2 / plane_vector2.norm();
+    // Compare the part of one plane vector orthogonal to the other, since the
+    // dot product of parallel unit vectors is rarely exactly 1.
+    const typename DerivedV::Scalar tolerance
+        = std::sqrt(std::numeric_limits<typename DerivedV::Scalar>::epsilon());
+    const bool valid_plane
+        = VectorRejection(unit_plane_vector1, unit_plane_vector2).norm()
+              > tolerance
+          && VectorRejection(unit_plane_vector2, unit_plane_vector1).norm()
+              > tolerance;
+    if (!valid_plane)
     {
       throw std::invalid_argument("Plane vectors do not define a valid plane");
     }
-    else
-    {
-      // Try both plane vectors
-      // (by definition, one of the two MUST have an orthogonal component!)
-      const auto rejected_vector1 = VectorRejection(vector, plane_vector1);
-      const typename DerivedV::Scalar rejected_vector1_squared_norm
-          = rejected_vector1.squaredNorm();
-      if (rejected_vector1_squared_norm > 0)
-      {
-        return rejected_vector1;
-      }
-      else
-      {
-        const auto rejected_vector2 = VectorRejection(vector, plane_vector2);
-        const typename DerivedV::Scalar rejected_vector2_squared_norm
-            = rejected_vector2.squaredNorm();
-        if (rejected_vector2_squared_norm > 0)
-        {
-          return rejected_vector2;
-        }
-        else
-        {
-          throw std::runtime_error("Vector rejection failed to find orthogonal"
-                                   " vector, probably numerical error");
-        }
-      }
-    }
+    // Try both plane vectors
+    // (by definition, one of the two MUST have an orthogonal component!)
+    const VectorType rejected_vector1
+        = VectorRejection(vector, unit_plane_vector1);
+    const VectorType rejected_vector2
+        = VectorRejection(vector, unit_plane_vector2);
+    // The smaller one may be nothing but numerical noise.
+    return (rejected_vector1.norm() >= rejected_vector2.norm())
+        ? rejected_vector1 : rejected_vector2;
   }
   else
   {
-- 
2.43.0


From 426913daf471e064675ca73384dc5020f790ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 25/35] fix: Print of a std::forward_list uses size(), which it
 does not have

---
 include/common_robotics_utilities/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/print.hpp b/include/common_robotics_utilities/print.hpp
index f844797..9897c90 100644
--- a/include/common_robotics_utilities/print.hpp
+++ b/include/common_robotics_utilities/print.hpp
@@ -507,7 +507,7 @@ inline std::string Print(const std::forward_list<T, Allocator>& listtoprint,
                          const std::string& separator)
 {
   std::ostringstream strm;
-  if (listtoprint.size() > 0)
+  if (!listtoprint.empty())
   {
     if (add_delimiters)
     {
-- 
2.43.0


From 28f9397593e7ca204f0d4aa18dfe8bc5dbcca6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 26/35] fix: gaussian_distributions.hpp did not compile
 (unqualified NONE, missing includes)

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b7c0aa2..92ab954 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -2,8 +2,12 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
+#include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <Eigen/Geometry>
 #include <common_robotics_utilities/cru_namespace.hpp>
 
@@ -152,7 +156,7 @@ private:
   double std_upper_bound_ = 0.0;
 
   enum class DrawCases {TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE};
-  DrawCases case_ = NONE;
+  DrawCases case_ = DrawCases::NONE;
   std::uniform_real_distribution<double> uniform_unit_dist_;
   std::uniform_real_distribution<double> uniform_range_dist_;
   std::exponential_distribution<double> exponential_dist_;
-- 
2.43.0


From 77a8af1428a79d399eb0a628a3be57a7e0f504c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 27/35] fix: TruncatedGaussianDistribution drew from
 unstandardized bounds

ComplexAcceptReject works on the standardized distribution, but its
uniform proposals spanned the bounds as given, so samples left them.
---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 92ab954..a464856 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -305,8 +305,7 @@ public:
   TruncatedGaussianDistribution(
       const double mean, const double stddev, const double lower_bound,
       const double upper_bound)
-    : uniform_unit_dist_(0.0, 1.0),
-      uniform_range_dist_(lower_bound, upper_bound),
+    : uniform_unit_dist_(0.0, 1.0), uniform_range_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
     // Set operating parameters
@@ -351,6 +350,9 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
+          // Draws are made in the standardized range
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
         }
       }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
-- 
2.43.0


From 91cb37dbd758f8407d4442a9f064fec2a254a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 28/35] fix: TruncatedGaussianDistribution with degenerate or
 contradictory bounds

Equal bounds at the mean made sampling loop forever, a zero stddev ignored
the bounds, and reversed bounds were not refused as elsewhere in this file.
---
 .../gaussian_distributions.hpp                      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index a464856..78e25c5 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <limits>
@@ -308,11 +309,21 @@ public:
     : uniform_unit_dist_(0.0, 1.0), uniform_range_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
+    if (lower_bound > upper_bound)
+    {
+      throw std::invalid_argument("lower_bound > upper_bound");
+    }
+    if (stddev < 0.0)
+    {
+      throw std::invalid_argument("stddev < 0");
+    }
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
-    if (std::abs(stddev_) == 0.0)
+    if (stddev_ == 0.0 || lower_bound == upper_bound)
     {
+      // All of the distribution is at a single value within the bounds
+      mean_ = std::min(std::max(mean, lower_bound), upper_bound);
       case_ = DrawCases::NONE;
     }
     else
-- 
2.43.0


From b5da7083c74adbc9d31cacb628fa85f82f1b2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 29/35] fix: MultivariteGaussianDistribution refused every
 covariance of more than one dimension

---
 .../gaussian_distributions.hpp                       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 78e25c5..d8379bc 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -403,8 +403,12 @@ private:
   }
 
   static Eigen::MatrixXd CalculateNormTransform(
-      const Eigen::MatrixXd& covariance)
+      const Eigen::VectorXd& mean, const Eigen::MatrixXd& covariance)
   {
+    if (mean.rows() != covariance.rows() || mean.rows() != covariance.cols())
+    {
+      throw std::invalid_argument("mean and covariance are different sizes");
+    }
     Eigen::MatrixXd norm_transform;
     Eigen::LLT<Eigen::MatrixXd> chol_solver(covariance);
     if (chol_solver.info() == Eigen::Success)
@@ -426,13 +430,9 @@ private:
 public:
   MultivariteGaussianDistribution(
       const Eigen::VectorXd& mean, const Eigen::MatrixXd& covariance)
-      : mean_(mean), norm_transform_(CalculateNormTransform(covariance)),
+      : mean_(mean), norm_transform_(CalculateNormTransform(mean, covariance)),
         unit_gaussian_dist_(0.0, 1.0)
   {
-    if (mean_.rows() != covariance.rows() || mean_.cols() != covariance.cols())
-    {
-      throw std::invalid_argument("mean and covariance are different sizes");
-    }
     const auto nan_check = [] (const double& val) { return std::isnan(val); };
     if ((norm_transform_.unaryExpr(nan_check)).any())
     {
-- 
2.43.0


From 9968fc01bb1e5f8542d2e63194e2193e0478ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 30/35] fix: TOTP trajectories jumped in velocity at unblended
 corners, reversals and repeated waypoints

At a corner without an allowed deviation, and at a turn back, the direction of
travel jumps; passing it at speed exceeded the acceleration limits without
bound. Such corners are now passed at rest. Repeated waypoints, which hid a
corner, or at the end gave NaN or a crash, are dropped.
---
 ...ime_optimal_trajectory_parametrization.cpp | 76 ++++++++++++++++---
 1 file changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 93e13a6..e94a4ca 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -40,6 +40,7 @@
  */
 
 #include <fstream>
+#include <iterator>
 #include <list>
 #include <memory>
 #include <stdexcept>
@@ -1151,12 +1152,40 @@ std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(
                         path_.GetTangent(path_pos) * path_vel);
 }
 
-std::list<Eigen::VectorXd> MakeWaypointListFromWaypointVector(
-    const std::vector<Eigen::VectorXd>& path)
+/// Split the waypoints of @param path into stretches that can be followed
+/// without stopping. At a turn that is not blended (because there is no
+/// allowed deviation, or because the path turns back on itself) the direction
+/// of travel jumps, so it can only be passed at rest, ending one stretch and
+/// starting another. Repeated waypoints are dropped.
+std::vector<std::list<Eigen::VectorXd>> SplitWaypointsAtStops(
+    const std::vector<Eigen::VectorXd>& path, const double max_deviation)
 {
-  std::list<Eigen::VectorXd> waypoint_list;
-  waypoint_list.insert(waypoint_list.end(), path.begin(), path.end());
-  return waypoint_list;
+  std::vector<std::list<Eigen::VectorXd>> stretches(1);
+  for (const auto& waypoint : path)
+  {
+    const auto& stretch = stretches.back();
+    if (!stretch.empty() && (waypoint - stretch.back()).norm() < 0.000001)
+    {
+      continue;
+    }
+    if (stretch.size() >= 2)
+    {
+      const Eigen::VectorXd corner = stretch.back();
+      const Eigen::VectorXd before = *std::prev(stretch.end(), 2);
+      const Eigen::VectorXd start_direction = (corner - before).normalized();
+      const Eigen::VectorXd end_direction = (waypoint - corner).normalized();
+      const bool turn = (start_direction - end_direction).norm() >= 0.000001;
+      const bool blended
+          = max_deviation > 0.0
+            && (start_direction + end_direction).norm() >= 0.001;
+      if (turn && !blended)
+      {
+        stretches.push_back(std::list<Eigen::VectorXd>{corner});
+      }
+    }
+    stretches.back().push_back(waypoint);
+  }
+  return stretches;
 }
 
 /// Implementation of PositionVelocityTrajectoryInterface for TOTP trajectories.
@@ -1168,9 +1197,15 @@ public:
       const Eigen::VectorXd& max_velocity,
       const Eigen::VectorXd& max_acceleration,
       const double max_deviation, const double timestep)
-      : totp_trajectory_(Trajectory(
-          MakeWaypointListFromWaypointVector(path), max_velocity,
-          max_acceleration, max_deviation, timestep)) {}
+  {
+    const auto stretches = SplitWaypointsAtStops(path, max_deviation);
+    totp_trajectories_.reserve(stretches.size());
+    for (const auto& stretch : stretches)
+    {
+      totp_trajectories_.emplace_back(
+          stretch, max_velocity, max_acceleration, max_deviation, timestep);
+    }
+  }
 
   std::unique_ptr<PositionVelocityTrajectoryInterface> Clone() const override
   {
@@ -1178,18 +1213,37 @@ public:
         new TOTPTrajectoryImpl(*this));
   }
 
-  double Duration() const override { return totp_trajectory_.Duration(); }
+  double Duration() const override
+  {
+    double duration = 0.0;
+    for (const auto& totp_trajectory : totp_trajectories_)
+    {
+      duration += totp_trajectory.Duration();
+    }
+    return duration;
+  }
 
   PositionVelocityTimePoint GetPositionVelocityTimePoint(
       const double time) const override
   {
-    const auto position_velocity = totp_trajectory_.GetPositionVelocity(time);
+    // Find the part of the trajectory at the given time
+    double part_time = time;
+    size_t part = 0;
+    while (part + 1 < totp_trajectories_.size()
+           && part_time >= totp_trajectories_.at(part).Duration())
+    {
+      part_time -= totp_trajectories_.at(part).Duration();
+      part++;
+    }
+    const auto position_velocity
+        = totp_trajectories_.at(part).GetPositionVelocity(part_time);
     return PositionVelocityTimePoint(
         position_velocity.first, position_velocity.second, time);
   }
 
 private:
-  Trajectory totp_trajectory_;
+  // Parts of the trajectory, each starting and ending at rest.
+  std::vector<Trajectory> totp_trajectories_;
 };
 }  // namespace
 
-- 
2.43.0


From bf426cad22dd85cf941f2d27e76bf595206f2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 31/35] fix: TOTP threw or exceeded acceleration limits where
 limits change at axis-aligned joints of blends

Where a switching point coincides with a discontinuity but for rounding, or a
step lands on the limit curve exactly, integration went wrong: paths such as
(1,-1) (3,1) (5,1) (7,-1) with a deviation of 0.3 were refused, others
exceeded an acceleration limit several times over.
---
 .../time_optimal_trajectory_parametrization.cpp          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index e94a4ca..0c70345 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -825,8 +825,10 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory,
       = switching_points.begin();
   while (true)
   {
+    // A step ends at the next discontinuity, unless it starts there already;
+    // switching points found next to one may be off by rounding.
     while ((next_discontinuity != switching_points.end())
-           && (next_discontinuity->first <= path_pos
+           && (next_discontinuity->first <= path_pos + eps
                || !next_discontinuity->second))
     {
       next_discontinuity++;
@@ -863,8 +865,9 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory,
     }
     trajectory.push_back(TrajectoryStep(path_pos, path_vel));
     mutable_acceleration = GetMinMaxPathAcceleration(path_pos, path_vel, true);
-    if ((path_vel > GetAccelerationMaxPathVelocity(path_pos))
-        || (path_vel > GetVelocityMaxPathVelocity(path_pos)))
+    // Landing on the limit curve is not overshooting it
+    if ((path_vel > GetAccelerationMaxPathVelocity(path_pos) + 1e-9)
+        || (path_vel > GetVelocityMaxPathVelocity(path_pos) + 1e-9))
     {
       // Find more accurate intersection with max-velocity curve using bisection
       TrajectoryStep overshoot = trajectory.back();
-- 
2.43.0


From 268d52d865bc76011bdb01d1b0d4092d989c92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:07 +0000
Subject: [PATCH 32/35] fix: VoxelGridBase may be reset with a value it holds

SetContents cleared the backing store before copying the provided value, so
a reference to one of the grid's own cells dangled.
---
 include/common_robotics_utilities/voxel_grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7752a26..dbf4a3d 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -578,9 +578,11 @@ private:
 
   void SetContents(const T& value)
   {
+    // The provided value may be (part of) the contents being replaced.
+    const T new_value = value;
     data_.clear();
     data_.resize(static_cast<typename BackingStore::size_type>(
-        sizes_.TotalCells()), value);
+        sizes_.TotalCells()), new_value);
   }
 
   uint64_t BaseSerializeSelf(
-- 
2.43.0


From f0ae621aaf45c27cec91c42fff962fe0d52be12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:07 +0000
Subject: [PATCH 33/35] fix: DynamicSpatialHashedVoxelGrid may be set with a
 value it holds

Changing a chunk between chunk and cell contents replaced the storage the
provided value refers to before the value was copied.
---
 .../dynamic_spatial_hashed_voxel_grid.hpp          | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 5004978..bf79e06 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -263,8 +263,10 @@ private:
 
   void SetChunkFilledContents(const T& value)
   {
+    // The provided value may be (part of) the contents being replaced.
+    const T new_value = value;
     data_.clear();
-    data_.resize(1, value);
+    data_.resize(1, new_value);
     fill_status_ = DSHVGFillStatus::CHUNK_FILLED;
   }
 
@@ -519,6 +521,9 @@ public:
   DSHVGSetStatus SetCellLocation4d(
       const Eigen::Vector4d& location, const T& value)
   {
+    // The provided value may be (part of) the contents replaced when changing
+    // from chunk to cell contents.
+    const T new_value = value;
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
       const T initial_value = AccessIndex(0);
@@ -530,7 +535,7 @@ public:
       const int64_t data_index = GetLocationDataIndex(location);
       if (data_index >= 0)
       {
-        AccessIndex(data_index) = value;
+        AccessIndex(data_index) = new_value;
         return DSHVGSetStatus::SET_CELL;
       }
       else
@@ -547,6 +552,9 @@ public:
   DSHVGSetStatus SetCellLocation4d(
       const Eigen::Vector4d& location, T&& value)
   {
+    // The provided value may be (part of) the contents replaced when changing
+    // from chunk to cell contents.
+    const T new_value = value;
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
       const T initial_value = AccessIndex(0);
@@ -558,7 +566,7 @@ public:
       const int64_t data_index = GetLocationDataIndex(location);
       if (data_index >= 0)
       {
-        AccessIndex(data_index) = value;
+        AccessIndex(data_index) = new_value;
         return DSHVGSetStatus::SET_CELL;
       }
       else
-- 
2.43.0


From e2eba22fdb00107d6106e4865bd6afbc68e9112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:21 +0000
Subject: [PATCH 34/35] fix: AddNodeToRoadmap may be given a state of the
 roadmap

Adding the new node may reallocate the roadmap's nodes, after which the
provided state reference dangled in the edge checks.
---
 .../common_robotics_utilities/simple_prm_planner.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 35a8973..cabd2d1 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -264,6 +264,10 @@ int64_t AddNodeToRoadmap(
   // Add the new node AFTER KNN is performed
   const int64_t new_node_index = roadmap.AddNode(state);
 
+  // Adding the node invalidates the provided state if it is in the roadmap
+  const T& new_state
+      = roadmap.GetNodeImmutable(new_node_index).GetValueImmutable();
+
   // Parallelize the collision-checking and distance computation
   std::vector<std::pair<double, double>> nearest_neighbors_distances(
       nearest_neighbors.size());
@@ -278,7 +282,7 @@ int64_t AddNodeToRoadmap(
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
-        edge_validity_check_fn(thread_num, nearest_neighbor_state, state);
+        edge_validity_check_fn(thread_num, nearest_neighbor_state, new_state);
     if (graph_to_node_edge_validity && connection_is_symmetric)
     {
       // Distance is symmetric and the edge is valid
@@ -288,14 +292,14 @@ int64_t AddNodeToRoadmap(
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
-          edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+          edge_validity_check_fn(thread_num, new_state, nearest_neighbor_state);
       // KNN provides the distance in one direction, compute the other.
       const double graph_to_node_distance
           = (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-              ? knn_distance : distance_fn(nearest_neighbor_state, state);
+              ? knn_distance : distance_fn(nearest_neighbor_state, new_state);
       const double node_to_graph_distance
           = (nn_distance_direction == NNDistanceDirection::NEW_STATE_TO_ROADMAP)
-              ? knn_distance : distance_fn(state, nearest_neighbor_state);
+              ? knn_distance : distance_fn(new_state, nearest_neighbor_state);
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
-- 
2.43.0


From 8f2ea7c7deb8cf8a9b317c186d0dc378d47e01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:33 +0000
Subject: [PATCH 35/35] fix: Grid sizes with more cells than can be numbered
 are not valid

The number of cells overflowed int64_t for large (for example damaged saved)
cell counts, which is undefined behaviour, and the wrapped total could match
the amount of stored data.
---
 .../common_robotics_utilities/voxel_grid.hpp   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index dbf4a3d..4ba6d65 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -84,6 +84,14 @@ private:
     return (param > 0);
   }
 
+  // The total number of cells must be representable as an int64_t.
+  static bool CheckTotalCells(
+      const double num_x_cells, const double num_y_cells,
+      const double num_z_cells)
+  {
+    return (num_x_cells * num_y_cells * num_z_cells) <= std::ldexp(1.0, 62);
+  }
+
   bool Initialize(
       const double cell_x_size,
       const double cell_y_size,
@@ -95,7 +103,10 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(x_size) &&
-        CheckPositiveValid(y_size) && CheckPositiveValid(z_size))
+        CheckPositiveValid(y_size) && CheckPositiveValid(z_size) &&
+        CheckTotalCells(
+            std::ceil(x_size / cell_x_size), std::ceil(y_size / cell_y_size),
+            std::ceil(z_size / cell_z_size)))
     {
       // Set
       cell_x_size_ = cell_x_size;
@@ -136,7 +147,10 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(num_x_cells) &&
-        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells))
+        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells) &&
+        CheckTotalCells(
+            static_cast<double>(num_x_cells), static_cast<double>(num_y_cells),
+            static_cast<double>(num_z_cells)))
     {
       // Set
       cell_x_size_ = cell_x_size;
-- 
2.43.0

