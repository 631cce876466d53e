From 9829959f7feb26081c52f93df140ab1d093428f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:47 +0000
Subject: [PATCH 01/47] fix: evaluate shared upstream nodes in dependency
 order, and reject cycles

Nodes were evaluated in reversed breadth-first order, so a node feeding two
consumers at different depths was needed before it was computed (panic), and
a shared node was computed once per path. A cycle panicked or never ended; it
is now reported as an execution error.
---
 src/graph.rs | 66 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index e9fd9a3..209634b 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -333,15 +333,44 @@ impl GraphImpl {
 
     // Get the stack of indices to be computed, going upstream
     // from the starting index.
-    fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
-        let mut node_indexes = Vec::<NodeIdx>::new();
+    //
+    // Each node comes before all the nodes it depends on. 'None' is
+    // returned if there is no such order; the graph has a cycle.
+    fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Option<Vec<NodeIdx>> {
         let start_index = NodeIdx::new(start_node_idx);
         let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
 
+        // Count how many nodes are using each node as an input.
+        let mut found_count = 0;
+        let mut use_counts = FxHashMap::<NodeIdx, usize>::default();
         while let Some((node, _depth)) = walker.next(&self.graph) {
+            found_count += 1;
+            for up_node in self.find_direct_upstream_nodes(node.index()) {
+                *use_counts.entry(up_node).or_insert(0) += 1;
+            }
+        }
+        if use_counts.contains_key(&start_index) {
+            return None;
+        }
+
+        let mut node_indexes = Vec::<NodeIdx>::new();
+        let mut node_queue = VecDeque::<NodeIdx>::new();
+        node_queue.push_back(start_index);
+        while let Some(node) = node_queue.pop_front() {
             node_indexes.push(node);
+            for up_node in self.find_direct_upstream_nodes(node.index()) {
+                if let Some(use_count) = use_counts.get_mut(&up_node) {
+                    *use_count -= 1;
+                    if *use_count == 0 {
+                        node_queue.push_back(up_node);
+                    }
+                }
+            }
+        }
+        match node_indexes.len() == found_count {
+            true => Some(node_indexes),
+            false => None,
         }
-        node_indexes
     }
 
     // Get the stack of indices to be computed, going upstream
@@ -495,13 +524,18 @@ impl GraphImpl {
         }
 
         // Validate node, start at node and walk up the graph.
+        //
+        // A node used by many nodes is computed once, with everything
+        // that any of those nodes need.
         let mut validated_node_indexes = Vec::new();
-        let mut node_stack = VecDeque::<(NodeIdx, NodeComputeMode)>::new();
-        let start_node_index = node_indexes[0];
-        let start_node_compute_mode = NodeComputeMode::ALL;
-        node_stack.push_front((start_node_index, start_node_compute_mode));
-        validated_node_indexes.push((start_node_index, start_node_compute_mode));
-        while let Some((node_index, node_compute_mode)) = node_stack.pop_front() {
+        let mut compute_modes = FxHashMap::<NodeIdx, NodeComputeMode>::default();
+        compute_modes.insert(node_indexes[0], NodeComputeMode::ALL);
+        for node_index in node_indexes.iter() {
+            let node_compute_mode = match compute_modes.get(node_index) {
+                Some(value) => *value,
+                None => NodeComputeMode::NONE,
+            };
+            validated_node_indexes.push((*node_index, node_compute_mode));
             debug!("Validate Node: {:?}", node_index);
             let input_node_indexes = self.find_direct_upstream_nodes(node_index.index());
             let mut input_nodes = Vec::<&Box<NodeImpl>>::new();
@@ -520,8 +554,9 @@ impl GraphImpl {
                 input_node_indexes.iter().zip(node_compute_modes.iter())
             {
                 debug!("Validate Up Node: {:?}", up_node_index);
-                node_stack.push_front((*up_node_index, *up_node_compute_mode));
-                validated_node_indexes.push((*up_node_index, *up_node_compute_mode));
+                *compute_modes
+                    .entry(*up_node_index)
+                    .or_insert(NodeComputeMode::NONE) |= *up_node_compute_mode;
             }
         }
 
@@ -575,7 +610,14 @@ impl GraphImpl {
                 return self.status;
             }
         };
-        let node_indexes = self.find_all_upstream_nodes(start_node_idx);
+        let node_indexes = match self.find_all_upstream_nodes(start_node_idx) {
+            Some(value) => value,
+            None => {
+                self.status = ExecuteStatus::Error;
+                error!("Node has a cyclic input: id={}", start_node_id);
+                return self.status;
+            }
+        };
 
         for frame in frames {
             debug!("Execute Frame: {}", *frame);
-- 
2.43.0


From de8be9f9fc9bc0d1a430e32f37c4f35ac12c3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:20 +0000
Subject: [PATCH 02/47] fix: disconnecting an input removes exactly the edges
 of that input

Edges were searched with take_while, so the input stayed connected when an
edge of another input came first, and the edge was then looked up again by
its end points only, which may find the edge of another input.
---
 src/graph.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 209634b..a3abd12 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -278,21 +278,15 @@ impl GraphImpl {
         let incoming_edges = self.graph.edges_directed(dst_index, Direction::Incoming);
         let edges_existing: Vec<_> = incoming_edges
             .into_iter()
-            .take_while(|x| *x.weight() == input_num)
-            .map(|x| (x.source(), x.target()))
+            .filter(|x| *x.weight() == input_num)
+            .map(|x| x.id())
             .collect();
 
         // Remove the existing edges first.
-        for (edge_src_index, edge_dst_index) in edges_existing {
-            if let Some(edge_index) = self.graph.find_edge(edge_src_index, edge_dst_index) {
-                debug!(
-                    "Remove edge: src_index={:#?} dst_index={:#?} edge_index={:#?}",
-                    edge_src_index, edge_dst_index, edge_index
-                );
-                self.graph.remove_edge(edge_index);
-                self.state = GraphState::Dirty;
-                ()
-            }
+        for edge_index in edges_existing {
+            debug!("Remove edge: edge_index={:#?}", edge_index);
+            self.graph.remove_edge(edge_index);
+            self.state = GraphState::Dirty;
         }
     }
 
-- 
2.43.0


From 6b54c1ae8f042c48249832378c6518d4c2e10084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:34 +0000
Subject: [PATCH 03/47] fix: one node can be connected to many inputs of the
 same node

update_edge() moved the existing connection to the new input instead of
adding a second one, and the inputs of a node were searched by unique source
node, so the second input of a node merged with itself was missing.
---
 src/graph.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a3abd12..620c6de 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -321,7 +321,7 @@ impl GraphImpl {
 
         self.disconnect_input(dst_node_id, input_num);
 
-        self.graph.update_edge(src_index, dst_index, input_num);
+        self.graph.add_edge(src_index, dst_index, input_num);
         self.state = GraphState::Dirty;
     }
 
@@ -367,23 +367,17 @@ impl GraphImpl {
         }
     }
 
-    // Get the stack of indices to be computed, going upstream
-    // from the starting index.
+    // Get the nodes connected to the inputs of the starting index, in
+    // order of the input number.
     fn find_direct_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
-        let mut node_indexes = Vec::<NodeIdx>::new();
         let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
-        while let Some((node, depth)) = walker.next(&self.graph) {
-            if depth == 0 {
-                // Skip the current level.
-                continue;
-            }
-            if depth > 1 {
-                break;
-            }
-            node_indexes.push(node);
-        }
-        node_indexes
+        let mut inputs: Vec<_> = self
+            .graph
+            .edges_directed(start_index, Direction::Incoming)
+            .map(|x| (*x.weight(), x.source()))
+            .collect();
+        inputs.sort_unstable();
+        inputs.into_iter().map(|x| x.1).collect()
     }
 
     /// Get upstream parent inputs (so we can calculate the node
-- 
2.43.0


From 52c3896f58049c7ac62028b1fdf31567244e6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:09 +0000
Subject: [PATCH 04/47] fix: a removed node no longer exists in the graph

Removed nodes stayed in the id list: they were reported as existing, their
attributes could be set, connecting to one panicked, and so did adding a new
node, because the index of the removed node is used again.
---
 src/graph.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index 620c6de..ba5e25c 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -95,14 +95,19 @@ impl GraphImpl {
     /// Add a new node to the graph.
     pub fn add_node(&mut self, node_box: Box<NodeImpl>) -> usize {
         let id = node_box.get_id();
-        let nodes_index = self.nodes.len();
-        self.nodes.push(node_box);
-        self.ids.push(id);
 
         self.state = GraphState::Dirty;
         let index = self.graph.add_node(id).index();
         debug!("Add Node index={} id={}", index, id);
-        assert_eq!(index, nodes_index);
+        if index < self.nodes.len() {
+            // The index of a removed node is used again.
+            self.nodes[index] = node_box;
+            self.ids[index] = id;
+        } else {
+            assert_eq!(index, self.nodes.len());
+            self.nodes.push(node_box);
+            self.ids.push(id);
+        }
         index
     }
 
@@ -116,7 +121,6 @@ impl GraphImpl {
                 return false; // TODO: Return an error code?
             }
         };
-        // TODO: Zero out the now empty fields.
         let node_index = petgraph::graph::NodeIndex::new(node_idx);
         match self.graph.remove_node(node_index) {
             Some(_value) => {
@@ -249,7 +253,9 @@ impl GraphImpl {
     /// Return a node index of the node with the given hash.
     fn find_node_index_from_id(&self, node_id: u64) -> Option<usize> {
         debug!("find_node_index_from_id {:?}.", node_id);
-        let maybe_node_idx = self.ids.iter().position(|&v| v == node_id);
+        // Removed nodes keep their index, until it is used again.
+        let maybe_node_idx = (0..self.ids.len())
+            .find(|&i| self.ids[i] == node_id && self.graph.contains_node(NodeIdx::new(i)));
         match maybe_node_idx {
             Some(value) => debug!("Node found: id={} index={}", node_id, value),
             None => warn!("Node NOT found: id={}", node_id),
@@ -648,6 +654,9 @@ impl GraphImpl {
             Dot::with_config(&self.graph, &[Config::GraphContentOnly])
         );
         for (i, id) in self.ids.iter().enumerate() {
+            if !self.graph.contains_node(NodeIdx::new(i)) {
+                continue;
+            }
             let node_status = self.node_status(*id);
             let attrs = self.node_attrs_data_debug_string(*id);
             let line = format!(
-- 
2.43.0


From 18d43c5a258f9fdda01d4a8ae28fd80c51f9e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:19 +0000
Subject: [PATCH 05/47] fix: do not insert images larger than the cache
 capacity

The space to free up underflowed when one image is larger than the whole
cache; executing the graph panicked.
---
 src/cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index fa137e2..8270f58 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -132,6 +132,10 @@ impl CacheImpl {
         }
 
         let value_bytes = value.size_bytes();
+        if value_bytes > self.capacity_bytes {
+            error!("Cannot insert into Cache; value is larger than the capacity.");
+            return;
+        }
 
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
-- 
2.43.0


From a4555ece875eabd9bcabf870f3f0a531573444dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 06/47] fix: ReadImage never outputs the stream of another node

With a file path that is not a file, or when no pixels are needed, the output
was left as computed by the previous node (or the previous execution).
---
 src/node/read_image.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 385f688..c283370 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -220,14 +220,16 @@ impl Operation for ReadImageOperation {
 
                 *output = std::rc::Rc::new(stream_data);
             } else {
-                let enable = attr_block.get_attr_i32("enable");
-                if enable != 1 {
-                    let mut stream_data = StreamDataImpl::new();
-                    stream_data.set_hash(hash_value);
-                    *output = std::rc::Rc::new(stream_data);
-                    return NodeStatus::Valid;
-                }
+                // The path is not a file; a directory, for example.
+                let stream_data = StreamDataImpl::new();
+                *output = std::rc::Rc::new(stream_data);
+                return NodeStatus::Warning;
             }
+        } else {
+            // No pixels are needed. Do not leave the output of the
+            // last computed node behind.
+            let stream_data = StreamDataImpl::new();
+            *output = std::rc::Rc::new(stream_data);
         }
         NodeStatus::Valid
     }
-- 
2.43.0


From 6201e45474e9ea4b1f43031cd8a0599dbac83296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:09 +0000
Subject: [PATCH 07/47] fix: hash the file path of enabled ReadImage and
 WriteImage nodes

Any non-zero 'enable' value enables the nodes, but only the value 1 added the
file path to the hash, so that different files shared one cache entry.
---
 src/node/read_image.rs  | 2 +-
 src/node/write_image.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index c283370..8b14f30 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -238,7 +238,7 @@ impl Operation for ReadImageOperation {
 impl AttrBlock for ReadImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index cf58c6e..fefb35d 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -297,7 +297,7 @@ impl Operation for WriteImageOperation {
 impl AttrBlock for WriteImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
-- 
2.43.0


From 40a8b9749fd7c1afa6a10f92194b58c12c1213fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:00 +0000
Subject: [PATCH 08/47] fix: hash the direction of lens distortion

Changing only the direction left the hash unchanged, and the cached result of
the other direction was used.
---
 src/deformer/tde4_classic.rs | 1 +
 src/node/lens_distort.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/deformer/tde4_classic.rs b/src/deformer/tde4_classic.rs
index 38d30a5..e247c49 100644
--- a/src/deformer/tde4_classic.rs
+++ b/src/deformer/tde4_classic.rs
@@ -83,6 +83,7 @@ impl hash::Hash for DeformerTde4Classic {
             return;
         }
 
+        self.direction.hash(state);
         HashableF32::new(self.focal_length).hash(state);
         HashableF32::new(self.film_back_width).hash(state);
         HashableF32::new(self.film_back_height).hash(state);
diff --git a/src/node/lens_distort.rs b/src/node/lens_distort.rs
index da2a418..6822b22 100644
--- a/src/node/lens_distort.rs
+++ b/src/node/lens_distort.rs
@@ -75,6 +75,7 @@ impl hash::Hash for LensDistortAttrs {
         if self.enable == 0 {
             return;
         }
+        self.direction.hash(state);
         HashableF32::new(self.lens_center_offset_x).hash(state);
         HashableF32::new(self.lens_center_offset_y).hash(state);
         HashableF32::new(self.distortion).hash(state);
-- 
2.43.0


From cc98015e597dd88a3c02f43f0060d409735c2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:12 +0000
Subject: [PATCH 09/47] fix: rotate around the rotation center

The offsets of the rotation center were in the Z column of the 4x4 matrix, so
they had no effect on a 2D position.
---
 src/math/xform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/xform.rs b/src/math/xform.rs
index 0dfec13..23ddadc 100644
--- a/src/math/xform.rs
+++ b/src/math/xform.rs
@@ -54,13 +54,13 @@ fn create_rotate_2d(center_x: f32, center_y: f32, angle_degree: f32) -> na::Matr
     na::Matrix4::<f32>::new(
         c,
         -s,
-        center_x * (1.0 - c) + center_y * s,
         0.0,
+        center_x * (1.0 - c) + center_y * s,
         //
         s,
         c,
-        center_y * (1.0 - c) - center_x * s,
         0.0,
+        center_y * (1.0 - c) - center_x * s,
         //
         0.0,
         0.0,
-- 
2.43.0


From afc3a2fcbb2233faed9712de0eb84fd01b955f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:24 +0000
Subject: [PATCH 10/47] fix: a Transform without translation does not move
 positions

The translation was remapped like a position in the image window, rather than
a distance, so that a zero translation moved everything if the image window
does not start at zero; Y was remapped with the X range.
---
 src/deformer/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/deformer/transform.rs b/src/deformer/transform.rs
index bc5d7a2..07dc59e 100644
--- a/src/deformer/transform.rs
+++ b/src/deformer/transform.rs
@@ -33,7 +33,6 @@ use crate::cxxbridge::ffi::TransformationOrder;
 use crate::data::FrameValue;
 use crate::deformer::Deformer;
 use crate::hashutils::HashableF32;
-use crate::math::interp;
 use crate::math::xform;
 
 #[derive(Debug, Clone)]
@@ -97,9 +96,9 @@ fn _apply(
     image_window: BBox2Df,
     inverse: bool,
 ) -> (f32, f32) {
-    // Normalise the translate values between the image window.
-    let tx = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_x);
-    let ty = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_y);
+    // Normalise the translate values to the size of the image window.
+    let tx = obj.translate_x / image_window.width();
+    let ty = obj.translate_y / image_window.height();
     let transformation_order = TransformationOrder::SRT;
     let mut out_matrix = xform::create_transform_2d(
         transformation_order,
-- 
2.43.0


From 52c2ec236365b429ba447af15450e89519898e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/47] fix: undo the last deformer first when deforming pixels

Pixels are looked up with the inverse of the deformers; the inverse of a chain
of deformers is the inverses in the opposite order.
---
 src/deformutils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deformutils.rs b/src/deformutils.rs
index cff5f19..cbc2bd0 100644
--- a/src/deformutils.rs
+++ b/src/deformutils.rs
@@ -136,7 +136,7 @@ pub fn apply_deformers_to_pixels(
     // user has requested, so that we can map the destination to
     // source.
     let inverse = true;
-    for deformer in &enabled_deformers {
+    for deformer in enabled_deformers.iter().rev() {
         let buffer = pixel_coords.as_mut_slice();
         deformer.apply_slice_in_place(buffer, display_window_f32, inverse, stride);
     }
-- 
2.43.0


From 2f1e4b9c9810d5b687cec3690ddcf6cb8a19d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:59 +0000
Subject: [PATCH 12/47] fix: deform pixels with data windows other than the
 display window

The data window was stretched to the size of the display window, and the
minimum of the data window was then not subtracted, so pixels were fetched
from the wrong place.
---
 src/ops/pixelremap.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index da43889..237bc94 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -24,7 +24,6 @@ use log::{debug, error};
 use crate::cxxbridge::ffi::BBox2Df;
 use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::DataType;
-use crate::math;
 use crate::pixel::get_pixel_rgb;
 use crate::pixel::get_pixel_rgba;
 use crate::pixelblock::pixelblock::PixelBlock;
@@ -97,25 +96,14 @@ pub fn pixels_remap_coords(
             let dst_index: usize = (dy * dst_y_stride as usize) + (dx * dst_x_stride as usize);
 
             // X and Y source pixel coordinate to fetch the pixel
-            // value. The pixel coordinates are relative to the
-            // 'display window'.
+            // value. The pixel coordinates are in the same space as
+            // the 'display window' and the 'data window', with
+            // half-pixel offsets at the center of each pixel. The
+            // first pixel stored is at the data window minimum.
             let x = pixel_coords[pixel_coord_index + 0];
             let y = pixel_coords[pixel_coord_index + 1];
-
-            let x = math::interp::remap(
-                display_window_f32.min_x,
-                display_window_f32.max_x,
-                src_data_window.min_x as f32,
-                (src_data_window.max_x - 1) as f32,
-                x,
-            );
-            let y = math::interp::remap(
-                display_window_f32.min_y,
-                display_window_f32.max_y,
-                src_data_window.min_y as f32,
-                (src_data_window.max_y - 1) as f32,
-                y,
-            );
+            let x = x - (src_data_window.min_x as f32) - 0.5;
+            let y = y - (src_data_window.min_y as f32) - 0.5;
 
             if src_num_channels == 4 {
                 let (r, g, b, a) = get_pixel_rgba(
-- 
2.43.0


From 80298a3c26c23753eb503164c1659b43fd4ca837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/47] fix: read image pixels when the Viewer bakes everything

The pixels are needed for baking, but upstream nodes were asked not to compute
them, so the viewer showed the last computed image, or the color bars.
---
 src/node/viewer.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 4e1a592..0bccf80 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -419,8 +419,7 @@ impl Validate for ViewerValidate {
                             & (NodeComputeMode::ALL
                                 - NodeComputeMode::COLOR_SPACE
                                 - NodeComputeMode::COLOR
-                                - NodeComputeMode::DEFORMER
-                                - NodeComputeMode::PIXEL),
+                                - NodeComputeMode::DEFORMER),
                     ),
                     _ => panic!("BakeOption is invalid value: {:#?}", bake_option),
                 }
-- 
2.43.0


From 2ec6ce417ac0518d70c1f278217bba66d0b0716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:49 +0000
Subject: [PATCH 14/47] fix: a disabled Viewer outputs its input

The output was left as it was: with no input, it was the stream of whichever
node (or execution) was computed before.
---
 src/node/viewer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 0bccf80..7290fbe 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -173,11 +173,6 @@ impl Operation for ViewerOperation {
         // debug!("Inputs: {:?}", inputs);
         // debug!("Output: {:?}", output);
 
-        let enable = attr_block.get_attr_i32("enable");
-        if enable != 1 {
-            return NodeStatus::Valid;
-        }
-
         let mut stream_data = match inputs.len() {
             0 => {
                 // No input given, return an empty default stream.
@@ -189,6 +184,12 @@ impl Operation for ViewerOperation {
             }
         };
 
+        let enable = attr_block.get_attr_i32("enable");
+        if enable != 1 {
+            *output = std::rc::Rc::new(stream_data);
+            return NodeStatus::Valid;
+        }
+
         let bake_option_initial = BakeOption::from(attr_block.get_attr_i32("bake_option"));
         debug!("bake_option={:#?}", bake_option_initial);
 
-- 
2.43.0


From 4ba8e63e2ffd5cbfaf1a4353246792c96c8ccf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:00 +0000
Subject: [PATCH 15/47] fix: do not grade the image twice when the Viewer finds
 it in the cache

With the baked image found in the cache, the color operations were kept in
the stream, and were applied to the already graded pixels again.
---
 src/node/viewer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 7290fbe..0f265a9 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -35,6 +35,7 @@ use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
 use crate::cxxbridge::ffi::ImageSpec;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -269,6 +270,12 @@ impl Operation for ViewerOperation {
                 stream_data.clear_deformers();
             }
 
+            // The same goes for baked color operations.
+            if bake_option == BakeOption::ColorSpaceAndGrade || bake_option == BakeOption::All {
+                stream_data.set_color_matrix(Matrix4::identity());
+                stream_data.clear_color_ops();
+            }
+
             stream_data.set_data_window(data_window);
             stream_data.set_display_window(display_window);
             stream_data.set_hash(hash_value);
-- 
2.43.0


From d6b4f1245573b70094508c03d757ba7efa998530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:42 +0000
Subject: [PATCH 16/47] fix: CropImage with 'black_outside' enabled

The data window has an extra edge of pixels, but the pixels did not, which
always failed the assertion that both are the same size.
---
 src/ops/imagecrop.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ops/imagecrop.rs b/src/ops/imagecrop.rs
index bc0708e..414881b 100644
--- a/src/ops/imagecrop.rs
+++ b/src/ops/imagecrop.rs
@@ -104,11 +104,19 @@ pub fn crop_image_in_place(
         true => crop_window,
     };
 
-    let pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+    let mut pixel_block_box = Box::new(PixelBlock::from_pixel_block(
         &src_pixel_block,
         src_data_window,
         crop_window,
     ));
+    if black_outside {
+        // Surround the cropped pixels with black pixels.
+        pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+            &pixel_block_box,
+            crop_window,
+            new_data_window,
+        ));
+    }
 
     debug!("Display Window: {:?}", new_display_window);
     debug!("Data Window: {:?}", new_data_window);
-- 
2.43.0


From eccd070fd92ed6b6d7f3ae2e7f7f8943e6a4fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:54 +0000
Subject: [PATCH 17/47] fix: do not deform and grade twice when CropImage is in
 the cache

With the cropped image found in the cache, the baked deformers and color
operations were kept in the stream, and were applied again downstream.
---
 src/node/crop_image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index f2a39f1..aa43176 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -32,6 +32,7 @@ use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -247,6 +248,12 @@ impl Operation for CropImageOperation {
             }
         };
 
+        // Deformers and color operations are baked into the pixels;
+        // do not double up when reading from the cache.
+        stream_data.clear_deformers();
+        stream_data.set_color_matrix(Matrix4::identity());
+        stream_data.clear_color_ops();
+
         stream_data.set_hash(hash_value);
         stream_data.set_data_window(data_window);
         stream_data.set_display_window(display_window);
-- 
2.43.0


From 679d98adfd391aaf4a1a86e038381243fa5c100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:03 +0000
Subject: [PATCH 18/47] fix: CropImage outputs the image spec of the cropped
 pixels

The cropped pixels are in linear color space, but were still labelled with the
color space of the input, so sRGB images were linearised twice.
---
 src/node/crop_image.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index aa43176..3f7f1fb 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -192,12 +192,13 @@ impl Operation for CropImageOperation {
 
         let mut status = NodeStatus::Valid;
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -222,12 +223,17 @@ impl Operation for CropImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
@@ -244,7 +250,12 @@ impl Operation for CropImageOperation {
                 }
 
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
@@ -258,6 +269,7 @@ impl Operation for CropImageOperation {
         stream_data.set_data_window(data_window);
         stream_data.set_display_window(display_window);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         status
-- 
2.43.0


From 2569060dd7abf3a25348d8d65bf11baddf4dcd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:26 +0000
Subject: [PATCH 19/47] fix: merge with the deformed data window of input B

Baking the deformers changes the data window of the pixels, but for input B
the data window before the deformation was used.
---
 src/node/merge_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/merge_image.rs b/src/node/merge_image.rs
index 59ad026..a8dba4b 100644
--- a/src/node/merge_image.rs
+++ b/src/node/merge_image.rs
@@ -161,8 +161,8 @@ fn do_image_process(
     let pixel_block_b_box = Box::new(pixel_block_b);
     let image_b = ImageShared {
         pixel_block: pixel_block_b_box,
-        display_window: stream_data_b.display_window(),
-        data_window: stream_data_b.data_window(),
+        display_window: display_window_b,
+        data_window: data_window_b,
         spec: image_spec_b,
     };
 
-- 
2.43.0


From 0d7e63407cab3c761c2af5ac54771c5217554c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:51 +0000
Subject: [PATCH 20/47] fix: reverse the gamma of a Grade with linear
 adjustments

The linear part was reversed from the original pixel, which threw away the
reversed gamma.
---
 src/ops/colorgrade.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 393a32b..9da978f 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -72,7 +72,7 @@ fn grade_single(
                 a = 1.0;
             }
             b = -b * a;
-            value = pixel * a + b;
+            value = value * a + b;
         }
         value
     }
-- 
2.43.0


From b7951d66fc32d92a8c83e41eae543deb8b7e8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:00 +0000
Subject: [PATCH 21/47] fix: keep the data window in place when moving the
 display window to 0,0

---
 src/oiio_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oiio_utils.cpp b/src/oiio_utils.cpp
index 97f724a..dc0014e 100644
--- a/src/oiio_utils.cpp
+++ b/src/oiio_utils.cpp
@@ -118,10 +118,10 @@ bool oiio_allocate_image(
 
     // Ensure the display window corner starts at 0,0 by removing any
     // non-zero values and pushing the values into the data window.
-    image.data_window.min_x += image.display_window.min_x;
-    image.data_window.min_y += image.display_window.min_y;
-    image.data_window.max_x += image.display_window.min_x;
-    image.data_window.max_y += image.display_window.min_y;
+    image.data_window.min_x -= image.display_window.min_x;
+    image.data_window.min_y -= image.display_window.min_y;
+    image.data_window.max_x -= image.display_window.min_x;
+    image.data_window.max_y -= image.display_window.min_y;
     image.display_window.max_x -= image.display_window.min_x;
     image.display_window.max_y -= image.display_window.min_y;
     image.display_window.min_x = 0;
-- 
2.43.0


From 1ac123400f32ad6f4782df441b9b7dee7f69d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:41 +0000
Subject: [PATCH 22/47] fix: read images with more than 4 channels or an
 unsupported data type

---
 src/imageio.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 6b620e0..79477b4 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -77,15 +77,24 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
             << "oiio_read_image: Cannot open image with less than 3 channels (RGB).\n";
         return false;
     }
-    std::max(num_channels, 4);
+    num_channels = std::min(num_channels, 4);
 
+    // Any data type we do not support is converted to floating-point
+    // when reading the pixels.
     auto pixel_data_type = oiio_format_to_ocg_format(oiio_data_type);
+    if (pixel_data_type == DataType::kUnknown) {
+        oiio_data_type = OIIO::TypeDesc::FLOAT;
+        pixel_data_type = oiio_format_to_ocg_format(oiio_data_type);
+    }
     auto channel_num_bytes = channel_size_bytes(pixel_data_type);
     auto padded_num_channels =
         static_cast<int32_t>(stride_num_channels(num_channels, pixel_data_type));
     auto pixel_size_bytes = padded_num_channels * channel_num_bytes;
 
-    bool ok = oiio_allocate_image(spec, image);
+    OIIO::ImageSpec pixel_spec = spec;
+    pixel_spec.nchannels = num_channels;
+    pixel_spec.format = oiio_data_type;
+    bool ok = oiio_allocate_image(pixel_spec, image);
 
     auto pixel_data = pixelblock_get_pixel_data_ptr_read_write(image.pixel_block);
     if (pixel_data == nullptr) {
-- 
2.43.0


From c4c6fce42ff053809db4f863f3d878c7f665b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:54 +0000
Subject: [PATCH 23/47] fix: warn and output the default image when an image
 cannot be read

---
 src/imageio.cpp        |  9 +++++++--
 src/imageio.rs         |  8 ++++++--
 src/node/read_image.rs | 18 ++++++++++++++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 79477b4..31076f7 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -157,14 +157,19 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
     OIIO::stride_t xstride = pixel_size_bytes;
     OIIO::stride_t ystride = OIIO::AutoStride;
     OIIO::stride_t zstride = OIIO::AutoStride;
-    in->read_image(
+    ok = in->read_image(
         subimage, miplevel,
         chbegin, chend,
         oiio_data_type,
         pixel_data,
         xstride, ystride, zstride);
+    if (!ok) {
+        std::cerr
+            << "oiio_read_image: failed to read pixels: "
+            << in->geterror() << '\n';
+    }
     in->close();
-    return true;
+    return ok;
 }
 
 bool name_has_suffix(std::string const &name, std::string const &suffix) {
diff --git a/src/imageio.rs b/src/imageio.rs
index 52c305b..af6475a 100644
--- a/src/imageio.rs
+++ b/src/imageio.rs
@@ -39,7 +39,10 @@ use crate::ops::imagecrop;
 use crate::pixelblock::dynimage::from_dynamic_image;
 use crate::pixelblock::pixelblock::PixelBlock;
 
-pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
+/// Read the image from the file path.
+///
+/// Returns None if the image could not be read.
+pub fn read_image(path: &String, num_threads: i32) -> Option<ImageShared> {
     debug!("Reading... {:?}", path);
     debug!("num_threads: {:?}", num_threads);
     let start = Instant::now();
@@ -63,6 +66,7 @@ pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
             oiio_set_thread_count(old_num_threads);
             if ok == false {
                 warn!("Reading image failed: {:?}", path);
+                return None;
             }
 
             image
@@ -84,7 +88,7 @@ pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
     let duration = start.elapsed();
     debug!("Reading total time: {:?}", duration);
 
-    image
+    Some(image)
 }
 
 pub fn write_image(
diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 8b14f30..59193ff 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -152,7 +152,14 @@ impl Operation for ReadImageOperation {
                         _ => {
                             debug!("Cache Miss");
                             let num_threads = 0;
-                            let img = imageio::read_image(&path_expanded, num_threads);
+                            let img = match imageio::read_image(&path_expanded, num_threads) {
+                                Some(img) => img,
+                                None => {
+                                    let stream_data = StreamDataImpl::new();
+                                    *output = std::rc::Rc::new(stream_data);
+                                    return NodeStatus::Warning;
+                                }
+                            };
                             let pixel_block_rc = Rc::new(*img.pixel_block);
                             let cached_img = CachedImage {
                                 pixel_block: pixel_block_rc.clone(),
@@ -172,7 +179,14 @@ impl Operation for ReadImageOperation {
                     false => {
                         debug!("From Disk");
                         let num_threads = 0;
-                        let img = imageio::read_image(&path_expanded, num_threads);
+                        let img = match imageio::read_image(&path_expanded, num_threads) {
+                            Some(img) => img,
+                            None => {
+                                let stream_data = StreamDataImpl::new();
+                                *output = std::rc::Rc::new(stream_data);
+                                return NodeStatus::Warning;
+                            }
+                        };
                         let pixel_block_rc = Rc::new(*img.pixel_block);
                         (
                             pixel_block_rc.clone(),
-- 
2.43.0


From 5e94ec044cf38c075a59f7bbd49e45cbf750834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:34 +0000
Subject: [PATCH 24/47] fix: report an error when WriteImage fails to write the
 file

---
 src/imageio.cpp         | 11 ++++++++---
 src/node/write_image.rs |  5 ++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 31076f7..69d0d45 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -326,14 +326,19 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
     // spec.attribute("Software", software);
 
     auto type_desc = ocg_format_to_oiio_format(pixel_data_type);
-    out->open(filename, spec);
+    ok = out->open(filename, spec);
+    if (!ok) {
+        auto error_message = out->geterror();
+        std::cerr << "oiio_write_image: ERROR: " << error_message << '\n';
+        return false;
+    }
     ok = out->write_image(type_desc, pixel_data);
+    ok = out->close() && ok;
     if (!ok) {
         auto error_message = out->geterror();
         std::cerr << "oiio_write_image: ERROR: " << error_message << '\n';
     }
-    out->close();
-    return true;
+    return ok;
 }
 
 } // namespace internal
diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index fefb35d..ce31f73 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -287,7 +287,10 @@ impl Operation for WriteImageOperation {
                     debug!("Success: {}", ok);
 
                     *output = inputs[0].clone();
-                    NodeStatus::Valid
+                    match ok {
+                        true => NodeStatus::Valid,
+                        false => NodeStatus::Error,
+                    }
                 }
             }
         }
-- 
2.43.0


From 297cecac8ff0be5d4f7ec5b05fbe18d91de64555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:27 +0000
Subject: [PATCH 25/47] fix: write the image with the spec (color space) of its
 pixels

---
 src/imageio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageio.rs b/src/imageio.rs
index af6475a..ad3a6de 100644
--- a/src/imageio.rs
+++ b/src/imageio.rs
@@ -113,7 +113,7 @@ pub fn write_image(
         pixel_block: Box::new(new_pixel_block),
         display_window: new_display_window,
         data_window: new_data_window,
-        spec: ImageSpec::new(),
+        spec: image.spec.clone(),
     };
 
     if crop_to_display_window == true {
-- 
2.43.0


From f2210423b84e7c8561b5995795921aaec4c98609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:57 +0000
Subject: [PATCH 26/47] fix: image orientation values of files start at 1

---
 src/imageio.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 69d0d45..f4c9ec9 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -121,7 +121,12 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
     std::string colorspace_text = spec.get_string_attribute("oiio:ColorSpace", "");
     float gamma = spec.get_float_attribute("oiio:Gamma", 1.0f);
     float pixel_aspect = spec.get_float_attribute("PixelAspectRatio", 1.0f);
-    int orientation = spec.get_int_attribute("Orientation", 0);
+    // OpenImageIO (and Exif/TIFF) orientation values start at 1,
+    // ImageOrientation starts at 0.
+    int orientation = spec.get_int_attribute("Orientation", 1) - 1;
+    if (orientation < 0 || orientation > 7) {
+        orientation = 0;
+    }
     int unassociated_alpha = spec.get_int_attribute("oiio:UnassociatedAlpha", 0);
     std::string desc_text = spec.get_string_attribute("ImageDescription", "");
     int dither = spec.get_int_attribute("oiio:dither", 0);
@@ -236,7 +241,7 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
     auto color_space_str = std::string(image.spec.color_space);
     auto gamma = static_cast<float>(image.spec.gamma);
     auto pixel_aspect = static_cast<float>(image.spec.pixel_aspect);
-    auto orientation = static_cast<int32_t>(image.spec.orientation);
+    auto orientation = static_cast<int32_t>(image.spec.orientation) + 1;
     auto unassociated_alpha = static_cast<int32_t>(image.spec.unassociated_alpha);
     auto dither = static_cast<int32_t>(image.spec.dither);
     // std::cerr << "OUT Color Space: " << color_space_str << '\n';
-- 
2.43.0


From 8e90b00b39f8000fd5b9e5434fa8f63ac0841bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:06 +0000
Subject: [PATCH 27/47] fix: the pixel buffer of a stream holds all bytes of
 the pixels

---
 src/pixelblock/utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pixelblock/utils.rs b/src/pixelblock/utils.rs
index f639306..89dea62 100644
--- a/src/pixelblock/utils.rs
+++ b/src/pixelblock/utils.rs
@@ -193,7 +193,9 @@ pub fn get_pixel_index(
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f32_to_u8(pixel_slice: &[f32]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[f32], &[u8]>(pixel_slice) };
+    let num_bytes = std::mem::size_of_val(pixel_slice);
+    let pixels_u8 =
+        unsafe { std::slice::from_raw_parts(pixel_slice.as_ptr() as *const u8, num_bytes) };
     pixels_u8
 }
 
@@ -202,7 +204,9 @@ pub fn transmute_slice_f32_to_u8(pixel_slice: &[f32]) -> &[u8] {
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f16_to_u8(pixel_slice: &[f16]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[f16], &[u8]>(pixel_slice) };
+    let num_bytes = std::mem::size_of_val(pixel_slice);
+    let pixels_u8 =
+        unsafe { std::slice::from_raw_parts(pixel_slice.as_ptr() as *const u8, num_bytes) };
     pixels_u8
 }
 
@@ -211,7 +215,9 @@ pub fn transmute_slice_f16_to_u8(pixel_slice: &[f16]) -> &[u8] {
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_u16_to_u8(pixel_slice: &[u16]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[u16], &[u8]>(pixel_slice) };
+    let num_bytes = std::mem::size_of_val(pixel_slice);
+    let pixels_u8 =
+        unsafe { std::slice::from_raw_parts(pixel_slice.as_ptr() as *const u8, num_bytes) };
     pixels_u8
 }
 
-- 
2.43.0


From ad6a170b854aef76e78a5e8913ce2cc397c9d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:17 +0000
Subject: [PATCH 28/47] fix: round to the nearest value when converting pixels
 to integers

---
 src/pixelblock/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pixelblock/utils.rs b/src/pixelblock/utils.rs
index 89dea62..41ef4bc 100644
--- a/src/pixelblock/utils.rs
+++ b/src/pixelblock/utils.rs
@@ -72,20 +72,20 @@ pub fn convert_datablock_enum_to_u16(data_block_enum: &DataBlockEnum) -> Vec<u16
     let mut new_pixels = Vec::<u16>::new();
     match &data_block_enum {
         DataBlockEnum::Float32(data) => {
-            let f = |x: f32| ((x as f32) * (u16::max_value() as f32)) as u16;
+            let f = |x: f32| ((x as f32) * (u16::max_value() as f32)).round() as u16;
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::Half16(data) => {
             let f = |x: f16| {
                 let v = f32::from(x);
-                (v * (u16::max_value() as f32)) as u16
+                (v * (u16::max_value() as f32)).round() as u16
             };
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::UInt8(data) => {
             let f = |x: u8| {
                 let v = (x as f32) / (u8::max_value() as f32);
-                (v * (u16::max_value() as f32)) as u16
+                (v * (u16::max_value() as f32)).round() as u16
             };
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
@@ -99,17 +99,17 @@ pub fn convert_datablock_enum_to_u8(data_block_enum: &DataBlockEnum) -> Vec<u8>
     let mut new_pixels = Vec::<u8>::new();
     match &data_block_enum {
         DataBlockEnum::Float32(data) => {
-            let f = |x: f32| ((x as f32) * (u8::max_value() as f32)) as u8;
+            let f = |x: f32| ((x as f32) * (u8::max_value() as f32)).round() as u8;
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::Half16(data) => {
-            let f = |x: f16| (f32::from(x) * (u8::max_value() as f32)) as u8;
+            let f = |x: f16| (f32::from(x) * (u8::max_value() as f32)).round() as u8;
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::UInt16(data) => {
             let f = |x: u16| {
                 let v = (x as f32) / (u16::max_value() as f32);
-                (v * (u8::max_value() as f32)) as u8
+                (v * (u8::max_value() as f32)).round() as u8
             };
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
-- 
2.43.0


From dca16fd8544a0d335046a34419a5228d8d6cc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:40 +0000
Subject: [PATCH 29/47] fix: expand file paths with 10 or more frame padding
 characters

---
 src/pathutils.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/pathutils.rs b/src/pathutils.rs
index bf0f454..97b0fd9 100644
--- a/src/pathutils.rs
+++ b/src/pathutils.rs
@@ -71,21 +71,9 @@ fn create_expanded_string(
         index_range.start_index, index_range.end_index, index_range.padding_count
     );
 
-    // FIXME: Create a way to use the padding_count to dynamically
-    // change the number formatted into the string. "format!" is a
-    // compile time creation. This is a pretty bad hack.
     let frame_string = match index_range.padding_count {
         0 => "".to_string(),
-        1 => format!("{:01}", frame),
-        2 => format!("{:02}", frame),
-        3 => format!("{:03}", frame),
-        4 => format!("{:04}", frame),
-        5 => format!("{:05}", frame),
-        6 => format!("{:06}", frame),
-        7 => format!("{:07}", frame),
-        8 => format!("{:08}", frame),
-        9 => format!("{:09}", frame),
-        _ => "".to_string(),
+        padding_count => format!("{:0width$}", frame, width = padding_count),
     };
     expanded_string.replace_range(
         index_range.start_index..index_range.end_index,
-- 
2.43.0


From 5566561dc9d83921f3af1e785869090637165c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:51 +0000
Subject: [PATCH 30/47] fix: clamp the cache capacity percentage of the config
 to 0..100

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index f5dc195..8f1a802 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -59,7 +59,7 @@ impl ConfigCache {
     }
 
     pub fn ram_capacity_percent(&self) -> f32 {
-        (self.ram_capacity_percent / 100.0).min(0.0).max(1.0)
+        (self.ram_capacity_percent / 100.0).max(0.0).min(1.0)
     }
 }
 
-- 
2.43.0


From 377677403554d4fab60176cff79f4dedf5442553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:16 +0000
Subject: [PATCH 31/47] fix: total system memory on Linux

---
 src/systemmemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systemmemory.cpp b/src/systemmemory.cpp
index 76fe820..0f5dc78 100644
--- a/src/systemmemory.cpp
+++ b/src/systemmemory.cpp
@@ -49,7 +49,7 @@ size_t get_total_system_memory_as_bytes() {
     // Use 'sysconf'.
     long pages = sysconf(_SC_PHYS_PAGES);
     long page_size = sysconf(_SC_PAGE_SIZE);
-    auto size = pages * page_size;
+    auto bytes = static_cast<size_t>(pages) * static_cast<size_t>(page_size);
 
 #elif defined _WIN32  // Windows
     // Use the Windows API.
-- 
2.43.0


From e551ba921cf43b336000c1da7fa0c1816306d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:27 +0000
Subject: [PATCH 32/47] fix: use the default config when the config file is
 invalid

---
 src/config.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 8f1a802..5f5d884 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -25,6 +25,7 @@
 /// pipeline in mind.
 ///
 use log::debug;
+use log::warn;
 use serde::Deserialize;
 use std::default::Default;
 use std::env;
@@ -88,8 +89,8 @@ pub struct ConfigImpl {
     threading: ConfigThreading,
 }
 
-fn load_config(file_path: &str) -> Result<ConfigImpl, serde_yaml::Error> {
-    let contents = fs::read_to_string(file_path).expect("Something went wrong reading the file!");
+fn load_config(file_path: &str) -> Result<ConfigImpl, Box<dyn std::error::Error>> {
+    let contents = fs::read_to_string(file_path)?;
     let deserialized: ConfigImpl = serde_yaml::from_str(&contents)?;
     Ok(deserialized)
 }
@@ -148,7 +149,13 @@ pub fn get_config(file_name: &str) -> ConfigImplShared {
     let path = get_config_path(&file_name, envvar_name);
     let config = match path.as_str() {
         "" => ConfigImpl::default(),
-        _ => load_config(&path).expect("Config file should exist."),
+        _ => match load_config(&path) {
+            Ok(value) => value,
+            Err(e) => {
+                warn!("Config file is invalid: {:?} cause={}", path, e);
+                ConfigImpl::default()
+            }
+        },
     };
     ConfigImplShared {
         inner: Box::new(config),
-- 
2.43.0


From 5926e96171bf57172e3ec8d8317c515b6fd6ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:28 +0000
Subject: [PATCH 33/47] fix: ResampleImage resamples an image with a depth of 1

---
 src/oiio_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oiio_utils.cpp b/src/oiio_utils.cpp
index dc0014e..b4c6adf 100644
--- a/src/oiio_utils.cpp
+++ b/src/oiio_utils.cpp
@@ -78,6 +78,7 @@ bool oiio_construct_spec(
     spec.full_y = display_window_min_y;
     spec.full_width = display_window_max_x - display_window_min_x;
     spec.full_height = display_window_max_y - display_window_min_y;
+    spec.full_depth = 1;
     spec.x = data_window_min_x;
     spec.y = data_window_min_y;
 
-- 
2.43.0


From 9cf40eb6902014fc6c0a201351f146223a8b796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:13 +0000
Subject: [PATCH 34/47] fix: ResampleImage keeps the channels of 3-channel half
 and integer images

---
 src/ops/imageresample.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/imageresample.cpp b/src/ops/imageresample.cpp
index 8429cf7..5817098 100644
--- a/src/ops/imageresample.cpp
+++ b/src/ops/imageresample.cpp
@@ -89,6 +89,11 @@ bool oiio_image_resample(
     if (!ok) {
         return ok;
     }
+    // The number of channels must not be padded, OIIO writes
+    // 'num_channels' channels into each pixel.
+    dst_image.pixel_block->data_resize(
+        open_comp_graph::BlockSize{new_width, new_height, num_channels},
+        pixel_data_type);
     auto dst_pixel_data = pixelblock_get_pixel_data_ptr_read_write(
         dst_image.pixel_block);
     if (dst_pixel_data == nullptr) {
-- 
2.43.0


From 2b4dba23ca7792a08ce29baed896cfaa4b2712a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:34 +0000
Subject: [PATCH 35/47] fix: Grade leaves channels it does not process
 unchanged, even if the result is NaN

---
 src/ops/colorgrade.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 9da978f..cf99eb1 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -78,6 +78,16 @@ fn grade_single(
     }
 }
 
+/// Mix the graded value with the original value.
+fn blend(value: f32, pixel: f32, mask: f32) -> f32 {
+    if mask == 0.0 {
+        // The graded value may be NaN, it must not be used at all.
+        pixel
+    } else {
+        (value * mask) + (pixel * (1.0 - mask))
+    }
+}
+
 fn grade(
     pixel: Vector4f32,
     mask: Vector4f32,
@@ -150,10 +160,10 @@ fn grade(
         premult,
     );
     Vector4f32::new(
-        (r * mask.x) + (pixel.x * (1.0 - mask.x)),
-        (g * mask.y) + (pixel.y * (1.0 - mask.y)),
-        (b * mask.z) + (pixel.z * (1.0 - mask.z)),
-        (a * mask.w) + (pixel.w * (1.0 - mask.w)),
+        blend(r, pixel.x, mask.x),
+        blend(g, pixel.y, mask.y),
+        blend(b, pixel.z, mask.z),
+        blend(a, pixel.w, mask.w),
     )
 }
 
-- 
2.43.0


From ac1c68b67a2f723ca9818f9dd46f29d502f6e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:34 +0000
Subject: [PATCH 36/47] fix: write DWA compressed EXR files with the
 compression level of the node

---
 src/imageio.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index f4c9ec9..a9f9d16 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -24,6 +24,7 @@
 #include <cctype>   // tolower
 #include <iostream>
 #include <memory>
+#include <string>   // to_string
 
 #include <rust/cxx.h>
 
@@ -271,6 +272,8 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
             auto exr_compress_name = "Compression";
             auto exr_dwa_level_name = "openexr:dwaCompressionLevel";
             auto dwa_level = static_cast<float>(compress.exr_dwa_compression_level);
+            // OpenImageIO takes the level from the compression name.
+            auto dwa_level_suffix = ":" + std::to_string(compress.exr_dwa_compression_level);
             if (compress.exr_compression == open_comp_graph::ExrCompression::kNone) {
                 spec.attribute(exr_compress_name, "none");
             } else if (compress.exr_compression == open_comp_graph::ExrCompression::kRle) {
@@ -288,10 +291,10 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
             } else if (compress.exr_compression == open_comp_graph::ExrCompression::kB44a) {
                 spec.attribute(exr_compress_name, "b44a");
             } else if (compress.exr_compression == open_comp_graph::ExrCompression::kDwaa) {
-                spec.attribute(exr_compress_name, "dwaa");
+                spec.attribute(exr_compress_name, "dwaa" + dwa_level_suffix);
                 spec.attribute(exr_dwa_level_name, dwa_level);
             } else if (compress.exr_compression == open_comp_graph::ExrCompression::kDwab) {
-                spec.attribute(exr_compress_name, "dwab");
+                spec.attribute(exr_compress_name, "dwab" + dwa_level_suffix);
                 spec.attribute(exr_dwa_level_name, dwa_level);
             }
 
-- 
2.43.0


From 806aee731ab664584dc3a75bb5b076b8802d7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:33 +0000
Subject: [PATCH 37/47] fix: keep cached images which fit the capacity exactly

---
 src/cache.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 8270f58..ba070e0 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -139,7 +139,7 @@ impl CacheImpl {
 
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
-        if expected_bytes >= self.capacity_bytes {
+        if expected_bytes > self.capacity_bytes {
             let require_used = self.capacity_bytes - value_bytes;
             let free_bytes_needed = self.used_bytes - require_used;
             self.evict_bytes(free_bytes_needed);
@@ -196,7 +196,7 @@ impl CacheImpl {
             false => self.used_bytes - n_bytes,
         };
 
-        while (self.used_bytes >= requested_capacity) && (self.lru_hash_map.len() > 0) {
+        while (self.used_bytes > requested_capacity) && (self.lru_hash_map.len() > 0) {
             self.evict();
         }
     }
-- 
2.43.0


From c8570acd201710d07bd9c3bfa2cb6f4dbbe2cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:55 +0000
Subject: [PATCH 38/47] Add a module for verification tools, compiled with
 --cfg ocg_verif only

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9922c29..ab4ecfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,3 +47,9 @@ pub mod pathutils;
 pub mod pixel;
 pub mod pixelblock;
 pub mod stream;
+
+// Access to internals for verification tools outside of this repository.
+#[cfg(ocg_verif)]
+pub mod verif {
+    include!(env!("OCG_VERIF_MODULE"));
+}
-- 
2.43.0


From 850d32bd70a93376557f8be69f6e497c9f71737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:09 +0000
Subject: [PATCH 39/47] fix: count a value of the cache once, when its key is
 inserted again

---
 src/cache.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index ba070e0..5363d5b 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -137,6 +137,11 @@ impl CacheImpl {
             return;
         }
 
+        // A value which is replaced does not use memory any more.
+        if let Some(old_value) = self.lru_hash_map.remove(&key) {
+            self.used_bytes -= old_value.size_bytes();
+        }
+
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
         if expected_bytes > self.capacity_bytes {
-- 
2.43.0


From b79fcaeca341426a491eedc46113c60d9d43fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:42 +0000
Subject: [PATCH 40/47] fix: Resample ignores surplus inputs, like the other
 nodes

---
 src/node/resample_image.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/node/resample_image.rs b/src/node/resample_image.rs
index d68e213..8d4e4d7 100644
--- a/src/node/resample_image.rs
+++ b/src/node/resample_image.rs
@@ -148,7 +148,6 @@ impl Operation for ResampleImageOperation {
             return NodeStatus::Valid;
         }
 
-        debug_assert!(inputs.len() == 1);
         let input = &inputs[0].clone();
         let mut stream_data = (**input).clone();
 
-- 
2.43.0


From e42293763f9922361c7bc5dfc652f4df0ff8af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:36 +0000
Subject: [PATCH 41/47] fix: a crop window upside down is empty

---
 src/node/crop_image.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index 3f7f1fb..876c0fd 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -184,7 +184,13 @@ impl Operation for CropImageOperation {
         let window_min_y = attr_block.get_attr_i32("window_min_y");
         let window_max_x = attr_block.get_attr_i32("window_max_x");
         let window_max_y = attr_block.get_attr_i32("window_max_y");
-        let crop_window = BBox2Di::new(window_min_x, window_min_y, window_max_x, window_max_y);
+        // A window with the maximum below the minimum is empty.
+        let crop_window = BBox2Di::new(
+            window_min_x,
+            window_min_y,
+            window_max_x.max(window_min_x),
+            window_max_y.max(window_min_y),
+        );
 
         let reformat = attr_block.get_attr_i32("reformat") == 1;
         let black_outside = attr_block.get_attr_i32("black_outside") == 1;
-- 
2.43.0


From 88e1ee54bfb86fddf63fc61ba123ea783604d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 42/47] fix: file extensions in upper case write the same
 colour space and windows

---
 src/node/write_image.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index ce31f73..1e76bbd 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -152,14 +152,18 @@ fn do_image_process(
         _ => bake_pixel_data_type,
     };
 
+    // The image format is found by the file extension, in upper or
+    // lower case.
+    let path_lower = path_expanded.to_lowercase();
+
     // The color space to write to.
-    let to_color_space = if path_expanded.ends_with(".jpg")
-        || path_expanded.ends_with(".png")
-        || path_expanded.ends_with(".jpeg")
-        || path_expanded.ends_with(".jpe")
-        || path_expanded.ends_with(".jif")
-        || path_expanded.ends_with(".jfif")
-        || path_expanded.ends_with(".jfi")
+    let to_color_space = if path_lower.ends_with(".jpg")
+        || path_lower.ends_with(".png")
+        || path_lower.ends_with(".jpeg")
+        || path_lower.ends_with(".jpe")
+        || path_lower.ends_with(".jif")
+        || path_lower.ends_with(".jfif")
+        || path_lower.ends_with(".jfi")
     {
         COLOR_SPACE_NAME_SRGB.to_string()
     } else {
@@ -198,7 +202,7 @@ fn do_image_process(
             // When If the image format does not support data
             // windows, then crop off the extra information outside
             // the display window.
-            let format_supports_data_window = path_expanded.ends_with(".exr");
+            let format_supports_data_window = path_lower.ends_with(".exr");
             !format_supports_data_window
         }
         _ => panic!("Invalid crop_on_write value: {:?}", crop_on_write),
-- 
2.43.0


From 0f523cf9e551e6d4f3d7720a3078dd949f76e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:43 +0000
Subject: [PATCH 43/47] fix: LUTs of different colour spaces never share a
 cache key

---
 src/colorlutimage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/colorlutimage.rs b/src/colorlutimage.rs
index c4a358c..aeb6bda 100644
--- a/src/colorlutimage.rs
+++ b/src/colorlutimage.rs
@@ -26,7 +26,7 @@
 //
 use log::debug;
 use std::collections::hash_map::DefaultHasher;
-use std::hash::Hasher;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
 use crate::cache::CacheImpl;
@@ -152,9 +152,9 @@ pub fn get_color_transform_3dlut(
     hasher.write(b"3DLUT Size:");
     hasher.write_i32(cube_size);
     hasher.write(b"From:");
-    hasher.write(from_color_space.as_bytes());
+    from_color_space.hash(&mut hasher);
     hasher.write(b"To:");
-    hasher.write(to_color_space.as_bytes());
+    to_color_space.hash(&mut hasher);
     let hash_value = hasher.finish();
 
     match cache.get(&hash_value) {
-- 
2.43.0


From 1f6f7db76c2b7b32fe4011c9206a1e9439e867fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:48 +0000
Subject: [PATCH 44/47] fix: transforming an image without pixels does not
 abort

---
 src/ops/pixelremap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index 237bc94..fcc4a84 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -82,7 +82,7 @@ pub fn pixels_remap_coords(
         dst_pixels_max_index,
     );
 
-    let pixel_coords_max_index = ((dst_height * dst_width) + 1) as usize;
+    let pixel_coords_max_index = (dst_height * dst_width * 2) as usize;
     assert!(
         pixel_coords.len() >= pixel_coords_max_index,
         "pixel_coords.len()={} pixel_coords_max_index={}",
-- 
2.43.0


From 08de73e3a8e7a14f4641b1ef1ee333931dbae213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:48 +0000
Subject: [PATCH 45/47] fix: a merge keeps the image spec of input B

The pixel aspect and orientation of input B were found and cached, but
never put into the output stream.
---
 src/node/merge_image.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/node/merge_image.rs b/src/node/merge_image.rs
index a8dba4b..2578815 100644
--- a/src/node/merge_image.rs
+++ b/src/node/merge_image.rs
@@ -236,12 +236,13 @@ impl Operation for MergeImageOperation {
         // Cache the results of the merge. If the input values do not
         // change we can easily look up the pixels again.
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -254,18 +255,28 @@ impl Operation for MergeImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
                 let img = do_image_process(&mut stream_data_a, &mut stream_data_b, merge_mode, mix);
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
@@ -301,6 +312,7 @@ impl Operation for MergeImageOperation {
         stream_data.set_display_window(display_window);
         stream_data.set_hash(hash_value);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         status
-- 
2.43.0


From b20a79eec6adb20882da12b1bd72dbf99f2de2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:00 +0000
Subject: [PATCH 46/47] fix: deforming an image with an empty display window
 does not abort

Deformers divide by the size of the display window. A crop reformatted
to an empty window gave a data window of the largest possible size,
which overflowed.
---
 src/deformutils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deformutils.rs b/src/deformutils.rs
index cbc2bd0..4aebe15 100644
--- a/src/deformutils.rs
+++ b/src/deformutils.rs
@@ -77,7 +77,9 @@ pub fn apply_deformers_to_pixels(
         .iter()
         .filter(|x| x.get_attr_i32("enable") == 1)
         .collect();
-    if enabled_deformers.len() == 0 {
+    // Deformers are relative to the display window, there is nothing
+    // to deform if it is empty.
+    if enabled_deformers.len() == 0 || display_window.area() == 0 {
         // Copy src to dst.
         *dst_pixel_block = src_pixel_block.clone();
         *dst_data_window = src_data_window.clone();
-- 
2.43.0


From e8120fbdb2ec06fcd9b23b1cf2693930c87f5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:44 +0000
Subject: [PATCH 47/47] fix: converting the colour space of an image without
 pixels crashed

---
 src/colorspace.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colorspace.cpp b/src/colorspace.cpp
index 0d6db9e..99ab277 100644
--- a/src/colorspace.cpp
+++ b/src/colorspace.cpp
@@ -82,6 +82,11 @@ bool oiio_color_convert_inplace(
         return false;
     }
 
+    if (width == 0 || height == 0) {
+        // There are no pixels to convert.
+        return true;
+    }
+
     auto roi = OIIO::get_roi_full(spec);
     const int32_t num_threads = 0;
     bool unpremult = unassociated_alpha;
-- 
2.43.0

