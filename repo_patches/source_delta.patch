From ff95ac9732b4f688ca11aaf03f24f07a5ee57f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 01/58] fix: assign a valid output buffer to nodes without
 outputs

A zero length block could start at the very end of the allocation, for which
there is no pointer, so that committing a graph containing a node without
outputs could panic. It could also share its start offset with another block.
---
 knaster_graph/src/graph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..0b0a19f 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1621,9 +1621,14 @@ impl<F: Float> Graph<F> {
         for (node_order_index, &key) in node_order.iter().enumerate() {
             let outputs = self.get_nodes()[key].data.outputs as usize;
             let num_borrows = self.get_nodes()[key].num_output_dependents;
-            let offset = self
-                .buffer_allocator
-                .get_block(outputs, self.block_size, num_borrows);
+            // A node without outputs doesn't need a block. It never writes to the buffer it is
+            // given, but it needs a valid pointer.
+            let offset = if outputs == 0 {
+                0
+            } else {
+                self.buffer_allocator
+                    .get_block(outputs, self.block_size, num_borrows)
+            };
             self.get_nodes_mut()[key].assign_output_offset(offset);
             let mut input_pointers_to_node = None;
             // Return every block that is used as an input
-- 
2.43.0


From 9554e26673043614aadf51ee58fcb63e77140a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 02/58] fix: don't reuse the output buffer of a node that feeds
 a graph output

The block of a node connected to both a node and a graph output was handed out
again once the connected node had been processed, overwriting the data before
it was copied to the graph output.
---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 0b0a19f..d65cf37 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1612,6 +1612,13 @@ impl<F: Float> Graph<F> {
                 (unsafe { &mut *self.nodes.get() })[edge.source].num_output_dependents += 1;
             }
         }
+        // Add graph outputs as dependents. They are never returned, because the buffers are
+        // copied to the graph outputs only after all nodes have been processed.
+        for edge in self.output_edges.iter().filter_map(|e| *e) {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
 
         let mut graph_input_pointers_to_nodes = Vec::new();
         // Assign buffers
-- 
2.43.0


From a291e1b2b875121b926958da4f4cfe9580524635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 03/58] fix: order all nodes after the nodes they depend on

With several graph outputs, or with connections between nodes not connected to
any output, a node could be placed before one of its sources. It would then
process stale or foreign data.
---
 knaster_graph/src/graph.rs | 84 +++++++++++---------------------------
 1 file changed, 24 insertions(+), 60 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index d65cf37..26c6051 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1990,84 +1990,48 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
     pub fn calculate_node_order(&mut self) {
-        self.node_order.clear();
         // Set the visited status for all nodes to false
         let mut visited = HashSet::new();
         let mut nodes_to_process = Vec::with_capacity(self.get_nodes_mut().capacity());
+        let mut node_order = Vec::with_capacity(self.get_nodes().len());
         for edge in self.output_edges.iter().filter_map(|e| *e) {
             if let NodeKeyOrGraph::Node(source) = edge.source {
                 // The same source node may be present in multiple output edges
-                // e.g. for stereo so we need to check if visited. The input to
-                // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // e.g. for stereo so we need to check if visited. Everything a node depends on is
+                // added before the node itself, no matter where the search starts.
+                if visited.insert(source) {
+                    nodes_to_process.push(source);
+                    node_order
+                        .extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
-        let mut remaining_nodes = vec![];
-        for (node_key, _node) in self.get_nodes() {
-            if !visited.contains(&node_key)
-                && !self
+        // Add all remaining nodes. These are not currently connected to any output, but they can be
+        // connected to each other.
+        let num_connected_nodes = node_order.len();
+        let remaining_nodes: Vec<NodeKey> = self
+            .get_nodes()
+            .keys()
+            .filter(|node_key| {
+                !self
                     .node_keys_to_free_when_safe
                     .iter()
-                    .any(|(key, _)| key == &node_key)
-            {
-                remaining_nodes.push(node_key);
+                    .any(|(key, _)| key == node_key)
+            })
+            .collect();
+        for node_key in remaining_nodes {
+            if visited.insert(node_key) {
+                nodes_to_process.push(node_key);
+                node_order.extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
             }
         }
-        self.node_order.extend(remaining_nodes.iter());
-        self.disconnected_nodes = remaining_nodes;
+        self.disconnected_nodes = node_order[num_connected_nodes..].to_vec();
+        self.node_order = node_order;
         // debug
         // let nodes = self.get_nodes();
         // for (i, n) in self.node_order.iter().enumerate() {
-- 
2.43.0


From 345710ef25cb743b3de3cb4d72e8b738a4775a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 04/58] fix: delay feedback connections by exactly one block in
 any node order

Both sides of a feedback connection were sinks sharing one buffer index, so the
source side never produced any output, and depending on which side was processed first
the delay would have been two blocks. The sink now also always runs after the node it
reads from.
---
 knaster_graph/src/graph.rs | 59 ++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 26c6051..07f9c66 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -816,7 +815,7 @@ impl<F: Float> Graph<F> {
             self.node_input_edges[sink][si_channel as usize] = Some(Edge {
                 source,
                 channel_in_source: so_channel,
-                is_feedback: feedback,
+                is_feedback: false,
             });
         }
     }
@@ -884,18 +883,13 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
+        // Both are processed exactly once per block, starting from the same block. Whichever is
+        // processed first, the source reads the buffer that the sink wrote to in the last block.
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
-        };
-        let source = FeedbackSink {
-            buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
+            bufnum: 0,
         };
+        let source = FeedbackSource { buffers, bufnum: 1 };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
         let sink_node = sink_handle.raw_handle.node.key;
@@ -1961,14 +1955,14 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                // Feedback edges lead to a `FeedbackSink`, which never causes a cycle and has to run
+                // after its source like any other node.
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
@@ -2336,12 +2330,8 @@ impl From<u16> for Channels<U1> {
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to write to in the next block
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2368,9 +2358,13 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
         let input = input.channel_as_slice(0);
-        unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
+        unsafe {
+            self.buffers[self.bufnum]
+                .as_slice_mut()
+                .copy_from_slice(input)
+        }
+        self.bufnum = 1 - self.bufnum;
     }
 
     fn param_hints()
@@ -2393,9 +2387,8 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
+    /// The buffer to read from in the next block
+    bufnum: usize,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2422,11 +2415,9 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
         let output = output.channel_as_slice_mut(0);
-        unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
+        unsafe { output.copy_from_slice(self.buffers[self.bufnum].as_slice_mut()) }
+        self.bufnum = 1 - self.bufnum;
     }
 
     fn param_hints()
-- 
2.43.0


From 3626f3071524e8f2915389b3177a3fb1e0b8d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 05/58] fix: disconnecting a graph input doesn't disconnect the
 graph output with the same index

It also indexed the graph outputs by the graph input channel, which panics if there are
fewer outputs than inputs.
---
 knaster_graph/src/graph.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 07f9c66..6f6bb0d 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1016,11 +1016,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
-- 
2.43.0


From d3a3fe471694667d1c0bf54eac695a73c1a2a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 06/58] fix: apply the disconnection of a graph output at the
 next commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 6f6bb0d..1e69904 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1079,6 +1079,7 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
-- 
2.43.0


From ffc7bcc57428969139f300dafc9793ecf3094ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 07/58] fix: refuse edits that name a node of a different graph

The check negated the graph id instead of the comparison and was never true, so that
another node that happens to have the same key was edited instead.
---
 knaster_graph/src/graph.rs      | 24 +++++++++++++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 1e69904..b2d4518 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -432,6 +432,10 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
+        if node_id.graph != self.graph_id {
+            log::error!("Failed to set the name {name} of a node in a different graph");
+            return;
+        }
         self.get_nodes_mut()[node_id.key()].name = name;
     }
 
@@ -503,13 +507,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -571,7 +575,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -634,14 +638,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -731,7 +735,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1343,7 +1347,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
@@ -2051,6 +2055,12 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
+        if node.graph != self.graph_id {
+            return Err(GraphError::WrongSinkNodeGraph {
+                expected_graph: self.graph_id,
+                found_graph: node.graph,
+            });
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 863c3f17df83dff31d6756d63c2c2e9f39a6a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 08/58] fix: refuse edits that name a node which was freed but
 is still stored

A freed node is stored until the audio thread no longer uses it. Until then, naming it in
an edit panicked or made edges to a node that is not part of the graph.
---
 knaster_graph/src/graph.rs | 44 ++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index b2d4518..a788180 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -342,7 +342,7 @@ impl<F: Float> Graph<F> {
     /// Get a metadata for a node with the given [`NodeId`] if it exists.
     pub fn node_data(&self, id: impl Into<NodeId>) -> Option<NodeData> {
         let node_id = id.into();
-        if node_id.graph != self.graph_id {
+        if node_id.graph != self.graph_id || !self.is_live(node_id.key()) {
             return None;
         }
         self.get_nodes().get(node_id.key()).map(|node| node.data)
@@ -352,7 +352,7 @@ impl<F: Float> Graph<F> {
         let name = name.into();
         self.get_nodes()
             .iter()
-            .find(|node| node.1.name == name)
+            .find(|node| node.1.name == name && self.is_live(node.0))
             .map(|node| {
                 (
                     NodeId {
@@ -432,8 +432,8 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
-        if node_id.graph != self.graph_id {
-            log::error!("Failed to set the name {name} of a node in a different graph");
+        if node_id.graph != self.graph_id || !self.is_live(node_id.key()) {
+            log::error!("Failed to set the name {name} of a node that isn't in this graph");
             return;
         }
         self.get_nodes_mut()[node_id.key()].name = name;
@@ -443,7 +443,7 @@ impl<F: Float> Graph<F> {
     pub fn node_id_with_name(&self, name: impl AsRef<str>) -> Option<NodeId> {
         let name = name.as_ref();
         for (id, node) in self.get_nodes() {
-            if node.name == name {
+            if node.name == name && self.is_live(id) {
                 return Some(NodeId {
                     key: id,
                     graph: self.graph_id,
@@ -521,13 +521,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.is_live(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -585,7 +585,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -672,7 +672,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.is_live(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -745,7 +745,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.is_live(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1007,7 +1007,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.is_live(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1059,7 +1059,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.is_live(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
@@ -1354,7 +1354,10 @@ impl<F: Float> Graph<F> {
             });
         }
         let nodes = self.get_nodes();
-        let Some(node) = nodes.get(node_id.key()) else {
+        let Some(node) = nodes
+            .get(node_id.key())
+            .filter(|_| self.is_live(node_id.key()))
+        else {
             return Err(GraphError::NodeNotFound);
         };
         let param_index = match param.into() {
@@ -1452,6 +1455,12 @@ impl<F: Float> Graph<F> {
         subgraph
     }
 
+    /// Returns true if the node is in the graph and has not been freed. A freed node is still stored
+    /// until it is no longer used on the audio thread.
+    fn is_live(&self, key: NodeKey) -> bool {
+        self.node_input_edges.contains_key(key)
+    }
+
     /// Returns true if there is a path from `from` to `to` in the graph.
     fn has_path(&self, from: NodeId, to: NodeId) -> bool {
         let mut visited = HashSet::new();
@@ -2061,12 +2070,11 @@ impl<F: Float> Graph<F> {
                 found_graph: node.graph,
             });
         }
-        if let Some(m) = self.node_mortality.get_mut(node.key()) {
-            *m = mortality;
-            Ok(())
-        } else {
-            Err(GraphError::NodeNotFound)
+        if !self.is_live(node.key()) {
+            return Err(GraphError::NodeNotFound);
         }
+        self.node_mortality[node.key()] = mortality;
+        Ok(())
     }
     /// Number of input channels going into this graph.
     pub fn inputs(&self) -> u16 {
-- 
2.43.0


From d9114955c0879e4ef153ed143cba4fa3583e0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 09/58] fix: check the parameter, the sink and circularity when
 connecting to a parameter

Connecting to a parameter of a missing node panicked, an unknown parameter index was
accepted, a cycle through a parameter connection was not detected, and the connection
didn't take effect until some other change required recalculating the graph. Also report
the right error when connecting a graph input to a node input that doesn't exist.
---
 knaster_graph/src/graph.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a788180..2692ce8 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -651,11 +651,19 @@ impl<F: Float> Graph<F> {
                 found_graph: sink.graph,
             });
         }
+        if !self.is_live(sink.key()) {
+            return Err(GraphError::NodeNotFound);
+        }
         let nodes = self.get_nodes();
         let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -678,6 +686,10 @@ impl<F: Float> Graph<F> {
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
+        self.recalculation_required = true;
 
         let edges = self
             .node_parameter_edges
@@ -749,7 +761,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
-            return Err(GraphError::OutputOutOfBounds(sink_channel));
+            return Err(GraphError::InputOutOfBounds(sink_channel));
         }
 
         self.connect_to_node_internal(
@@ -1362,7 +1374,7 @@ impl<F: Float> Graph<F> {
         };
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
@@ -1479,6 +1491,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From 45d5fd5d81c9ace044a74a45ae1cae8d4dfd26f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 10/58] fix: end audio-rate parameter connections when the
 source is freed or disconnected

Edges from the source to parameters were kept when the source was freed or its output
disconnected, and a parameter that had once been connected kept reading the buffer.
---
 knaster_core/src/ugen.rs                      |  5 +--
 .../src/wrappers_core/audio_rate.rs           |  6 +++-
 knaster_graph/src/graph.rs                    | 35 +++++++++++++++++++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..399779d 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -307,7 +307,8 @@ pub trait UGen {
     /// values. May panic or do nothing given unexpected values.
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue);
     /// Set an audio buffer to control a parameter. Does nothing unless an
-    /// `ArParams` wrapper or alternative wrapper making use of this value wraps the Gen.
+    /// `ArParams` wrapper or alternative wrapper making use of this value wraps the Gen. A null
+    /// pointer means that the parameter is no longer controlled by an audio buffer.
     ///
     /// There is little use in calling this directly unless you are implementing
     /// a graph. If you are not using a `Graph`, using the ArParams wrapper and
@@ -315,7 +316,7 @@ pub trait UGen {
     /// value every frame.
     ///
     /// # Safety
-    /// The caller guarantees that the pointer will point to a
+    /// The caller guarantees that the pointer will be null or point to a
     /// contiguous allocation of at least block size until it is replaced,
     /// disabled, or the inner struct is dropped.
     #[allow(unused)]
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..ca164ac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,11 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = if buffer.is_null() {
+            None
+        } else {
+            Some(buffer)
+        };
     }
 }
 
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 2692ce8..218a474 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -174,6 +174,8 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// The parameters which had a parameter edge when the task data was last generated.
+    connected_parameters: Vec<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -244,6 +246,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            connected_parameters: vec![],
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1052,6 +1055,12 @@ impl<F: Float> Graph<F> {
                 *edge = None;
             }
         }
+        for (_k, parameter_edges) in &mut self.node_parameter_edges {
+            parameter_edges.retain(|edge| {
+                edge.channel_in_source != source_channel
+                    || source != NodeKeyOrGraph::Node(edge.source)
+            });
+        }
 
         self.recalculation_required = true;
         Ok(())
@@ -1576,6 +1585,28 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // Release the parameters that are no longer connected
+        let released = crate::core::mem::replace(
+            &mut self.connected_parameters,
+            self.node_parameter_edges
+                .iter()
+                .flat_map(|(key, edges)| edges.iter().map(move |e| (key, e.parameter_index)))
+                .collect(),
+        );
+        for (node_key, parameter_index) in released {
+            if !self
+                .connected_parameters
+                .contains(&(node_key, parameter_index))
+            {
+                if let Some(node_index) = self.node_order.iter().position(|k| *k == node_key) {
+                    apc.push(ArParameterChange {
+                        node: node_index,
+                        parameter_index: parameter_index as usize,
+                        buffer: crate::core::ptr::null(),
+                    });
+                }
+            }
+        }
         apc
     }
 
@@ -1799,6 +1830,10 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // Remove all edges leading from the node to parameters of other nodes
+        for (_k, parameter_edges) in &mut self.node_parameter_edges {
+            parameter_edges.retain(|edge| edge.source != node_key);
+        }
         // Remove all edges leading from the node to the Graph output
         {
             let mut i = 0;
-- 
2.43.0


From 20fe860a410411a4ced4b114ec6807f78e94f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 11/58] fix: feedback connections from channels other than the
 first

---
 knaster_graph/src/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 218a474..d5ae265 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -787,7 +787,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -801,6 +801,7 @@ impl<F: Float> Graph<F> {
                 is_feedback: true,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
-- 
2.43.0


From b4be69eb167cafd11b07964b00d4af5f09228d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 12/58] fix: keep summing and feedback nodes exactly as long as
 they are needed

Removing redundant internal nodes panicked with an unconnected graph output, removed nodes twice,
lost parameter connections made through a sum, and missed nodes whose connection was replaced.
---
 knaster_graph/src/graph.rs | 120 ++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 60 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index d5ae265..82e2d2e 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1110,70 +1110,70 @@ impl<F: Float> Graph<F> {
         }
         Ok(())
     }
-    /// If the node should be automatically removed, this removes it.
-    fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) {
-        let node = &mut self.get_nodes_mut()[key];
+    /// Returns true if any input, parameter or graph output is connected to the node.
+    fn has_dependents(&self, key: NodeKey) -> bool {
+        let from_node = |edge: &Edge| edge.source == NodeKeyOrGraph::Node(key);
+        self.node_input_edges
+            .values()
+            .any(|edges| edges.iter().flatten().any(from_node))
+            || self
+                .node_parameter_edges
+                .values()
+                .any(|edges| edges.iter().any(|edge| edge.source == key))
+            || self.output_edges.iter().flatten().any(from_node)
+    }
+    /// If the node should be automatically removed, this removes it. Returns true if it was removed.
+    fn evaluate_if_node_should_be_removed(&mut self, key: NodeKey) -> bool {
+        // The node may already have been removed
+        if !self.is_live(key) {
+            return false;
+        }
+        let node = &self.get_nodes()[key];
         if node.auto_math_node {
             // We assume math nodes have two inputs and one output
             assert_eq!(node.data.inputs, 2);
             assert_eq!(node.data.outputs, 1);
-            if let Some(edges) = self.node_input_edges.get(key) {
-                match (edges[0], edges[1]) {
-                    (Some(_), Some(_)) => (),
-                    (None, Some(input_edge)) | (Some(input_edge), None) => {
-                        // Find out where this math node is pointing and replace the node
-                        for (_k, input_edges) in &mut self.node_input_edges {
-                            for edge in input_edges.iter_mut().filter(|e| e.is_some()) {
-                                let edge = edge.as_mut().unwrap();
-                                if let NodeKeyOrGraph::Node(source) = &edge.source {
-                                    if *source == key {
-                                        *edge = input_edge;
-                                    }
-                                }
-                            }
-                        }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
-                            if let NodeKeyOrGraph::Node(source) = &edge.source {
-                                if *source == key {
-                                    *edge = input_edge;
-                                }
-                            }
-                        }
-                        self.free_node_from_key(key).ok();
-                    }
-                    (None, None) => {
-                        // No inputs, simply remove
-                        self.free_node_from_key(key).ok();
+            let edges = &self.node_input_edges[key];
+            match (edges[0], edges[1]) {
+                (Some(_), Some(_)) => {
+                    if self.has_dependents(key) {
+                        return false;
                     }
                 }
-            }
-        }
-        let node = &mut self.get_nodes_mut()[key];
-        if node.auto_free_when_unconnected {
-            let mut unconnected = true;
-            'unconnected_block: {
-                if let Some(edges) = self.node_input_edges.get(key) {
-                    if edges.iter().flatten().peekable().peek().is_some() {
-                        unconnected = false;
-                        break 'unconnected_block;
+                (None, Some(input_edge)) | (Some(input_edge), None) => {
+                    // Find out where this math node is pointing and replace the node
+                    let from_node = |edge: &Edge| edge.source == NodeKeyOrGraph::Node(key);
+                    for edge in self
+                        .node_input_edges
+                        .values_mut()
+                        .flat_map(|edges| edges.iter_mut().flatten())
+                        .chain(self.output_edges.iter_mut().flatten())
+                    {
+                        if from_node(edge) {
+                            *edge = input_edge;
+                        }
                     }
-                }
-                for (_k, input_edges) in &mut self.node_input_edges {
-                    for edge in input_edges.iter().flatten() {
-                        if let NodeKeyOrGraph::Node(source) = &edge.source {
-                            if *source == key {
-                                unconnected = false;
-                                break 'unconnected_block;
+                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
+                        for edge in self.node_parameter_edges.values_mut().flatten() {
+                            if edge.source == key {
+                                edge.source = source;
+                                edge.channel_in_source = input_edge.channel_in_source;
                             }
                         }
                     }
                 }
+                // No inputs, simply remove
+                (None, None) => (),
             }
-            if unconnected {
-                self.free_node_from_key(key).ok();
+            return self.free_node_from_key(key).is_ok();
+        }
+        if node.auto_free_when_unconnected {
+            let has_inputs = self.node_input_edges[key].iter().flatten().next().is_some();
+            if !has_inputs && !self.has_dependents(key) {
+                return self.free_node_from_key(key).is_ok();
             }
         }
+        false
     }
     /// Connect a source to a sink with the designated channels, addin it to any existing connections to the sink at those channels. If you want to replace
     /// existing inputs to the sink, use [`Graph::connect2_replace`]
@@ -1958,17 +1958,17 @@ impl<F: Float> Graph<F> {
         // Remove orphaned internal math nodes.
         // Math nodes should be removed when one of its inputs was removed
         // This could be merged with the loop above, but then math nodes would be removed one step after its input(s)
-        let node_keys: Vec<NodeKey> = unsafe {
-            self.nodes
-                .get()
-                .as_mut()
-                .expect("nodes are always available")
-                .keys()
-                .collect()
-        };
-        for key in node_keys {
+        // Removing one of them can make another one redundant
+        loop {
             // TODO: Evaluate for affected nodes when changes occur instead of on all nodes.
-            self.evaluate_if_node_should_be_removed(key);
+            let node_keys: Vec<NodeKey> = self.get_nodes().keys().collect();
+            let mut removed_any = false;
+            for key in node_keys {
+                removed_any |= self.evaluate_if_node_should_be_removed(key);
+            }
+            if !removed_any {
+                break;
+            }
         }
 
         // Remove old nodes
-- 
2.43.0


From 17fa3b279f4cdee974e7ec8e144c884d64d4cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 13/58] fix: report feedback edges and subgraphs in the
 inspection

---
 knaster_graph/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 82e2d2e..ba1ee54 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1887,7 +1887,7 @@ impl<F: Float> Graph<F> {
                         },
                         from_index: edge.channel_in_source,
                         to_index: input_channel_index as u16,
-                        is_feedback: false,
+                        is_feedback: edge.is_feedback,
                     });
                 }
             }
@@ -1901,7 +1901,7 @@ impl<F: Float> Graph<F> {
                 parameter_descriptions: node.parameter_descriptions().collect(),
                 parameter_hints: node.parameter_hints().collect(),
                 unconnected: self.disconnected_nodes.contains(&node_key),
-                is_graph: None,
+                is_graph: node.is_graph,
             });
             node_key_processed.push(node_key);
         }
-- 
2.43.0


From 8e4b03adefbae37aae4935ed192e3d0f98291074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 14/58] fix: round conversions and products of Seconds
 correctly and keep them in range

---
 knaster_primitives/src/time.rs | 70 ++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..4825b57 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -35,7 +35,7 @@ impl Seconds {
     /// The maximum possible value of a [`Seconds`].
     pub const MAX: Self = Self {
         seconds: u32::MAX,
-        subsecond_tesimals: u32::MAX,
+        subsecond_tesimals: SUBSECOND_TESIMALS_PER_SECOND - 1,
     };
     #[allow(missing_docs)]
     pub fn new(seconds: u32, subsample_tesimals: u32) -> Self {
@@ -45,11 +45,16 @@ impl Seconds {
         }
     }
     /// Convert from subsample tesimals to a Supersecond.
+    ///
+    /// Saturates at [`Seconds::MAX`]
     pub fn from_subsample_tesimals_u64(subsample_tesimals: u64) -> Self {
-        let seconds = (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
+        let seconds = subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64;
+        if seconds > u32::MAX as u64 {
+            return Self::MAX;
+        }
         let subsample_tesimals =
-            (subsample_tesimals - (seconds as u64 * SUBSECOND_TESIMALS_PER_SECOND as u64)) as u32;
-        Self::new(seconds, subsample_tesimals)
+            (subsample_tesimals - (seconds * SUBSECOND_TESIMALS_PER_SECOND as u64)) as u32;
+        Self::new(seconds as u32, subsample_tesimals)
     }
     /// Convert seconds and tesimals to tesimals
     pub fn to_subsample_tesimals_u64(&self) -> u64 {
@@ -59,8 +64,10 @@ impl Seconds {
     pub fn from_secs_f64(seconds_f64: f64) -> Self {
         let seconds = seconds_f64.floor() as u32;
         let subsample_tesimals =
-            (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64) as u32;
-        Self::new(seconds, subsample_tesimals)
+            (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64).round() as u32;
+        Self::from_subsample_tesimals_u64(
+            seconds as u64 * SUBSECOND_TESIMALS_PER_SECOND as u64 + subsample_tesimals as u64,
+        )
     }
     /// Convert from seconds in f64 and return any precision loss incurred in the conversion
     pub fn from_secs_f64_return_precision_loss(seconds_f64: f64) -> (Self, f64) {
@@ -72,20 +79,25 @@ impl Seconds {
         self.seconds as f64
             + (self.subsecond_tesimals as f64 / SUBSECOND_TESIMALS_PER_SECOND as f64)
     }
-    /// Convert a number of samples at a given sample rate to a `Seconds`
+    /// Convert a number of samples at a given sample rate to a `Seconds`, rounded to the closest
+    /// tesimal.
     pub fn from_samples(samples: u64, sample_rate: u64) -> Self {
-        let seconds = (samples / sample_rate) as u32;
-        let subsample_tesimals =
-            ((samples % sample_rate) * SUBSECOND_TESIMALS_PER_SECOND as u64 / sample_rate) as u32;
-        Self {
-            seconds,
-            subsecond_tesimals: subsample_tesimals,
-        }
-    }
-    /// Convert to samples at a specific sample rate.
+        let seconds = samples / sample_rate;
+        let subsample_tesimals = ((samples % sample_rate) * SUBSECOND_TESIMALS_PER_SECOND as u64
+            + sample_rate / 2)
+            / sample_rate;
+        Self::from_subsample_tesimals_u64(
+            seconds
+                .saturating_mul(SUBSECOND_TESIMALS_PER_SECOND as u64)
+                .saturating_add(subsample_tesimals),
+        )
+    }
+    /// Convert to samples at a specific sample rate, rounded to the closest sample. This is the
+    /// inverse of [`Seconds::from_samples`] for any sample rate.
     pub fn to_samples(&self, sample_rate: u64) -> u64 {
         self.seconds as u64 * sample_rate
-            + ((self.subsecond_tesimals as u64 * sample_rate)
+            + ((self.subsecond_tesimals as u64 * sample_rate
+                + SUBSECOND_TESIMALS_PER_SECOND as u64 / 2)
                 / SUBSECOND_TESIMALS_PER_SECOND as u64)
     }
     /// Convert to samples at a specific sample rate.
@@ -135,10 +147,14 @@ impl Seconds {
 impl From<Duration> for Seconds {
     fn from(value: Duration) -> Self {
         let seconds = value.as_secs();
-        let nanos = value.subsec_nanos();
-        let conversion_factor = SUBSECOND_TESIMALS_PER_SECOND as f64 / 1_000_000_000_f64;
-        let subsample_tesimals = nanos as f64 * conversion_factor;
-        Self::new(seconds as u32, subsample_tesimals as u32)
+        let nanos = value.subsec_nanos() as u64;
+        let subsample_tesimals =
+            (nanos * SUBSECOND_TESIMALS_PER_SECOND as u64 + 500_000_000) / 1_000_000_000;
+        Self::from_subsample_tesimals_u64(
+            seconds
+                .saturating_mul(SUBSECOND_TESIMALS_PER_SECOND as u64)
+                .saturating_add(subsample_tesimals),
+        )
     }
 }
 impl PartialOrd for Seconds {
@@ -179,13 +195,11 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
-        Seconds::new(seconds, subsample_tesimals as u32)
+        let product =
+            self.to_subsample_tesimals_u64() as u128 * rhs.to_subsample_tesimals_u64() as u128;
+        let per_second = SUBSECOND_TESIMALS_PER_SECOND as u128;
+        let subsample_tesimals = (product + per_second / 2) / per_second;
+        Seconds::from_subsample_tesimals_u64(u64::try_from(subsample_tesimals).unwrap_or(u64::MAX))
     }
 }
 impl ops::Mul<f64> for Seconds {
-- 
2.43.0


From a4e235ff388236c0f7341ab9190fae8afa8e6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 15/58] fix: round conversions to Beats correctly

---
 knaster_primitives/src/time.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 4825b57..1effa1f 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -285,23 +285,29 @@ impl Beats {
     /// Fractional_beats must be in the range [0, FRACTION-1]
     pub fn from_fractional_beats<const FRACTION: u32>(beats: u32, fractional_beats: u32) -> Self {
         assert!(fractional_beats < FRACTION);
-        let tesimals = (SUBBEAT_TESIMALS_PER_BEAT / FRACTION) * fractional_beats;
-        Self::new(beats, tesimals)
+        let tesimals = (SUBBEAT_TESIMALS_PER_BEAT as u64 * fractional_beats as u64
+            + FRACTION as u64 / 2)
+            / FRACTION as u64;
+        Self::carry(beats, tesimals as u32)
     }
     /// Convert from number of beats in an f32. May be lossy depending on the value
     pub fn from_beats_f32(beats: f32) -> Self {
-        let fract = beats.fract();
-        Self {
-            beats: beats as u32,
-            beat_tesimals: (fract * SUBBEAT_TESIMALS_PER_BEAT as f32) as u32,
-        }
+        Self::from_beats_f64(beats as f64)
     }
     /// Convert from number of beats in an f64. May be lossy depending on the value
     pub fn from_beats_f64(beats: f64) -> Self {
         let fract = beats.fract();
-        Self {
-            beats: beats as u32,
-            beat_tesimals: (fract * SUBBEAT_TESIMALS_PER_BEAT as f64) as u32,
+        let beat_tesimals = (fract * SUBBEAT_TESIMALS_PER_BEAT as f64).round() as u32;
+        Self::carry(beats as u32, beat_tesimals)
+    }
+    // `beat_tesimals` that were rounded up to a whole beat
+    fn carry(beats: u32, beat_tesimals: u32) -> Self {
+        if beat_tesimals < SUBBEAT_TESIMALS_PER_BEAT {
+            Self::new(beats, beat_tesimals)
+        } else if beats < u32::MAX {
+            Self::new(beats + 1, beat_tesimals - SUBBEAT_TESIMALS_PER_BEAT)
+        } else {
+            Self::new(beats, SUBBEAT_TESIMALS_PER_BEAT - 1)
         }
     }
     /// Convert to number of beats in an f32. May be lossy depending on the value
-- 
2.43.0


From 5d9eb6033d8f7cdfe3eb0c59c5860221512e7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 16/58] fix: keep parameter changes to existing nodes until
 they are due

A change waiting for a later time or a token was dropped after one second.
---
 knaster_graph/src/graph_gen.rs  | 19 +++++++++++++------
 knaster_graph/src/scheduling.rs |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..0e0e030 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -43,9 +43,9 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     pub(super) freed: bool,
 
     // The parameter changes that haven't been applied yet, and the number of
-    // blocks it has stayed here. After a large number of blocks it is removed
-    // to avoid filling up the queue with parameter changes for nodes that don't
-    // exist anymore.
+    // blocks it has stayed here without its node existing. After a large number of
+    // such blocks it is removed to avoid filling up the queue with parameter changes
+    // for nodes that don't exist anymore.
     pub(super) waiting_parameter_changes: VecDeque<(SchedulingEvent, u32)>,
 
     pub(super) current_task_data: TaskData<F>,
@@ -119,8 +119,9 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     .expect(
                     "There should be at least waiting_parameter_changes elements in the vecdeque",
                 );
-                // Remove old changes that aren't applied in time. When a Gen is removed, but has parameter changes queued, they would otherwise pile up.
-                if num_blocks_waiting > self.blocks_to_keep_scheduled_changes {
+                let node_exists = keys.contains(&event.node_key);
+                // Remove old changes to nodes that don't exist. When a Gen is removed, but has parameter changes queued, they would otherwise pile up.
+                if !node_exists && num_blocks_waiting > self.blocks_to_keep_scheduled_changes {
                     // By not pushing it back to the vecdeque, this change is removed
                     continue;
                 }
@@ -133,8 +134,14 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     keys,
                     tasks,
                 ) {
+                    // Changes to existing nodes can wait for their time or token indefinitely.
+                    let num_blocks_waiting = if node_exists {
+                        0
+                    } else {
+                        num_blocks_waiting + 1
+                    };
                     self.waiting_parameter_changes
-                        .push_back((unapplied, num_blocks_waiting + 1));
+                        .push_back((unapplied, num_blocks_waiting));
                 }
             }
         }
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index f2c25cb..2de481f 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -83,7 +83,7 @@ impl Time {
         }
     }
     /// Time referencing `secs` seconds from when the event reaches audio thread. Note that the
-    /// [`GraphGen`] will discard changes that are scheduled to far into the future.
+    /// [`GraphGen`] will discard waiting changes if the node they are addressed to doesn't exist.
     pub fn after(secs: Seconds) -> Self {
         Self {
             seconds: secs,
-- 
2.43.0


From 47ad158d32cfd14282e5d7e64ab7019078a348e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 17/58] fix: leave parameter changes in the channel when too
 many are waiting

They were lost without the sender getting an error.
---
 knaster_graph/src/graph_gen.rs | 42 ++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 0e0e030..6046c67 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -148,28 +148,30 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
 
         // Get new parameter changes
         let parameter_changes_waiting = self.scheduling_event_receiver.slots();
-        if let Ok(pm_chunk) = self
-            .scheduling_event_receiver
-            .read_chunk(parameter_changes_waiting)
-        {
-            let keys = &self.current_task_data.node_task_order;
-            let tasks = &mut self.current_task_data.tasks;
-            for event in pm_chunk {
-                if let Some(event) = apply_parameter_change(
-                    event,
-                    ctx.block_size() as u64,
-                    ctx.sample_rate() as u64,
-                    ctx,
-                    keys,
-                    tasks,
-                ) {
-                    if self.waiting_parameter_changes.len()
-                        < self.waiting_parameter_changes.capacity()
-                    {
-                        self.waiting_parameter_changes.push_back((event, 0));
-                    }
+        let keys = &self.current_task_data.node_task_order;
+        let tasks = &mut self.current_task_data.tasks;
+        for _i in 0..parameter_changes_waiting {
+            let Ok(event) = self.scheduling_event_receiver.peek().cloned() else {
+                break;
+            };
+            if let Some(event) = apply_parameter_change(
+                event,
+                ctx.block_size() as u64,
+                ctx.sample_rate() as u64,
+                ctx,
+                keys,
+                tasks,
+            ) {
+                if self.waiting_parameter_changes.len() == self.waiting_parameter_changes.capacity()
+                {
+                    // There is no more room for changes that have to wait. Leave this change and
+                    // those after it in the channel until there is, so that none is lost and the
+                    // senders are told when the channel is full.
+                    break;
                 }
+                self.waiting_parameter_changes.push_back((event, 0));
             }
+            self.scheduling_event_receiver.pop().ok();
         }
         // TODO: Remove parameter changes that have expired for tasks
         // that don't exist (anymore, removed nodes). Otherwise they
-- 
2.43.0


From 59a9f9f9062dcf008b5f7b277ca017ea38cc7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 18/58] fix: count down relative times in whole samples

---
 knaster_graph/src/scheduling.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index 2de481f..8a19397 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -112,9 +112,9 @@ impl Time {
                 0
             } else {
                 let samples = self.seconds.to_samples(sample_rate);
-                self.seconds = self
-                    .seconds
-                    .saturating_sub(Seconds::from_samples(block_size, sample_rate));
+                // Subtract whole samples so that no rounding error accumulates over many blocks.
+                self.seconds =
+                    Seconds::from_samples(samples.saturating_sub(block_size), sample_rate);
                 samples
             }
         }
-- 
2.43.0


From 1eeef0bc89fde2ccd0f1c8f7834c66c37fabd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 19/58] fix: delay only the change a delay was set for in
 WrPreciseTiming

A delay stayed in force for all later changes of the same parameter, the
slots of changes applied when processing single frames were never reused
and changes due after the end of a partial block were lost.
---
 .../src/wrappers_core/precise_timing.rs       | 13 +++++++++----
 knaster_graph/src/graph_gen.rs                | 19 +++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..9f190b1 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -60,6 +60,7 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -109,8 +110,10 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
             block_i += local_frames_to_process;
         }
         ctx.block = org_block;
-        //
-        self.next_delay_i = 0;
+        // If only a part of the global block was processed there may be changes left, which will be
+        // due in a later part.
+        self.waiting_changes[..num_changes_scheduled].rotate_left(change_i);
+        self.next_delay_i = num_changes_scheduled - change_i;
     }
 
     type Parameters = T::Parameters;
@@ -124,10 +127,12 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.next_delay[index] == 0 {
+        // A delay is valid for one change only
+        let delay = crate::core::mem::take(&mut self.next_delay[index]);
+        if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
-            self.waiting_changes[self.next_delay_i] = Some((self.next_delay[index], index, value));
+            self.waiting_changes[self.next_delay_i] = Some((delay, index, value));
             self.next_delay_i += 1;
         } else {
             rt_log!(ctx.logger(); "Warning: Not enough space for echeduled changes in WrHiResParams, change ignored. Allocate more space for saving scheduled changes by setting the generic DelayedChangesPerBlock to a higher number than the current", DELAYED_CHANGES_PER_BLOCK);
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 6046c67..09b3803 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -297,14 +297,17 @@ fn apply_parameter_change<'a, F: Float>(
         for (key, task) in keys.iter().zip(tasks.iter_mut()) {
             if *key == node_key {
                 let g = &mut task.ugen;
-                if delay_in_block > 0 {
-                    g.set_delay_within_block_for_param(ctx, event.parameter, delay_in_block as u16);
-                }
-                if let Some(smoothing) = event.smoothing {
-                    g.param_apply(ctx, event.parameter, smoothing.into());
-                }
-                if let Some(value) = event.value {
-                    g.param_apply(ctx, event.parameter, value);
+                let changes = [event.smoothing.map(|s| s.into()), event.value];
+                for change in changes.into_iter().flatten() {
+                    // The delay applies to the next change only
+                    if delay_in_block > 0 {
+                        g.set_delay_within_block_for_param(
+                            ctx,
+                            event.parameter,
+                            delay_in_block as u16,
+                        );
+                    }
+                    g.param_apply(ctx, event.parameter, change);
                 }
                 return None;
             }
-- 
2.43.0


From 3921ddbc6b6813e64528076bf1bd408c2dd0890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 20/58] fix: propagate parameter delays and audio rate buffers
 through wrappers

---
 .../src/wrappers_core/audio_rate.rs           | 21 +++++++++++++++++++
 knaster_core_dsp/src/wrappers_core/math.rs    | 17 +++++++++++----
 .../src/wrappers_core/smooth_params.rs        | 16 ++++++++++++++
 3 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index ca164ac..bd99908 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -86,6 +86,11 @@ impl<T: UGen> UGen for WrArParams<T> {
             Some(buffer)
         };
     }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
@@ -172,4 +177,20 @@ where
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         self.ugen.param_apply(ctx, index, value);
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe {
+            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..646ce58 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -2,6 +2,7 @@ use crate::core::ops::Add;
 use knaster_core::{
     AudioCtx, Float, FloatMethods, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
     numeric_array::NumericArray,
+    rt_log,
     typenum::{Add1, Unsigned, bit::B1},
 };
 
@@ -102,13 +103,21 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        if index == T::Parameters::USIZE {
+            rt_log!(ctx.logger(); "Warning: Audio rate parameter buffer set for the value of a WrMul, but there is no WrArParams around it. It will have no effect.");
+        } else {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index == T::Parameters::USIZE {
+            rt_log!(ctx.logger(); "Warning: Parameter delay set for the value of a WrMul, but there is no WrPreciseTiming around it. It will have no effect.");
+        } else {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..480f1b6 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,22 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe {
+            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
-- 
2.43.0


From 000ab57378edc9eaa5d97f7ddb79f8ffdfffacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 21/58] fix: pass audio rate buffers and delays through WrDone,
 ignore non-integer done actions

---
 knaster_graph/src/wrappers_graph/done.rs | 31 +++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..400d4b3 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -14,6 +14,7 @@ use knaster_core::numeric_array::NumericArray;
 use knaster_core::typenum::{Add1, B1, Unsigned};
 use knaster_core::{
     AudioCtx, Block, BlockRead, Done, Frame, ParameterHint, ParameterValue, Size, UGen, UGenFlags,
+    rt_log,
 };
 
 /// Wrapper that can free a node once it has been marked as done.
@@ -113,9 +114,37 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.done_action = value.integer().unwrap().into();
+            if let Some(value) = value.integer() {
+                self.done_action = value.into();
+            } else {
+                rt_log!(ctx.logger(); "Warning: The parameter \"done_action\" was set to a value which isn't an integer. The change was ignored.");
+            }
         } else {
             self.ugen.param_apply(ctx, index, value);
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        if index == T::Parameters::USIZE {
+            rt_log!(ctx.logger(); "Warning: Audio rate parameter buffer set for \"done_action\". It will have no effect.");
+        } else {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index == T::Parameters::USIZE {
+            rt_log!(ctx.logger(); "Warning: Parameter delay set for \"done_action\". It will have no effect.");
+        } else {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From d077bcb8aca0d317185b27eeb5cc3baae55a79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 22/58] fix: terminate a graph at the earliest reported frame

---
 knaster_core/src/ugen.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 399779d..7711890 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -187,10 +187,12 @@ impl UGenFlags {
     ///
     /// From and including the frame number specified, the graph will output 0.0
     /// on all channels until removed. To output the entire block, set
-    /// `from_frame_in_block` to the current block size.
+    /// `from_frame_in_block` to the current block size. If this is called more than once in the same
+    /// block the earliest frame counts.
     pub fn mark_remove_parent(&mut self, from_frame: u32) {
         self.remove_parent = true;
-        self.remove_parent_from_frame_in_block = from_frame;
+        self.remove_parent_from_frame_in_block =
+            self.remove_parent_from_frame_in_block.min(from_frame);
     }
     /// Mark this node as done.
     ///
-- 
2.43.0


From 1a0162dd6f3c62f7817e09a3ce70ed31aca088e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 23/58] fix: let a terminated graph free what is removed from
 it

Its GraphGen received no changes any longer. Nodes freed or replaced
later were never dropped and commits panicked once the channel was full.
---
 knaster_graph/src/graph_gen.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 09b3803..99d49e5 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -84,12 +84,6 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        if self.freed {
-            for output_channel in output.iter_mut() {
-                output_channel.fill(F::ZERO);
-            }
-            return;
-        }
         let num_new_task_data = self.new_task_data_consumer.slots();
         if num_new_task_data > 0 {
             if let Ok(td_chunk) = self.new_task_data_consumer.read_chunk(num_new_task_data) {
@@ -193,6 +187,15 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             self._arc_buffer_allocation_ptr = buffer_allocation;
         }
 
+        if self.freed {
+            // Changes are still received above so that the Graph can free what it doesn't need any
+            // longer, but nothing is processed.
+            for output_channel in output.iter_mut() {
+                output_channel.fill(F::ZERO);
+            }
+            return;
+        }
+
         for (node_index, graph_input_indices) in graph_input_channels_to_nodes {
             let node_in_buffers = &mut tasks[*node_index].in_buffers;
             for (graph_input, node_input) in graph_input_indices {
-- 
2.43.0


From de23ec4e727411790e8b7705eb03db71f74a85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 24/58] fix: keep committing and freeing in a graph whose audio
 side was dropped

Commits to a subgraph which was removed from its parent panicked once its
channel was full, and nodes freed from it were kept until then.
---
 knaster_graph/src/graph.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ba1ee54..acd0308 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1080,7 +1080,6 @@ impl<F: Float> Graph<F> {
                         found_graph: self.graph_id,
                     });
                 }
-                let nodes = self.get_nodes();
                 if !self.is_live(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
@@ -1972,10 +1971,11 @@ impl<F: Float> Graph<F> {
         }
 
         // Remove old nodes
+        let graph_gen_was_dropped = self.graph_gen_communicator.graph_gen_was_dropped();
         let mut i = 0;
         while i < self.node_keys_to_free_when_safe.len() {
             let (key, flag) = &self.node_keys_to_free_when_safe[i];
-            if flag.load(Ordering::SeqCst) {
+            if graph_gen_was_dropped || flag.load(Ordering::SeqCst) {
                 unsafe { self.nodes.get().as_mut().unwrap().remove(*key) };
                 // nodes.remove(*key);
                 // self.node_keys_pending_removal.remove(key);
@@ -2229,6 +2229,16 @@ struct GraphGenCommunicator<F: Float> {
     // free_node_queue_consumer: rtrb::Consumer<(NodeKey, GenState)>,
 }
 impl<F: Float> GraphGenCommunicator<F> {
+    /// Returns true if the GraphGen was dropped, i.e. nothing is accessed on the audio thread any
+    /// longer.
+    fn graph_gen_was_dropped(&self) -> bool {
+        let dropped = self.new_task_data_producer.is_abandoned();
+        if dropped {
+            // Everything the GraphGen did happened before this
+            crate::core::sync::atomic::fence(Ordering::Acquire);
+        }
+        dropped
+    }
     fn free_old_task_data(&mut self) {
         // If there are discarded tasks, check if they can be removed
         let num_to_remove = self.task_data_to_be_dropped_consumer.slots();
@@ -2246,6 +2256,10 @@ impl<F: Float> GraphGenCommunicator<F> {
     /// resoruces in the Graph can be freed before running this.
     /// GraphGenCommunicator will free its own resources.
     fn send_updated_tasks(&mut self, task_data: TaskData<F>) -> Result<(), GraphError> {
+        if self.graph_gen_was_dropped() {
+            // Nothing will ever run the tasks
+            return Ok(());
+        }
         match self.new_task_data_producer.push(task_data) {
             Err(e) => Err(GraphError::SendToGraphGen(format!("{e}"))),
             _ => Ok(()),
-- 
2.43.0


From f01a329bf2bd8b716fa2860ba76466bfafd0586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 25/58] fix: don't deallocate scheduling tokens on the audio
 thread

Once a token had been activated the last reference to it was the one in
the last parameter change it was attached to, which is dropped on the
audio thread when applied.
---
 knaster_graph/src/graph.rs      | 16 ++++++------
 knaster_graph/src/graph_gen.rs  |  3 +++
 knaster_graph/src/handle.rs     | 43 ++++++++++++++++++++++++++-------
 knaster_graph/src/scheduling.rs |  8 ++++++
 4 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index acd0308..084b5d7 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -7,10 +7,7 @@ use crate::core::{
     sync::atomic::{AtomicBool, Ordering},
 };
 
-use crate::core::{
-    collections::HashSet,
-    sync::{Arc, Mutex},
-};
+use crate::core::{collections::HashSet, sync::Arc};
 
 use crate::{
     SharedFrameClock, Time,
@@ -231,9 +228,7 @@ impl<F: Float> Graph<F> {
             rtrb::RingBuffer::new(ring_buffer_size);
 
         let graph_gen_communicator = GraphGenCommunicator {
-            scheduling_event_producer: SchedulingChannelSender(Arc::new(Mutex::new(
-                scheduling_event_producer,
-            ))),
+            scheduling_event_producer: SchedulingChannelSender::new(scheduling_event_producer),
             task_data_to_be_dropped_consumer,
             new_task_data_producer,
             next_change_flag: Arc::new(AtomicBool::new(false)),
@@ -317,6 +312,10 @@ impl<F: Float> Graph<F> {
                 current_task_data: task_data,
                 block_size: graph.block_size,
                 scheduling_event_receiver,
+                _scheduling_event_sender: graph
+                    .graph_gen_communicator
+                    .scheduling_event_producer
+                    .clone(),
                 task_data_to_be_dropped_producer,
                 new_task_data_consumer,
                 freed: false,
@@ -2059,8 +2058,7 @@ impl<F: Float> Graph<F> {
                 // added before the node itself, no matter where the search starts.
                 if visited.insert(source) {
                     nodes_to_process.push(source);
-                    node_order
-                        .extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
+                    node_order.extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
                 }
             }
         }
diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 99d49e5..d2f9236 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -10,6 +10,7 @@ use crate::{
         sync::atomic::{AtomicBool, Ordering},
     },
     dynugen::DynUGen,
+    handle::SchedulingChannelSender,
 };
 
 use knaster_core::{
@@ -58,6 +59,8 @@ pub struct GraphGen<F: Float, Inputs: Size, Outputs: Size> {
     pub(super) _arc_buffer_allocation_ptr: Arc<OwnedRawBuffer<F>>,
     /// Stores the number of completed samples, updated at the end of a block
     pub(super) scheduling_event_receiver: SchedulingChannelConsumer,
+    // Makes sure that tokens which were sent are kept alive if the Graph and all handles are dropped.
+    pub(super) _scheduling_event_sender: SchedulingChannelSender,
     pub(super) task_data_to_be_dropped_producer: rtrb::Producer<TaskData<F>>,
     pub(super) new_task_data_consumer: rtrb::Consumer<TaskData<F>>,
     pub(super) remove_me_flag: Arc<AtomicBool>,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index bb68179..b315f61 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -36,8 +36,37 @@ pub struct NodeSubset {
 
 /// This is used to send scheduling events to the audio thread.
 #[derive(Clone, Debug)]
-pub struct SchedulingChannelSender(pub(crate) Arc<Mutex<SchedulingChannelProducer>>);
+pub struct SchedulingChannelSender(Arc<Mutex<SchedulingChannel>>);
+
+#[derive(Debug)]
+struct SchedulingChannel {
+    producer: SchedulingChannelProducer,
+    // Keeps every token that was sent alive for as long as it may be in use on the audio thread, so
+    // that it isn't deallocated there.
+    sent_tokens: Vec<SchedulingToken>,
+}
+impl SchedulingChannel {
+    fn push(&mut self, event: SchedulingEvent) -> Result<(), GraphError> {
+        let token = event.token.clone();
+        self.producer
+            .push(event)
+            .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+        if let Some(token) = token {
+            self.sent_tokens.retain(|t| t.is_shared());
+            if !self.sent_tokens.iter().any(|t| t.is_same(&token)) {
+                self.sent_tokens.push(token);
+            }
+        }
+        Ok(())
+    }
+}
 impl SchedulingChannelSender {
+    pub(crate) fn new(producer: SchedulingChannelProducer) -> Self {
+        Self(Arc::new(Mutex::new(SchedulingChannel {
+            producer,
+            sent_tokens: Vec::new(),
+        })))
+    }
     /// Send a scheduling event to the audio thread.
     ///
     /// # Errors
@@ -53,21 +82,17 @@ impl SchedulingChannelSender {
                 Ok(s) => s,
                 Err(s) => s.into_inner(),
             };
-            if sender.is_abandoned() {
+            if sender.producer.is_abandoned() {
                 // A fence might be required, see: https://docs.rs/rtrb/latest/rtrb/struct.Producer.html#method.is_abandoned
                 // std::sync::atomic::fence(std::sync::atomic::Ordering::Acquire);
                 return Err(ParameterError::GraphWasFreed.into());
             }
-            sender
-                .push(event)
-                .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+            sender.push(event)?;
         }
         #[cfg(not(feature = "std"))]
         {
             let mut sender = self.0.lock();
-            sender
-                .push(event)
-                .map_err(|e| GraphError::PushChangeError(e.to_string()))?;
+            sender.push(event)?;
         }
         Ok(())
     }
@@ -76,7 +101,7 @@ impl SchedulingChannelSender {
     pub fn is_alive(&self) -> bool {
         #[cfg(feature = "std")]
         match self.0.lock() {
-            Ok(s) => !s.is_abandoned(),
+            Ok(s) => !s.producer.is_abandoned(),
             _ => false,
         }
         // `spin` mutexes don't have a `is_abandoned` method, so we assume true
diff --git a/knaster_graph/src/scheduling.rs b/knaster_graph/src/scheduling.rs
index 8a19397..a86a736 100644
--- a/knaster_graph/src/scheduling.rs
+++ b/knaster_graph/src/scheduling.rs
@@ -160,6 +160,14 @@ impl SchedulingToken {
         }
     }
 
+    /// Returns true if there is any other copy of this token.
+    pub(crate) fn is_shared(&self) -> bool {
+        Arc::strong_count(&self.token) > 1
+    }
+    /// Returns true if `other` is a copy of this token.
+    pub(crate) fn is_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.token, &other.token)
+    }
     /// Check if the token is activated.
     pub fn is_activated(&self) -> bool {
         self.token.load(crate::core::sync::atomic::Ordering::SeqCst)
-- 
2.43.0


From 84401611ed5d6db9cd3d8bcf10fd8de8fa850e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 26/58] fix: keep the operand order of constants divided by or
 subtracted from by handles

2.0 - handle and 2.0 / handle built handle - 2.0 and handle / 2.0.
---
 knaster_graph/src/graph_edit.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..6510eee 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1038,8 +1038,10 @@ macro_rules! math_gen_fn_static_constant {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> ChannelsHandle<S0::Outputs> {
+            let (s0_input, s1_input) = if constant_first { (1, 0) } else { (0, 1) };
             let mut out_channels = ChannelIterBuilder::new();
             let mut g = graph.write();
             // TODO: Make a separate UGen for constant number maths to avoid this extra node
@@ -1047,10 +1049,11 @@ macro_rules! math_gen_fn_static_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                let mul_id = NodeOrGraph::Node(mul.node_id());
+                if let Err(e) = g.connect2(s0.0, s0.1, s0_input, mul_id) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(c.node_id(), 0, s1_input, mul_id) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1112,18 +1115,21 @@ macro_rules! math_gen_fn_dynamic_constant {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            constant_first: bool,
             graph: &GraphRef<F>,
         ) -> DynamicChannelsHandle {
+            let (s0_input, s1_input) = if constant_first { (1, 0) } else { (0, 1) };
             let mut out_channels = SmallVec::with_capacity(s0.outputs() as usize);
             let mut g = graph.write();
             let c: F = s1.into().into_f();
             let c = g.push_internal(Constant::new(c));
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                let mul_id = NodeOrGraph::Node(mul.node_id());
+                if let Err(e) = g.connect2(s0.0, s0.1, s0_input, mul_id) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(c.node_id(), 0, s1_input, mul_id) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1175,7 +1181,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
                 SH {
-                    nodes: $fn_name(self.nodes, rhs, graph),
+                    nodes: $fn_name(self.nodes, rhs, false, graph),
                     graph: &self.graph,
                 }
             }
@@ -1186,7 +1192,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $fn_name(rhs.nodes, self, true, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1382,7 +1388,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
-                let handle = $fn_name(self.nodes, rhs, graph);
+                let handle = $fn_name(self.nodes, rhs, false, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1394,7 +1400,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $fn_name(rhs.nodes, self, true, graph);
                 DH {
                     nodes: handle,
                     graph,
-- 
2.43.0


From b22289b7367ef6cbd7469e505fc4c07f9f9f6471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 27/58] fix: convert integer constants to f64 without rounding
 to f32

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 6510eee..8d5a510 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -988,7 +988,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From 463a5c640b33e81c421c75de6d9ea12f01b9ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 28/58] fix: send audio thread log messages whole or not at all

When the channel became full in the middle of a message, the part that
fit was joined with the next message.
---
 knaster_core/src/log.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/knaster_core/src/log.rs b/knaster_core/src/log.rs
index 0de445c..063cbc7 100644
--- a/knaster_core/src/log.rs
+++ b/knaster_core/src/log.rs
@@ -264,6 +264,18 @@ impl ArLogSender {
             ArLogSender::Log => log::warn!("{}", message),
         }
     }
+    /// Send a full message chain, i.e. one that ends with [`ArLogMessage::End`]. If there isn't room
+    /// for all of it, none of it is sent. This is what the `rt_log` macro uses.
+    pub fn send_chain(&mut self, chain: &[ArLogMessage]) {
+        if let ArLogSender::RingBuffer(sender) = self {
+            if sender.slots() < chain.len() {
+                return;
+            }
+        }
+        for message in chain {
+            self.send(*message);
+        }
+    }
 }
 
 /// Macro for sending [`ArLogMessage`]s via an [`ArLogSender`] to an [`ArLogReceiver`].
@@ -272,10 +284,8 @@ macro_rules! rt_log {
     ($logger:expr; $($msg:expr),* $(,)?) => {{
     {
     use $crate::log::ArLogMessage;
-        $(
-            $logger.send(ArLogMessage::from($msg));
-        )*
-        $logger.send(ArLogMessage::End);
+        let chain = [$(ArLogMessage::from($msg),)* ArLogMessage::End];
+        $logger.send_chain(&chain);
     }
     }};
 }
-- 
2.43.0


From 8f1b904e5025e2c5c800cf764e674305897867da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 29/58] fix: don't deallocate replaced buffers on the audio
 thread after the graph was dropped

---
 knaster_graph/src/graph_gen.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index d2f9236..b177e7b 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -92,6 +92,14 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             if let Ok(td_chunk) = self.new_task_data_consumer.read_chunk(num_new_task_data) {
                 for mut td in td_chunk {
                     td.apply_self_on_audio_thread(ctx, &mut self.current_task_data);
+                    if let Some(buffer_allocation) = &mut td.current_buffer_allocation {
+                        // Keep the new buffers alive. The old ones leave with this TaskData so that
+                        // they aren't deallocated on the audio thread if the Graph was dropped.
+                        crate::core::mem::swap(
+                            buffer_allocation,
+                            &mut self._arc_buffer_allocation_ptr,
+                        );
+                    }
                     let old_td = crate::core::mem::replace(&mut self.current_task_data, td);
                     match self.task_data_to_be_dropped_producer.push(old_td) {
                         Ok(_) => (),
@@ -178,18 +186,13 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         let TaskData {
             tasks,
             output_task,
-            current_buffer_allocation: new_buffer_allocation,
+            current_buffer_allocation: _,
             graph_input_channels_to_nodes,
             applied: _,
             ar_parameter_changes: _,
             node_task_order: _,
         } = task_data;
 
-        if let Some(buffer_allocation) = new_buffer_allocation.take() {
-            // The old buffers will be kept alive until the Arc has been dropped in the GraphGen
-            self._arc_buffer_allocation_ptr = buffer_allocation;
-        }
-
         if self.freed {
             // Changes are still received above so that the Graph can free what it doesn't need any
             // longer, but nothing is processed.
-- 
2.43.0


From 73e8440b6a2a0154a60c30db808d4fb856a1c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 30/58] fix: refuse input slices that are shorter than a block

---
 knaster_graph/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..dd8ac4d 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -118,6 +118,10 @@ impl<F: Float> AudioProcessor<F> {
     /// Produce one block of audio with the given inputs
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
+        assert!(
+            inputs.iter().all(|slice| slice.len() >= self.block_size),
+            "Every input must contain at least one block of samples"
+        );
         for (slice, ptr) in inputs.iter().zip(self.input_pointers.iter_mut()) {
             *ptr = slice.as_ptr();
         }
-- 
2.43.0


From f59460dc8f53fade7efbd1d6278461a6ecd71d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 31/58] fix: multiplying Beats by integers or Beats is exact

---
 knaster_primitives/src/time.rs | 43 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 1effa1f..184e718 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -310,6 +310,17 @@ impl Beats {
             Self::new(beats, SUBBEAT_TESIMALS_PER_BEAT - 1)
         }
     }
+    fn to_beat_tesimals(self) -> u64 {
+        self.beats as u64 * SUBBEAT_TESIMALS_PER_BEAT as u64 + self.beat_tesimals as u64
+    }
+    // Saturates at the maximum number of beats
+    fn from_beat_tesimals(tesimals: u128) -> Self {
+        let per_beat = SUBBEAT_TESIMALS_PER_BEAT as u128;
+        match u32::try_from(tesimals / per_beat) {
+            Ok(beats) => Self::new(beats, (tesimals % per_beat) as u32),
+            Err(_) => Self::new(u32::MAX, SUBBEAT_TESIMALS_PER_BEAT - 1),
+        }
+    }
     /// Convert to number of beats in an f32. May be lossy depending on the value
     pub fn as_beats_f32(&self) -> f32 {
         self.beats as f32 + (self.beat_tesimals as f32 / SUBBEAT_TESIMALS_PER_BEAT as f32)
@@ -393,28 +404,16 @@ impl ops::Mul<Beats> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: Beats) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        let b1 = rhs.as_beats_f64();
-        Self::from_beats_f64(b0 * b1)
-        // let mut beats = self.beats * rhs.beats
-        //     + ((self.beats as u64 * rhs.beat_tesimals as u64) / SUBBEAT_TESIMALS_PER_BEAT as u64)
-        //         as u32;
-        // let mut beat_tesimals = (self.beat_tesimals as u64 * rhs.beat_tesimals as u64)
-        //     / SUBBEAT_TESIMALS_PER_BEAT as u64
-        //     + self.beat_tesimals as u64 * rhs.beats as u64;
-        // if beat_tesimals > SUBBEAT_TESIMALS_PER_BEAT as u64 {
-        //     beats += (beat_tesimals / SUBBEAT_TESIMALS_PER_BEAT as u64) as u32;
-        //     beat_tesimals %= SUBBEAT_TESIMALS_PER_BEAT as u64;
-        // }
-        // Beats::new(beats, beat_tesimals as u32)
+        let product = self.to_beat_tesimals() as u128 * rhs.to_beat_tesimals() as u128;
+        let per_beat = SUBBEAT_TESIMALS_PER_BEAT as u128;
+        Self::from_beat_tesimals((product + per_beat / 2) / per_beat)
     }
 }
 impl ops::Mul<f32> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: f32) -> Self::Output {
-        let b0 = self.as_beats_f32();
-        Self::from_beats_f32(b0 * rhs)
+        self * rhs as f64
     }
 }
 impl ops::Mul<f64> for Beats {
@@ -429,32 +428,28 @@ impl ops::Mul<u64> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u64) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        Self::from_beat_tesimals(self.to_beat_tesimals() as u128 * rhs as u128)
     }
 }
 impl ops::Mul<u32> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u32) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        self * rhs as u64
     }
 }
 impl ops::Mul<u16> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u16) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        self * rhs as u64
     }
 }
 impl ops::Mul<u8> for Beats {
     type Output = Self;
 
     fn mul(self, rhs: u8) -> Self::Output {
-        let b0 = self.as_beats_f64();
-        Self::from_beats_f64(b0 * rhs as f64)
+        self * rhs as u64
     }
 }
 impl ops::MulAssign<Beats> for Beats {
-- 
2.43.0


From a591bd71923ed061922ce799100b2d15b62750f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 32/58] fix: seconds and beats too large for their type
 saturate at the maximum

---
 knaster_primitives/src/time.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 184e718..41d20b7 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -62,11 +62,13 @@ impl Seconds {
     }
     #[allow(missing_docs)]
     pub fn from_secs_f64(seconds_f64: f64) -> Self {
-        let seconds = seconds_f64.floor() as u32;
+        let seconds = seconds_f64.floor() as u64;
         let subsample_tesimals =
-            (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64).round() as u32;
+            (seconds_f64.fract() * SUBSECOND_TESIMALS_PER_SECOND as f64).round() as u64;
         Self::from_subsample_tesimals_u64(
-            seconds as u64 * SUBSECOND_TESIMALS_PER_SECOND as u64 + subsample_tesimals as u64,
+            seconds
+                .saturating_mul(SUBSECOND_TESIMALS_PER_SECOND as u64)
+                .saturating_add(subsample_tesimals),
         )
     }
     /// Convert from seconds in f64 and return any precision loss incurred in the conversion
@@ -298,7 +300,9 @@ impl Beats {
     pub fn from_beats_f64(beats: f64) -> Self {
         let fract = beats.fract();
         let beat_tesimals = (fract * SUBBEAT_TESIMALS_PER_BEAT as f64).round() as u32;
-        Self::carry(beats as u32, beat_tesimals)
+        Self::from_beat_tesimals(
+            beats as u64 as u128 * SUBBEAT_TESIMALS_PER_BEAT as u128 + beat_tesimals as u128,
+        )
     }
     // `beat_tesimals` that were rounded up to a whole beat
     fn carry(beats: u32, beat_tesimals: u32) -> Self {
-- 
2.43.0


From 1b92e625f8fde94bf55ba90c4422eaf7fe961fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 33/58] fix: don't panic on the audio thread when a unit
 receives a value of another kind

---
 knaster_airwindows/src/galactic.rs         | 13 +++++++----
 knaster_core_dsp/src/ugens/envelopes.rs    |  8 +++++--
 knaster_core_dsp/src/wrappers_core/math.rs |  6 ++++-
 knaster_macros/src/lib.rs                  | 27 +++++++++++++++++-----
 4 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index fba545c..d5a1fc4 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -125,12 +125,15 @@ impl<F: Float> UGen for Galactic<F> {
         index: usize,
         value: knaster_core::ParameterValue,
     ) {
+        let Some(value) = value.f() else {
+            return;
+        };
         match index {
-            Self::REPLACE => self.replace = value.f().unwrap(),
-            Self::DETUNE => self.detune = value.f().unwrap(),
-            Self::BRIGHTNESS => self.brightness = value.f().unwrap(),
-            Self::BIGNESS => self.bigness = value.f().unwrap(),
-            Self::WET => self.wet = value.f().unwrap(),
+            Self::REPLACE => self.replace = value,
+            Self::DETUNE => self.detune = value,
+            Self::BRIGHTNESS => self.brightness = value,
+            Self::BIGNESS => self.bigness = value,
+            Self::WET => self.wet = value,
             _ => (),
         }
     }
diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index 170501e..e7a43bb 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -476,10 +476,14 @@ mod alloc_envelopes {
         fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
             match index {
                 0 => {
-                    self.time_scale = F::new(value.float().unwrap()).to_f64();
+                    if let Some(time_scale) = value.f::<F>() {
+                        self.time_scale = time_scale.to_f64();
+                    }
                 }
                 1 => {
-                    let mut jump_to_segment = value.integer().unwrap().0;
+                    let Some(PInteger(mut jump_to_segment)) = value.integer() else {
+                        return;
+                    };
                     if jump_to_segment >= self.segments.len() {
                         jump_to_segment = self.segments.len() - 1;
                     }
diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index 646ce58..edffc04 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -92,7 +92,11 @@ where
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         if index == T::Parameters::USIZE {
-            self.value = T::Sample::new(value.float().unwrap());
+            if let Some(value) = value.f() {
+                self.value = value;
+            } else {
+                rt_log!(ctx.logger(); "Warning: The value of a WrMul was set to something which isn't a float. The change was ignored.");
+            }
         } else {
             T::param_apply(&mut self.ugen, ctx, index, value)
         }
diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 6656861..968a9c3 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -596,19 +596,33 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
         .enumerate()
         .map(|(index, p)| {
             let fn_name = &p.fn_name;
+            let value = match &p.ty {
+                ParameterType::PFloat | ParameterType::Float64 | ParameterType::Float32 => {
+                    quote! { _value.float() }
+                }
+                ParameterType::Integer => quote! { _value.integer() },
+                ParameterType::Bool => quote! { _value.bool() },
+                ParameterType::Trigger => quote! { Some(()) },
+            };
             let arguments = p.arguments.iter().map(|a| match a {
                 ParameterArgumentTypes::Parameter(ty) => match ty {
-                    ParameterType::PFloat => quote! { _value.float().expect("parameter value is expected to be a float") },
-                    ParameterType::Float64 => quote! { _value.float().expect("parameter value is expected to be a float") as f64 },
-                    ParameterType::Float32 => quote! { _value.float().expect("parameter value is expected to be a float") as f32 },
-                    ParameterType::Integer => quote! { _value.integer().expect("parameter value is expected to be an integer") },
-                    ParameterType::Bool => quote! { _value.bool().expect("parameter value is expected to be a boolean") },
+                    ParameterType::Float64 => quote! { value as f64 },
+                    ParameterType::Float32 => quote! { value as f32 },
                     ParameterType::Trigger => quote! {},
+                    _ => quote! { value },
                 },
                 ParameterArgumentTypes::Ctx => quote! { ctx },
                 ParameterArgumentTypes::Flags => quote! { _flags },
             });
-            quote! { #index => { Self::#fn_name (self, #(#arguments),*); } }
+            quote! {
+                #index => match #value {
+                    #[allow(unused_variables)]
+                    Some(value) => { Self::#fn_name (self, #(#arguments),*); }
+                    None => {
+                        #crate_ident::rt_log!(ctx.logger(); "Parameter set to a value of the wrong type for #struct_name : ", _index);
+                    }
+                }
+            }
         })
         .collect::<Vec<_>>();
     let parameter_hints = params
@@ -757,6 +771,7 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
             ) {
                 if let #crate_ident::ParameterValue::Smoothing(_, _) =_value  {
                     #crate_ident::rt_log!(ctx.logger(); "Error setting parameter smoothing for #struct_name, wrapper does not exist. Index: ", _index);
+                    return;
                 }
                 match _index {
                     #(#parameter_calls),*
-- 
2.43.0


From fd438bf6de6e38d6fe3cf106cada4c2c0ee645a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 34/58] fix: integer hints cover exactly the values of the
 enum, the last included

---
 knaster_core/src/parameters.rs |  4 ++--
 knaster_macros/src/lib.rs      | 36 +++++++++++++++-------------------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/knaster_core/src/parameters.rs b/knaster_core/src/parameters.rs
index 95955a0..c29f6df 100644
--- a/knaster_core/src/parameters.rs
+++ b/knaster_core/src/parameters.rs
@@ -190,7 +190,7 @@ impl Default for PFloatHint {
 pub struct PIntegerHint {
     /// Default value of parameter
     pub default: Option<PInteger>,
-    /// Legal range of values for parameter
+    /// Legal range of values for parameter, inclusive
     pub range: (PInteger, PInteger),
     /// Descriptions for each legal value, if available. This is most useful when the PInteger is
     /// used to represent different enum variants with names.
@@ -213,7 +213,7 @@ impl PIntegerHint {
     /// Returns all the descriptions of the values for this parameter.
     pub fn descriptions(&self) -> Option<crate::core::vec::Vec<(PInteger, String)>> {
         self.value_descriptions.map(|func| {
-            (self.range.0.0..self.range.1.0)
+            (self.range.0.0..=self.range.1.0)
                 .map(|pi| {
                     (
                         PInteger(pi),
diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 968a9c3..9095096 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -22,22 +22,14 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
 
     let ident = input.ident;
 
-    let (len, descriptions) = match input.data {
-        syn::Data::Enum(enum_item) => {
-            let descriptions = enum_item
-                .variants
-                .iter()
-                .map(|v| v.ident.to_string())
-                .collect::<Vec<_>>();
-            (enum_item.variants.len(), descriptions)
-        }
+    let (variants, descriptions): (Vec<_>, Vec<_>) = match input.data {
+        syn::Data::Enum(enum_item) => enum_item
+            .variants
+            .iter()
+            .map(|v| (v.ident.clone(), v.ident.to_string()))
+            .unzip(),
         _ => panic!("KnasterIntegerParameter only works on Enums"),
     };
-    let description_matches = descriptions.iter().enumerate().map(|(i, d)| {
-        quote! {
-            PInteger(#i) => Some(#d),
-        }
-    });
 
     // Build the output, possibly using quasi-quotation
     let expanded = quote! {
@@ -53,16 +45,20 @@ pub fn knaster_integer_parameter(input: TokenStream) -> TokenStream {
     }
     impl #crate_ident::PIntegerConvertible for #ident {
         fn pinteger_range() -> (PInteger, PInteger) {
+            let values = [ #( #ident::#variants as usize ),* ];
             (
-                PInteger(0),
-                PInteger(#len),
+                PInteger(values.iter().copied().min().unwrap_or(0)),
+                PInteger(values.iter().copied().max().unwrap_or(0)),
             )
         }
         fn pinteger_descriptions(v: PInteger) -> Option<&'static str> {
-                match v {
-                    #(#description_matches)*
-                    _ => None,
-                }
+                // The integer of each variant is its discriminant
+                #(
+                    if v.0 == #ident::#variants as usize {
+                        return Some(#descriptions);
+                    }
+                )*
+                None
         }
     }
             };
-- 
2.43.0


From 9249330cf0983047fd8de3eafd32afffde1a1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 35/58] fix: setting a parameter refuses wrong indices and
 kinds of values

---
 knaster_core/src/parameters.rs  | 11 +++++++++++
 knaster_core/src/ugen.rs        | 24 ++++++++++++------------
 knaster_graph/src/graph.rs      |  7 +++++++
 knaster_graph/src/graph_edit.rs | 30 ++++++++++++++++++++++++++++--
 knaster_graph/src/handle.rs     | 28 ++++++++++++++++++++++++++--
 5 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/knaster_core/src/parameters.rs b/knaster_core/src/parameters.rs
index c29f6df..27569cc 100644
--- a/knaster_core/src/parameters.rs
+++ b/knaster_core/src/parameters.rs
@@ -294,6 +294,17 @@ impl ParameterHint {
             ParameterHint::Bool => ParameterType::Bool,
         }
     }
+    /// Returns true if a parameter with this hint can be set to a value of the same kind as
+    /// `value`. The smoothing of a float parameter can be set too.
+    pub fn accepts(&self, value: &ParameterValue) -> bool {
+        matches!(
+            (self, value.ty()),
+            (ParameterHint::Float(_), ParameterType::Float)
+                | (ParameterHint::Trigger, ParameterType::Trigger)
+                | (ParameterHint::Integer(_), ParameterType::Integer)
+                | (ParameterHint::Bool, ParameterType::Bool)
+        )
+    }
     /// Return the inner [`PFloatHint`] if this hint is of float type.
     pub fn float_hint(&self) -> Option<&PFloatHint> {
         match self {
diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 7711890..ad854d8 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -350,23 +350,23 @@ pub trait UGen {
         param: impl Into<Param>,
         value: impl Into<ParameterValue>,
     ) -> Result<(), ParameterError> {
-        match param.into() {
+        let index = match param.into() {
             Param::Index(i) => {
                 if i >= Self::Parameters::USIZE {
                     return Err(ParameterError::ParameterIndexOutOfBounds);
                 }
-                self.param_apply(ctx, i, value.into());
-                Ok(())
-            }
-            Param::Desc(desc) => {
-                for (i, d) in Self::param_descriptions().into_iter().enumerate() {
-                    if d == desc {
-                        self.param_apply(ctx, i, value.into());
-                        return Ok(());
-                    }
-                }
-                Err(ParameterError::DescriptionNotFound(desc))
+                i
             }
+            Param::Desc(desc) => Self::param_descriptions()
+                .into_iter()
+                .position(|d| d == desc)
+                .ok_or(ParameterError::DescriptionNotFound(desc))?,
+        };
+        let value = value.into();
+        if !Self::param_hints()[index].accepts(&value) {
+            return Err(ParameterError::WrongParameterType);
         }
+        self.param_apply(ctx, index, value);
+        Ok(())
     }
 }
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 084b5d7..13fcc30 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1399,6 +1399,13 @@ impl<F: Float> Graph<F> {
             }
         };
         let value = value.into();
+        if !node
+            .parameter_hints()
+            .nth(param_index)
+            .is_some_and(|hint| hint.accepts(&value))
+        {
+            return Err(ParameterError::WrongParameterType.into());
+        }
         self.graph_gen_communicator
             .scheduling_event_producer
             .send(crate::SchedulingEvent {
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8d5a510..13b4df5 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -32,7 +32,9 @@ use crate::node::NodeData;
 use crate::wrappers_graph::done::WrDone;
 
 use ecow::EcoString;
-use knaster_core::{Done, ParameterSmoothing, ParameterValue, Seconds};
+use knaster_core::{
+    Done, ParameterError, ParameterHint, ParameterSmoothing, ParameterValue, Seconds,
+};
 use knaster_core::{Float, Param, Size, UGen, numeric_array::NumericArray, typenum::*};
 use knaster_core_dsp::math::MathUGen;
 use knaster_core_dsp::util::Constant;
@@ -774,6 +776,7 @@ impl<'a, 'b, F: Float, U: UGen<Sample = F>> SH<'a, 'b, F, Handle3<U>> {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
+                        hint: U::param_hints()[i],
                         sender: self.graph.read().scheduling_channel_sender(),
                     })
                 } else {
@@ -786,6 +789,7 @@ impl<'a, 'b, F: Float, U: UGen<Sample = F>> SH<'a, 'b, F, Handle3<U>> {
                         return Some(Parameter {
                             node: self.nodes.node_id,
                             param_index: i as u16,
+                            hint: U::param_hints()[i],
                             sender: self.graph.read().scheduling_channel_sender(),
                         });
                     }
@@ -860,10 +864,11 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
+                        hint: (self.nodes.data.parameter_hints_fn)(i)?,
                         sender: self.graph.read().scheduling_channel_sender(),
                     })
                 } else {
@@ -876,6 +881,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
                         return Some(Parameter {
                             node: self.nodes.node_id,
                             param_index: i as u16,
+                            hint: (self.nodes.data.parameter_hints_fn)(i)?,
                             sender: self.graph.read().scheduling_channel_sender(),
                         });
                     }
@@ -1706,13 +1712,22 @@ pub trait Dynamic {
 pub struct Parameter {
     pub(crate) node: NodeId,
     pub(crate) param_index: u16,
+    hint: ParameterHint,
     /// Allows us to send parameter changes straight to the audio thread
     sender: SchedulingChannelSender,
 }
 impl Parameter {
+    fn check_type(&self, value: &ParameterValue) -> Result<(), GraphError> {
+        if self.hint.accepts(value) {
+            Ok(())
+        } else {
+            Err(ParameterError::WrongParameterType.into())
+        }
+    }
     /// Set the value of the parameter.
     pub fn set(&mut self, value: impl Into<ParameterValue>) -> Result<(), GraphError> {
         let value = value.into();
+        self.check_type(&value)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1730,6 +1745,7 @@ impl Parameter {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let value = value.into();
+        self.check_type(&value)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1747,6 +1763,7 @@ impl Parameter {
         t: impl Into<Seconds>,
     ) -> Result<(), GraphError> {
         let value = value.into();
+        self.check_type(&value)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1765,6 +1782,7 @@ impl Parameter {
         t: impl Into<Seconds>,
     ) -> Result<(), GraphError> {
         let value = value.into();
+        self.check_type(&value)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1778,6 +1796,7 @@ impl Parameter {
     /// Set the smoothing setting for the parameter.
     pub fn smooth(&mut self, s: impl Into<ParameterSmoothing>) -> Result<(), GraphError> {
         let s = s.into();
+        self.check_type(&s.into())?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1795,6 +1814,7 @@ impl Parameter {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let s = s.into();
+        self.check_type(&s.into())?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1812,6 +1832,7 @@ impl Parameter {
         t: impl Into<Seconds>,
     ) -> Result<(), GraphError> {
         let s = s.into();
+        self.check_type(&s.into())?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1830,6 +1851,7 @@ impl Parameter {
         t: impl Into<Seconds>,
     ) -> Result<(), GraphError> {
         let s = s.into();
+        self.check_type(&s.into())?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1842,6 +1864,7 @@ impl Parameter {
     }
     /// Trigger the parameter.
     pub fn trig(&mut self) -> Result<(), GraphError> {
+        self.check_type(&ParameterValue::Trigger)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1854,6 +1877,7 @@ impl Parameter {
     }
     /// Trigger the parameter with the given `Time` setting.
     pub fn trig_time(&mut self, t: impl Into<Time>) -> Result<(), GraphError> {
+        self.check_type(&ParameterValue::Trigger)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1866,6 +1890,7 @@ impl Parameter {
     }
     /// Trigger the parameter _at_ the given time in [`Seconds`], in absolute time.
     pub fn trig_at(&mut self, t: impl Into<Seconds>) -> Result<(), GraphError> {
+        self.check_type(&ParameterValue::Trigger)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
@@ -1879,6 +1904,7 @@ impl Parameter {
     /// Trigger the parameter _after_ the given time in [`Seconds`], in relative time to
     /// when it it scheduled on the audio thread.
     pub fn trig_after(&mut self, t: impl Into<Seconds>) -> Result<(), GraphError> {
+        self.check_type(&ParameterValue::Trigger)?;
         self.sender.send(crate::SchedulingEvent {
             node_key: self.node.key(),
             parameter: self.param_index as usize,
diff --git a/knaster_graph/src/handle.rs b/knaster_graph/src/handle.rs
index b315f61..f9fd091 100644
--- a/knaster_graph/src/handle.rs
+++ b/knaster_graph/src/handle.rs
@@ -246,7 +246,12 @@ impl<T: UGen> HandleTrait for Handle<T> {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= T::Parameters::USIZE {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 match T::param_descriptions().iter().position(|d| *d == desc) {
                     Some(param_i) => param_i,
@@ -257,6 +262,7 @@ impl<T: UGen> HandleTrait for Handle<T> {
                 }
             }
         };
+        c.check_type(&T::param_hints()[param_index])?;
         let event = SchedulingEvent {
             node_key: self.raw_handle.node.key(),
             parameter: param_index,
@@ -304,7 +310,12 @@ impl HandleTrait for AnyHandle {
     fn set<C: Into<ParameterChange>>(&self, change: C) -> Result<(), GraphError> {
         let c = change.into();
         let param_index = match c.param {
-            knaster_core::Param::Index(param_i) => param_i,
+            knaster_core::Param::Index(param_i) => {
+                if param_i >= self.parameters.len() {
+                    return Err(ParameterError::ParameterIndexOutOfBounds.into());
+                }
+                param_i
+            }
             knaster_core::Param::Desc(desc) => {
                 if let Some(param_i) = self.parameters.iter().position(|d| *d == desc) {
                     param_i
@@ -314,6 +325,7 @@ impl HandleTrait for AnyHandle {
                 }
             }
         };
+        c.check_type(&self.parameter_hints[param_index])?;
         let event = SchedulingEvent {
             node_key: self.raw_handle.node.key(),
             parameter: param_index,
@@ -439,6 +451,18 @@ pub struct ParameterChange {
     token: Option<SchedulingToken>,
     time: Option<Time>,
 }
+impl ParameterChange {
+    /// Returns an error if a parameter with the given hint cannot be set to this value.
+    fn check_type(&self, hint: &ParameterHint) -> Result<(), ParameterError> {
+        match &self.value {
+            Some(value) if !hint.accepts(value) => Err(ParameterError::WrongParameterType),
+            _ if self.smoothing.is_some() && hint.float_hint().is_none() => {
+                Err(ParameterError::WrongParameterType)
+            }
+            _ => Ok(()),
+        }
+    }
+}
 impl<P: Into<Param>, V: Into<ParameterValue>> From<(P, V)> for ParameterChange {
     fn from((param, value): (P, V)) -> Self {
         ParameterChange {
-- 
2.43.0


From 9ffbc05ed59c1e86917639069b3997838c7cba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 36/58] fix: integer parameters can declare a range and a
 default

---
 knaster_macros/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/knaster_macros/src/lib.rs b/knaster_macros/src/lib.rs
index 9095096..b46e849 100644
--- a/knaster_macros/src/lib.rs
+++ b/knaster_macros/src/lib.rs
@@ -664,11 +664,17 @@ fn parse_ugen_impl(mut input: ItemImpl) -> syn::Result<proc_macro2::TokenStream>
                     quote! { #crate_ident::ParameterHint::from_pinteger_enum::<#from>() }
                 } else {
                     let range = if let Some(range) = &p.range {
-                        quote! { #range }
+                        let (start, end) = (&range.start, &range.end);
+                        quote! { (#crate_ident::PInteger::from(#start), #crate_ident::PInteger::from(#end)) }
                     } else {
                         quote! { (#crate_ident::PInteger::MIN, #crate_ident::PInteger::MAX) }
                     };
-                    quote! { #crate_ident::ParameterHint::new_integer(#range , |h| h) }
+                    let default = if let Some(default) = &p.default {
+                        quote! { h.default = Some(#crate_ident::PInteger::from(#default)); }
+                    } else {
+                        quote! {}
+                    };
+                    quote! { #crate_ident::ParameterHint::new_integer(#range , |#[allow(unused_mut)] mut h| { #default h }) }
                 }
             }
             ParameterType::Trigger => quote! { #crate_ident::ParameterHint::Trigger },
-- 
2.43.0


From 73688deac0181da47bac40ee38a987f0b5139865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 37/58] fix: don't panic on unknown parameter indices in
 WrArParams and WrPreciseTiming

---
 knaster_core_dsp/src/wrappers_core/audio_rate.rs     | 3 ++-
 knaster_core_dsp/src/wrappers_core/precise_timing.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index bd99908..1944e03 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -68,7 +68,8 @@ impl<T: UGen> UGen for WrArParams<T> {
     }
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
-        if self.buffers[index].is_none() {
+        // An index that doesn't exist is left to the wrapped UGen, which reports it
+        if !matches!(self.buffers.get(index), Some(Some(_))) {
             self.ugen.param_apply(ctx, index, value);
         }
     }
diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 9f190b1..1239650 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -128,7 +128,10 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
 
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         // A delay is valid for one change only
-        let delay = crate::core::mem::take(&mut self.next_delay[index]);
+        let delay = self
+            .next_delay
+            .get_mut(index)
+            .map_or(0, crate::core::mem::take);
         if delay == 0 {
             self.ugen.param_apply(ctx, index, value);
         } else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {
@@ -149,6 +152,8 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
     }
 
     fn set_delay_within_block_for_param(&mut self, _ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.next_delay[index] = delay;
+        if let Some(next_delay) = self.next_delay.get_mut(index) {
+            *next_delay = delay;
+        }
     }
 }
-- 
2.43.0


From ef8849f3f308631b2d30b798afcfd67aa5501cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 38/58] fix: frames marked as done are relative to the block
 when it's processed in parts

The default process_block, WrPreciseTiming and WrArParamToInput passed on frames
marked in a single frame or partial block as if they were frames of the whole block.
---
 knaster_core/src/ugen.rs                      | 29 ++++++++++++++++++-
 .../src/wrappers_core/audio_rate.rs           |  5 +++-
 .../src/wrappers_core/precise_timing.rs       |  6 +++-
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index ad854d8..5f6155a 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -206,6 +206,30 @@ impl UGenFlags {
     pub fn mark_remove_self_supported(&mut self) {
         self.remove_self_supported = true;
     }
+    /// Flags for processing only some of the frames of the current block, e.g. a single frame or a
+    /// partial block. Nothing is marked in the new flags. Once those frames have been processed, add
+    /// what was marked using [`Self::merge_part`].
+    pub fn for_part(&self) -> Self {
+        Self {
+            remove_self_supported: self.remove_self_supported,
+            ..Self::new()
+        }
+    }
+    /// Add what was marked while processing a part of the current block starting at the frame
+    /// `start_frame`. If the same thing was marked in several parts, the earliest frame counts.
+    pub fn merge_part(&mut self, part: &Self, start_frame: u32) {
+        if let Some(frame) = part.done() {
+            self.mark_done(
+                frame
+                    .saturating_add(start_frame)
+                    .min(self.done_frame_in_block),
+            );
+        }
+        if let Some(frame) = part.remove_graph() {
+            self.mark_remove_parent(frame.saturating_add(start_frame));
+        }
+        self.remove_self |= part.remove_self;
+    }
     /// Clear the `remove_parent` flag to avoid it propagating.
     pub fn clear_parent_flags(&mut self) {
         self.remove_parent = false;
@@ -278,7 +302,10 @@ pub trait UGen {
             for i in 0..Self::Inputs::USIZE {
                 in_frame[i] = input.read(i, frame);
             }
-            let out_frame = self.process(ctx, flags, in_frame);
+            // Frames are marked relative to the frame that is being processed
+            let mut frame_flags = flags.for_part();
+            let out_frame = self.process(ctx, &mut frame_flags, in_frame);
+            flags.merge_part(&frame_flags, frame as u32);
             for i in 0..Self::Outputs::USIZE {
                 output.write(out_frame[i], i, frame);
             }
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 1944e03..b13023a 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -159,7 +159,10 @@ where
             for i in 0..Self::Inputs::USIZE {
                 in_frame[i] = input.read(i, frame);
             }
-            let out_frame = self.process(ctx, flags, in_frame);
+            // Frames are marked relative to the frame that is being processed
+            let mut frame_flags = flags.for_part();
+            let out_frame = self.process(ctx, &mut frame_flags, in_frame);
+            flags.merge_part(&frame_flags, frame as u32);
             for i in 0..Self::Outputs::USIZE {
                 output.write(out_frame[i], i, frame);
             }
diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 1239650..08261b1 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -104,7 +104,11 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 let mut output = output.partial_mut(block_i, local_frames_to_process);
                 let partial_block = org_block.make_partial(block_i, local_frames_to_process);
                 ctx.block = partial_block;
-                self.ugen.process_block(ctx, flags, &input, &mut output);
+                // Frames are marked relative to the start of the partial block
+                let mut partial_flags = flags.for_part();
+                self.ugen
+                    .process_block(ctx, &mut partial_flags, &input, &mut output);
+                flags.merge_part(&partial_flags, block_i as u32);
                 ctx.block = org_block;
             }
             block_i += local_frames_to_process;
-- 
2.43.0


From 1833042e90141615f63fa7c30475e7fe93b4fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 39/58] fix: smoothed parameters glide from the value in force
 to exactly the target

The value to start from wasn't tracked without smoothing so that ramps started from 0, a
duration of 0 gave NaN, changing the smoothing stopped a ramp on the way or jumped,
smoothing at audio rate only changed once per block and parts of blocks were counted as
whole blocks.
---
 .../src/wrappers_core/smooth_params.rs        | 330 +++++++-----------
 1 file changed, 123 insertions(+), 207 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 480f1b6..17c7c47 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -11,8 +11,6 @@ use knaster_core::{
 /// The value will be interpolated from the old to the new value.
 pub struct WrSmoothParams<T: UGen> {
     ugen: T,
-    parameters: NumericArray<Rate, T::Parameters>,
-    smoothing: NumericArray<ParameterSmoothing, T::Parameters>,
     smoothing_state: NumericArray<ParameterSmoothingState, T::Parameters>,
 }
 
@@ -21,13 +19,13 @@ impl<T: UGen> WrSmoothParams<T> {
     pub fn new(ugen: T) -> Self {
         Self {
             ugen,
-            parameters: NumericArray::default(),
-            smoothing: NumericArray::default(),
-            // TODO: Initialise state to default parameter values
             smoothing_state: NumericArray::default(),
         }
     }
     /// Set the smoothing kind for a specific parameter index.
+    ///
+    /// If the parameter is on its way to a new value, it will continue to that value from where it
+    /// is using the new smoothing.
     pub fn set_smoothing(
         &mut self,
         index: usize,
@@ -35,71 +33,24 @@ impl<T: UGen> WrSmoothParams<T> {
         new_rate: Rate,
         sample_rate: f64,
     ) {
-        self.smoothing[index] = smoothing;
-        match smoothing {
-            ParameterSmoothing::None => match self.smoothing_state[index] {
-                ParameterSmoothingState::None { .. } => (),
-                ParameterSmoothingState::Linear {
-                    start_value,
-                    end_value,
-                    duration_frames,
-                    frames_elapsed,
-                    ..
-                } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                    let current_value = (end_value - start_value) * current_mix + start_value;
-                    self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
-                }
-            },
-            ParameterSmoothing::Linear(new_duration) => {
-                let new_duration_in_frames = (new_duration as f64 * sample_rate) as usize;
-                match self.smoothing_state[index] {
-                    ParameterSmoothingState::None { current_value } => {
-                        self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                            start_value: current_value,
-                            end_value: current_value,
-                            duration_frames: new_duration_in_frames,
-                            frames_elapsed: 0,
-                            rate: new_rate,
-                            done: true,
-                        }
-                    }
-                    ParameterSmoothingState::Linear {
-                        start_value,
-                        end_value,
-                        duration_frames,
-                        frames_elapsed,
-                        done,
-                        rate: _,
-                    } => {
-                        if done {
-                            self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                                start_value: end_value,
-                                end_value,
-                                duration_frames: new_duration_in_frames,
-                                frames_elapsed: 0,
-                                rate: new_rate,
-                                done: true,
-                            }
-                        } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
-                            let current_value =
-                                (end_value - start_value) * current_mix + start_value;
-                            self.smoothing_state[index] = ParameterSmoothingState::Linear {
-                                start_value: current_value,
-                                end_value,
-                                duration_frames: new_duration_in_frames,
-                                frames_elapsed,
-                                rate: new_rate,
-                                done: true,
-                            }
-                        }
-                    }
-                }
+        self.smoothing_state[index].set_smoothing(smoothing, new_rate, sample_rate);
+    }
+    /// Apply the smoothed values for the current frame.
+    ///
+    /// Parameters that are smoothed at block rate are only changed if `start_of_block` is true.
+    fn apply_values(&mut self, ctx: &mut AudioCtx, start_of_block: bool) {
+        for (j, state) in self.smoothing_state.iter_mut().enumerate() {
+            if let Some(new_value) = state.next_value(start_of_block) {
+                self.ugen
+                    .param_apply(ctx, j, ParameterValue::Float(new_value))
             }
         }
     }
+    fn advance(&mut self, frames: usize) {
+        for state in &mut self.smoothing_state {
+            state.advance(frames);
+        }
+    }
 }
 impl<T: UGen> UGen for WrSmoothParams<T> {
     type Sample = T::Sample;
@@ -118,13 +69,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         flags: &mut UGenFlags,
         input: Frame<Self::Sample, Self::Inputs>,
     ) -> Frame<Self::Sample, Self::Outputs> {
-        // We only have potentially block rate parameters, run the whole block
-        for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-            if let Some(new_value) = state.next_value(1, 0) {
-                self.ugen
-                    .param_apply(ctx, j, ParameterValue::Float(new_value))
-            }
-        }
+        self.apply_values(ctx, true);
+        self.advance(1);
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -137,54 +83,34 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
-        }
-        if there_is_an_ar_parameter {
+        let frames_to_process = ctx.frames_to_process();
+        // A part of a block isn't a new block
+        let start_of_block = ctx.block_start_offset() == 0;
+        let mut i = 0;
+        while i < frames_to_process {
+            self.apply_values(ctx, start_of_block && i == 0);
             //  run sample by sample for as long as needed
-            let mut i = 0;
-            while i < ctx.frames_to_process() {
-                let mut there_is_a_new_smoothing_value = false;
-
-                for p in &self.smoothing_state {
-                    there_is_a_new_smoothing_value =
-                        there_is_a_new_smoothing_value || p.has_new_ar_value();
-                }
-                if there_is_a_new_smoothing_value {
-                    for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
-                            self.ugen
-                                .param_apply(ctx, j, ParameterValue::Float(new_value))
-                        }
-                    }
-                    let input = PartialBlock::from_block(input, i, 1);
-                    let mut output = output.partial_mut(i, 1);
-                    let partial_ctx = org_block.make_partial(i, 1);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    i += 1;
-                } else {
-                    // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
-                    ctx.block = partial_ctx;
-                    self.ugen.process_block(ctx, flags, &input, &mut output);
-                    break;
-                }
-            }
-        } else {
-            // We only have potentially block rate parameters, run the whole block
-            for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
-                    self.ugen
-                        .param_apply(ctx, j, ParameterValue::Float(new_value))
-                }
+            let frames = if self.smoothing_state.iter().any(|p| p.has_new_ar_value()) {
+                1
+            } else {
+                frames_to_process - i
+            };
+            self.advance(frames);
+            if frames == frames_to_process {
+                self.ugen.process_block(ctx, flags, input, output);
+            } else {
+                let input = PartialBlock::from_block(input, i, frames);
+                let mut output = output.partial_mut(i, frames);
+                ctx.block = org_block.make_partial(i, frames);
+                // Frames are marked relative to the start of the partial block
+                let mut partial_flags = flags.for_part();
+                self.ugen
+                    .process_block(ctx, &mut partial_flags, &input, &mut output);
+                flags.merge_part(&partial_flags, i as u32);
+                ctx.block = org_block;
             }
-            self.ugen.process_block(ctx, flags, input, output);
+            i += frames;
         }
     }
     type Parameters = T::Parameters;
@@ -207,34 +133,9 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 self.ugen.param_apply(ctx, index, value)
             }
             ParameterValue::Float(float_value) => {
-                // With an audio rate parameter, ignore other incoming parameter changes
-                if !matches!(self.parameters[index], Rate::AudioRate) {
-                    match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
-                            self.ugen.param_apply(ctx, index, value)
-                        }
-                        ParameterSmoothingState::Linear {
-                            start_value,
-                            end_value,
-                            duration_frames,
-                            frames_elapsed,
-                            done,
-                            ..
-                        } => {
-                            if *done {
-                                *start_value = *end_value;
-                            } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                                let current_value =
-                                    (*end_value - *start_value) * current_mix + *start_value;
-                                *start_value = current_value;
-                            }
-                            *end_value = float_value;
-                            *done = false;
-                            *frames_elapsed = 0;
-                        }
-                    }
+                if let Some(new_value) = self.smoothing_state[index].set_value(float_value) {
+                    self.ugen
+                        .param_apply(ctx, index, ParameterValue::Float(new_value))
                 }
             }
             ParameterValue::Smoothing(smoothing, rate) => {
@@ -260,73 +161,88 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
     }
 }
 
-#[derive(Copy, Clone, Debug)]
+#[derive(Copy, Clone, Debug, Default)]
 /// Represents the internal state of a channel of parameter smoothing.
-enum ParameterSmoothingState {
-    None {
-        current_value: PFloat,
-    },
-    Linear {
-        start_value: PFloat,
-        end_value: PFloat,
-        duration_frames: usize,
-        frames_elapsed: usize,
-        rate: Rate,
-        done: bool,
-    },
+struct ParameterSmoothingState {
+    /// The value last applied, if there is any. The value a parameter has before it's first set
+    /// isn't known.
+    current_value: Option<PFloat>,
+    rate: Rate,
+    /// The number of frames to get from one value to another
+    duration_frames: usize,
+    /// Some if the parameter hasn't reached the value it was last set to.
+    ramp: Option<Ramp>,
+}
+#[derive(Copy, Clone, Debug)]
+struct Ramp {
+    start_value: PFloat,
+    end_value: PFloat,
+    duration_frames: usize,
+    frames_elapsed: usize,
 }
 impl ParameterSmoothingState {
-    pub fn next_value(&mut self, block_size: usize, frame_in_block: usize) -> Option<PFloat> {
-        match self {
-            ParameterSmoothingState::None { .. } => None,
-            ParameterSmoothingState::Linear {
-                start_value,
-                end_value,
-                duration_frames,
-                frames_elapsed,
-                rate,
-                done,
-            } => {
-                if matches!(rate, Rate::BlockRate) && frame_in_block != 0 {
-                    // Only provide a new value at the start of a block in BlockRate
-                    return None;
-                }
-                if *done {
-                    None
-                } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
-                    let current_value = (*end_value - *start_value) * current_mix + *start_value;
-                    if *frames_elapsed == *duration_frames {
-                        *done = true;
-                    } else {
-                        match rate {
-                            Rate::BlockRate => {
-                                *frames_elapsed =
-                                    (*frames_elapsed + block_size).min(*duration_frames);
-                            }
-                            Rate::AudioRate => {
-                                *frames_elapsed += 1;
-                            }
-                        }
-                    }
-                    Some(current_value)
-                }
-            }
+    fn set_smoothing(&mut self, smoothing: ParameterSmoothing, rate: Rate, sample_rate: f64) {
+        self.rate = rate;
+        self.duration_frames = match smoothing {
+            ParameterSmoothing::None => 0,
+            ParameterSmoothing::Linear(duration) => (duration as f64 * sample_rate) as usize,
+        };
+        // Continue from the current value with the new settings
+        if let (Some(ramp), Some(current_value)) = (&mut self.ramp, self.current_value) {
+            *ramp = Ramp {
+                start_value: current_value,
+                end_value: ramp.end_value,
+                duration_frames: self.duration_frames,
+                frames_elapsed: 0,
+            };
         }
     }
-    /// Returns true if the parameter needs to be modulated at audio rate this
-    /// block.
-    pub fn has_new_ar_value(&self) -> bool {
-        match self {
-            ParameterSmoothingState::None { .. } => false,
-            ParameterSmoothingState::Linear { done, rate, .. } => {
-                !*done && matches!(rate, Rate::AudioRate)
+    /// Set a new value. If it should be applied immediately it's returned.
+    fn set_value(&mut self, value: PFloat) -> Option<PFloat> {
+        match self.current_value {
+            Some(current_value) if self.duration_frames > 0 => {
+                self.ramp = Some(Ramp {
+                    start_value: current_value,
+                    end_value: value,
+                    duration_frames: self.duration_frames,
+                    frames_elapsed: 0,
+                });
+                None
+            }
+            _ => {
+                self.ramp = None;
+                self.current_value = Some(value);
+                Some(value)
             }
         }
     }
-}
-impl Default for ParameterSmoothingState {
-    fn default() -> Self {
-        ParameterSmoothingState::None { current_value: 0. }
+    /// Returns the value for the current frame if it should be changed.
+    fn next_value(&mut self, start_of_block: bool) -> Option<PFloat> {
+        let ramp = self.ramp.as_ref()?;
+        // Only provide a new value at the start of a block in BlockRate. If there is no smoothing
+        // (any longer) there is no reason to wait.
+        if matches!(self.rate, Rate::BlockRate) && !start_of_block && ramp.duration_frames > 0 {
+            return None;
+        }
+        let value = if ramp.frames_elapsed >= ramp.duration_frames {
+            let end_value = ramp.end_value;
+            self.ramp = None;
+            end_value
+        } else {
+            let mix = ramp.frames_elapsed as PFloat / ramp.duration_frames as PFloat;
+            ramp.start_value + (ramp.end_value - ramp.start_value) * mix
+        };
+        self.current_value = Some(value);
+        Some(value)
+    }
+    fn advance(&mut self, frames: usize) {
+        if let Some(ramp) = &mut self.ramp {
+            ramp.frames_elapsed = (ramp.frames_elapsed + frames).min(ramp.duration_frames);
+        }
+    }
+    /// Returns true if the parameter needs to be modulated at audio rate this
+    /// block.
+    fn has_new_ar_value(&self) -> bool {
+        self.ramp.is_some() && matches!(self.rate, Rate::AudioRate)
     }
 }
-- 
2.43.0


From 4f84b6ecd59371b184230dd631e9d2afe1672fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 40/58] fix: audio rate parameters are in step with the block
 when only parts of blocks are processed

---
 .../src/wrappers_core/audio_rate.rs           | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index b13023a..639dfda 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -56,6 +56,31 @@ impl<T: UGen> UGen for WrArParams<T> {
         self.ugen.process(ctx, flags, input)
     }
     // TODO: Be more efficient about processing
+    fn process_block<InBlock, OutBlock>(
+        &mut self,
+        ctx: &mut AudioCtx,
+        flags: &mut UGenFlags,
+        input: &InBlock,
+        output: &mut OutBlock,
+    ) where
+        InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
+        OutBlock: Block<Sample = Self::Sample> + ?Sized,
+    {
+        self.block_index = ctx.block_start_offset();
+        for frame in 0..ctx.frames_to_process() {
+            let mut in_frame = Frame::default();
+            for i in 0..Self::Inputs::USIZE {
+                in_frame[i] = input.read(i, frame);
+            }
+            // Frames are marked relative to the frame that is being processed
+            let mut frame_flags = flags.for_part();
+            let out_frame = self.process(ctx, &mut frame_flags, in_frame);
+            flags.merge_part(&frame_flags, frame as u32);
+            for i in 0..Self::Outputs::USIZE {
+                output.write(out_frame[i], i, frame);
+            }
+        }
+    }
 
     type Parameters = T::Parameters;
 
-- 
2.43.0


From 04d2867bd722b2e668d05b2f987d0fd2788c1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 41/58] fix: envelopes restart from the current value and stay
 within their range

EnvAsr and EnvAr jumped when restarted during the release because its curve isn't linear, and
EnvAsr kept a level above 1 while sustaining. Envelope gave NaN for segments of zero duration,
panicked without segments and jumped back to an earlier point before a jump.
---
 knaster_core_dsp/src/ugens/envelopes.rs | 63 +++++++++++++++----------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/envelopes.rs b/knaster_core_dsp/src/ugens/envelopes.rs
index e7a43bb..324c1ff 100644
--- a/knaster_core_dsp/src/ugens/envelopes.rs
+++ b/knaster_core_dsp/src/ugens/envelopes.rs
@@ -42,9 +42,11 @@ impl<F: Float> EnvAsr<F> {
         }
     }
     /// Start the envelope from the current value
-    // TODO: Take the current value of self.t from Self::next_sample because the release value is
-    // not linear.
     fn trig_start(&mut self) {
+        if let AsrState::Releasing = self.state {
+            // The release isn't linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = AsrState::Attacking;
     }
     /// Progress the envelope and return the next sample value
@@ -62,6 +64,7 @@ impl<F: Float> EnvAsr<F> {
 
                 if self.t >= F::ONE {
                     self.state = AsrState::Sustaining;
+                    self.t = F::ONE;
                 }
             }
             AsrState::Sustaining => {
@@ -196,8 +199,11 @@ impl<F: Float> EnvAr<F> {
         }
     }
     /// (Re)start the envelope from the current value
-    // TODO: Take the relase curve into account, e.g. by taking the current value of `next_sample`
     fn trig_start(&mut self) {
+        if let ArState::Releasing = self.state {
+            // The release isn't linear
+            self.t = self.t.powi(3) * self.release_scale;
+        }
         self.state = ArState::Attacking;
     }
     /// Progress the envelope one frame and return the value
@@ -393,6 +399,24 @@ mod alloc_envelopes {
             self.looping = looping;
             self
         }
+        /// The value at the current point in time
+        fn current_value(&self) -> f64 {
+            match self.state {
+                EnvelopeState::Stopped => self.from_value,
+                EnvelopeState::Running {
+                    current_segment,
+                    current_time,
+                } => match self.segments.get(current_segment) {
+                    Some(segment) if current_time < segment.duration => {
+                        self.from_value
+                            + (current_time * segment.reciprocal_duration)
+                                * (segment.value - self.from_value)
+                    }
+                    Some(segment) => segment.value,
+                    None => self.from_value,
+                },
+            }
+        }
     }
     impl<F: Float> UGen for Envelope<F> {
         type Sample = F;
@@ -420,25 +444,20 @@ mod alloc_envelopes {
                     current_time,
                 } => {
                     let t = current_time;
-                    if t < self.segments[current_segment].duration {
-                        let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
+                    if self.segments.is_empty() {
+                        out = F::new(self.from_value);
+                        self.state = EnvelopeState::Stopped;
+                        flags.mark_done(0);
+                    } else if t < self.segments[current_segment].duration {
+                        out = F::new(self.current_value());
                         self.state = EnvelopeState::Running {
                             current_segment,
                             current_time: t + (self.time_scale * self.base_scale),
                         };
                     } else if current_segment + 1 < self.segments.len() {
                         self.from_value = self.segments[current_segment].value;
+                        out = F::new(self.from_value);
                         let segment = &self.segments[current_segment];
-                        out = F::new(
-                            self.from_value
-                                + (t * segment.reciprocal_duration)
-                                    * (segment.value - self.from_value),
-                        );
                         self.state = EnvelopeState::Running {
                             current_segment: current_segment + 1,
                             current_time: current_time - segment.duration
@@ -485,8 +504,9 @@ mod alloc_envelopes {
                         return;
                     };
                     if jump_to_segment >= self.segments.len() {
-                        jump_to_segment = self.segments.len() - 1;
+                        jump_to_segment = self.segments.len().saturating_sub(1);
                     }
+                    self.from_value = self.current_value();
                     match &mut self.state {
                         EnvelopeState::Stopped => {
                             self.state = EnvelopeState::Running {
@@ -513,16 +533,7 @@ mod alloc_envelopes {
                     self.from_value = self.start_value;
                 }
                 3 => {
-                    if let EnvelopeState::Running {
-                        current_segment,
-                        current_time,
-                    } = self.state
-                    {
-                        let t = current_time;
-                        let segment = &self.segments[current_segment];
-                        self.from_value = self.from_value
-                            + (t * segment.reciprocal_duration) * (segment.value - self.from_value);
-                    }
+                    self.from_value = self.current_value();
                     self.state = EnvelopeState::Stopped;
                 }
                 _ => (),
-- 
2.43.0


From d55ea10a011cafaffd26d2c252ab81abbddc9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 42/58] fix: delays are exactly as long as requested and
 limited to their range

A sample delay of the maximum delay time read outside of its buffer or panicked, and
times were truncated rather than rounded to frames. The allpass interpolator started
from 1 instead of from silence. Clearing, or shortening, a delay let through stale
samples, and a StaticSampleDelay with a length shorter than its maximum indexed with the
wrong modulus.
---
 knaster_core_dsp/src/ugens/delay.rs | 123 +++++++++++++++++-----------
 1 file changed, 73 insertions(+), 50 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/delay.rs b/knaster_core_dsp/src/ugens/delay.rs
index f6a4c7a..2e8db04 100644
--- a/knaster_core_dsp/src/ugens/delay.rs
+++ b/knaster_core_dsp/src/ugens/delay.rs
@@ -32,18 +32,21 @@ impl<F: Float> SampleDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        self.delay_samples = (seconds * ctx.sample_rate() as PFloat) as usize;
+        // Round to the closest frame
+        self.delay_samples = (seconds * ctx.sample_rate() as PFloat + 0.5) as usize;
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 1] {
         self.buffer[self.write_position] = input[0];
+        let delay_samples = self.delay_samples.min(self.buffer.len() - 1);
         let out = self.buffer
-            [(self.write_position + self.buffer.len() - self.delay_samples) % self.buffer.len()];
+            [(self.write_position + self.buffer.len() - delay_samples) % self.buffer.len()];
         self.write_position = (self.write_position + 1) % self.buffer.len();
         [out]
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
-        self.buffer =
-            vec![F::ZERO; (self.max_delay_length.to_secs_f64() * sample_rate as f64) as usize];
+        // The current sample is stored in addition to those that can be delayed
+        let max_delay_samples = self.max_delay_length.to_samples(sample_rate as u64) as usize;
+        self.buffer = vec![F::ZERO; max_delay_samples + 1];
         self.write_position = 0;
     }
 }
@@ -61,14 +64,14 @@ impl<F: Float> AllpassInterpolator<F> {
     pub fn new() -> Self {
         Self {
             coeff: F::ONE,
-            prev_input: F::ONE,
-            prev_output: F::ONE,
+            prev_input: F::ZERO,
+            prev_output: F::ZERO,
         }
     }
     /// Reset any state to 0
     pub fn clear(&mut self) {
-        self.prev_input = F::ONE;
-        self.prev_output = F::ONE;
+        self.prev_input = F::ZERO;
+        self.prev_output = F::ZERO;
     }
     /// Set the fractional number of frames in the delay time that we want to interpolate over
     pub fn set_delta(&mut self, delta: F) {
@@ -76,7 +79,13 @@ impl<F: Float> AllpassInterpolator<F> {
     }
     /// Interpolate between the input sample and the previous value using the last set delta.
     pub fn process_sample(&mut self, input: F) -> F {
-        let output = self.coeff * (input - self.prev_output) + self.prev_input;
+        let output = if self.coeff == F::ONE {
+            // There is nothing to interpolate. With this coefficient, what is left of earlier
+            // output would never decay.
+            input
+        } else {
+            self.coeff * (input - self.prev_output) + self.prev_input
+        };
         self.prev_output = output;
         self.prev_input = input;
         output
@@ -95,7 +104,9 @@ pub struct AllpassDelay<F: Copy = f32> {
     write_frame: usize,
     read_frame: usize,
     num_frames: usize,
-    clear_nr_of_samples_left: usize,
+    // The number of frames written since the delay was last cleared. What was written before that
+    // is as good as 0.
+    frames_since_clear: usize,
     allpass: AllpassInterpolator<F>,
     max_delay_seconds: Seconds,
 }
@@ -110,16 +121,23 @@ impl<F: Float> AllpassDelay<F> {
             buffer,
             write_frame: 0,
             read_frame: 0,
-            num_frames: 1,
+            // The maximum delay, unless it's set
+            num_frames: usize::MAX,
             allpass: AllpassInterpolator::new(),
-            clear_nr_of_samples_left: 0,
+            frames_since_clear: 0,
             max_delay_seconds,
         }
     }
     /// Allocates internal buffer.
     pub fn init(&mut self, sample_rate: u32, _block_size: usize) {
         let max_delay_samples = self.max_delay_seconds.to_samples(sample_rate as u64);
-        self.buffer = vec![F::ZERO; max_delay_samples as usize];
+        // The shortest delay is one frame
+        self.buffer = vec![F::ZERO; (max_delay_samples as usize).max(1)];
+        self.num_frames = self.num_frames.min(self.buffer.len());
+        self.write_frame = 0;
+        self.read_frame = (self.buffer.len() - self.num_frames) % self.buffer.len();
+        self.frames_since_clear = 0;
+        self.allpass.clear();
     }
     /// Produce one frame from the delay and put `input` into the delay.
     pub fn process(
@@ -135,33 +153,35 @@ impl<F: Float> AllpassDelay<F> {
     /// Set delay time in seconds
     #[param]
     pub fn delay_time(&mut self, ctx: &mut AudioCtx, seconds: PFloat) {
-        let delay_frames = seconds * ctx.sample_rate() as PFloat;
-        if (delay_frames as usize) < self.buffer.len() {
-            self.set_delay_in_frames(F::new(delay_frames));
-        }
+        self.set_delay_in_frames(F::new(seconds * ctx.sample_rate() as PFloat));
     }
     /// Read the current frame from the delay and allpass interpolate. Read before `write_and_advance` for the correct sample.
     #[inline]
     pub fn read(&mut self) -> F {
-        if self.clear_nr_of_samples_left > 0 {
-            // Instead of clearing the whole buffer, we amortise the cost and clear only what we need.
-            // Samples between the read pointer and the write pointer will be 0 when cleared.
-            self.clear_nr_of_samples_left -= 1;
-            self.read_frame = (self.read_frame + 1) % self.buffer.len();
+        // Instead of clearing the whole buffer, frames from before it was cleared are ignored.
+        let input = if self.num_frames > self.frames_since_clear {
             F::ZERO
         } else {
-            let v = self.allpass.process_sample(self.buffer[self.read_frame]);
-            self.read_frame = (self.read_frame + 1) % self.buffer.len();
-            v
-        }
+            self.buffer[self.read_frame]
+        };
+        self.read_frame = (self.read_frame + 1) % self.buffer.len();
+        self.allpass.process_sample(input)
     }
-    /// Set delay time in frames (f32 or f64)
+    /// Set delay time in frames (f32 or f64). It is limited to the range from one frame to the
+    /// maximum delay time.
     #[inline]
     pub fn set_delay_in_frames(&mut self, num_frames: F) {
+        let max_frames = F::from(self.buffer.len()).unwrap();
+        let num_frames = if num_frames > F::ONE {
+            num_frames.min(max_frames)
+        } else {
+            F::ONE
+        };
         let num_frames_float = num_frames.floor();
         self.num_frames = num_frames_float.to_usize().unwrap();
         let mut delta = num_frames - num_frames_float;
-        if num_frames > F::new(0.5) && delta < F::new(0.5) {
+        // Samples are read before the next one is written so at least one whole frame is needed
+        if self.num_frames > 1 && delta < F::new(0.5) {
             delta += F::ONE;
             self.num_frames -= 1;
         }
@@ -173,16 +193,10 @@ impl<F: Float> AllpassDelay<F> {
         self.allpass.set_delta(delta);
     }
     #[inline]
-    /// Call after set_delay_in_frames. Only data that won't be overwritten before read is cleared.
+    /// Clear the delay so that nothing that was written before will be read.
     pub fn clear(&mut self) {
-        // We only need to clear memory from now until where the write pointer overwrites memory, which is self.num_frames into the future.
-        // Samples between the read pointer and the write pointer will be 0 when cleared.
         // Zeroing memory is surprisingly expensive.
-        self.clear_nr_of_samples_left = self.num_frames;
-        // self.buffer.fill(0.0);
-        // for sample in &mut self.buffer {
-        //     *sample = 0.0;
-        // }
+        self.frames_since_clear = 0;
         self.allpass.clear();
     }
     /// Reset the delay with a new length in frames
@@ -190,6 +204,7 @@ impl<F: Float> AllpassDelay<F> {
         for sample in &mut self.buffer {
             *sample = F::ZERO;
         }
+        self.allpass.clear();
         self.set_delay_in_frames(num_frames);
         // println!(
         //     "num_frames: {}, delta: {}",
@@ -202,6 +217,7 @@ impl<F: Float> AllpassDelay<F> {
     pub fn write_and_advance(&mut self, input: F) {
         self.buffer[self.write_frame] = input;
         self.write_frame = (self.write_frame + 1) % self.buffer.len();
+        self.frames_since_clear = (self.frames_since_clear + 1).min(self.buffer.len());
     }
 }
 
@@ -307,7 +323,7 @@ impl<F: Float> AllpassFeedbackDelay<F> {
 /// ```
 pub struct StaticSampleDelay<F> {
     buffer: Vec<F>,
-    /// The current read/write position in the buffer. Public because in some situations it is more efficient to have access to it directly.
+    /// The current write position in the buffer, and the read position if the delay length is the max delay length. Public because in some situations it is more efficient to have access to it directly.
     pub position: usize,
     delay_length: usize,
 }
@@ -326,31 +342,38 @@ impl<F: Float> StaticSampleDelay<F> {
         }
     }
 
-    /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length.
+    /// Set a new delay length for the delay. Real time safe. If the given length is longer than the max delay length it will be set to the max delay length. The shortest delay is 1.
     #[inline]
     pub fn set_delay_length(&mut self, delay_length_in_samples: usize) {
-        self.delay_length = delay_length_in_samples.min(self.buffer.len());
+        self.delay_length = delay_length_in_samples.clamp(1, self.buffer.len());
     }
     /// Set a new delay length for the delay as a fraction of the entire delay length. Real time safe.
     pub fn set_delay_length_fraction(&mut self, fraction: F) {
-        self.delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
+        let delay_length = (F::from(self.buffer.len()).expect("delay length should fit in Float")
             * fraction)
             .to_usize()
-            .unwrap();
+            .unwrap_or(if fraction > F::ONE { usize::MAX } else { 0 });
+        self.set_delay_length(delay_length);
+    }
+    /// The position of the sample which was written `delay_length` samples ago
+    #[inline]
+    fn read_position(&self) -> usize {
+        (self.position + self.buffer.len() - self.delay_length) % self.buffer.len()
     }
 
     /// Read a whole block at a time. Only use this if the delay time is longer than 1 block.
     #[inline]
     pub fn read_block(&mut self, output: &mut [F]) {
         let block_size = output.len();
-        assert!(self.buffer.len() >= block_size);
-        let read_end = self.position + block_size;
+        assert!(self.delay_length >= block_size);
+        let read_position = self.read_position();
+        let read_end = read_position + block_size;
         if read_end <= self.buffer.len() {
-            output.copy_from_slice(&self.buffer[self.position..read_end]);
+            output.copy_from_slice(&self.buffer[read_position..read_end]);
         } else {
             // block wraps around
-            let read_end = read_end % self.delay_length;
-            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[self.position..]);
+            let read_end = read_end % self.buffer.len();
+            output[0..(block_size - read_end)].copy_from_slice(&self.buffer[read_position..]);
             output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);
         }
     }
@@ -364,7 +387,7 @@ impl<F: Float> StaticSampleDelay<F> {
             self.buffer[self.position..write_end].copy_from_slice(input);
         } else {
             // block wraps around
-            let write_end = write_end % self.delay_length;
+            let write_end = write_end % self.buffer.len();
             self.buffer[self.position..].copy_from_slice(&input[0..block_size - write_end]);
             self.buffer[0..write_end].copy_from_slice(&input[block_size - write_end..]);
         }
@@ -373,7 +396,7 @@ impl<F: Float> StaticSampleDelay<F> {
     /// Read a sample from the buffer. Does not advance the frame pointer. Read first, then write.
     #[inline]
     pub fn read(&mut self) -> F {
-        self.buffer[self.position]
+        self.buffer[self.read_position()]
     }
     /// Read a sample from the buffer at a given position. Does not advance the frame pointer. Read first, then write.
     pub fn read_at(&mut self, index: usize) -> F {
@@ -398,12 +421,12 @@ impl<F: Float> StaticSampleDelay<F> {
     #[inline]
     pub fn write_and_advance(&mut self, input: F) {
         self.buffer[self.position] = input;
-        self.position = (self.position + 1) % self.delay_length;
+        self.position = (self.position + 1) % self.buffer.len();
     }
     /// Process one block of the delay. Will choose block based processing at runtime if the delay time is larger than the block size.
     #[inline]
     pub fn process(&mut self, input: &[F], output: &mut [F], block_size: usize) {
-        if self.buffer.len() > block_size {
+        if self.delay_length >= block_size {
             self.read_block(output);
             self.write_block_and_advance(input);
         } else {
-- 
2.43.0


From 6a3abdaaf3fbda9b18954bed91c5a3aa22c09fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 43/58] fix: buffer playback stays inside of the buffer and
 processes only the requested frames

A buffer reader read past the end of its buffer for durations beyond it, more channels than
there are, or by rounding, wrote whole blocks when asked for a part of one, reported done at
a frame which depended on how it was processed, and logged an unrelated error in every block
after it had stopped. Buffer::new allocated too little for several channels.
---
 knaster_core_dsp/src/dsp/buffer.rs   |  43 +++++------
 knaster_core_dsp/src/ugens/buffer.rs | 104 +++++++++++++--------------
 2 files changed, 75 insertions(+), 72 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..0acb8c7 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -45,10 +45,10 @@ pub struct Buffer<F: Copy> {
 }
 
 impl<F: Float> Buffer<F> {
-    /// Create an empty buffer with the specified options
+    /// Create an empty buffer with the specified options. `size` is the number of frames.
     pub fn new(size: usize, num_channels: usize, sample_rate: f64) -> Self {
         Buffer {
-            buffer: vec![F::ZERO; size],
+            buffer: vec![F::ZERO; size * num_channels],
             num_channels,
             num_frames: size as f64,
             sample_rate,
@@ -81,31 +81,34 @@ impl<F: Float> Buffer<F> {
     pub fn buf_rate_scale(&self, server_sample_rate: u32) -> f64 {
         self.sample_rate / f64::from(server_sample_rate)
     }
-    /// Linearly interpolate between the value in between to samples
+    /// Linearly interpolate between the value in between to samples. Outside of the buffer there is
+    /// silence.
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
-        let mix = index.fract();
-        let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        match index.to_usize() {
+            Some(frame) if index >= F::ZERO => self.interpolate(frame, index.fract(), channel),
+            _ => F::ZERO,
         }
     }
+    /// Interpolate between a frame and the next one, where the last frame is followed by the first.
+    #[inline]
+    fn interpolate(&self, frame: usize, mix: F, channel: usize) -> F {
+        let num_frames = self.num_frames as usize;
+        if frame >= num_frames || channel >= self.num_channels {
+            return F::ZERO;
+        }
+        let next_frame = (frame + 1) % num_frames;
+        self.buffer[frame * self.num_channels + channel] * (F::ONE - mix)
+            + self.buffer[next_frame * self.num_channels + channel] * mix
+    }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
-    /// indexing is necessary for long buffers.
+    /// indexing is necessary for long buffers. Outside of the buffer there is silence.
     #[inline]
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
-        let mix = F::new(index.fract());
-        let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
+        if index >= 0.0 {
+            self.interpolate(index as usize, F::new(index.fract()), channel)
+        } else {
+            F::ZERO
         }
     }
     /// Get the samples for all channels at the index.
diff --git a/knaster_core_dsp/src/ugens/buffer.rs b/knaster_core_dsp/src/ugens/buffer.rs
index 8210ade..c3b6400 100644
--- a/knaster_core_dsp/src/ugens/buffer.rs
+++ b/knaster_core_dsp/src/ugens/buffer.rs
@@ -6,15 +6,18 @@ use crate::core::{marker::PhantomData, sync::Arc};
 
 use knaster_core::{
     AudioCtx, Float, PFloat, Seconds, Size, UGenFlags, impl_ugen, numeric_array::NumericArray,
-    rt_log, typenum::U0,
+    typenum::U0,
 };
 
 use crate::dsp::buffer::Buffer;
 /// Reads a frame from a buffer and outputs it. The generic `Channels` determines how many
-/// channels will be read from the buffer.
+/// channels will be read from the buffer. Channels that don't exist in the buffer are silent.
 ///
 /// `duration_s` is the playback duration before looping or stopping. If given a negative value,
-/// the duration will default to the buffer length.
+/// the duration will default to the buffer length. Playing beyond the end of the buffer produces
+/// silence.
+///
+/// When it stops, it is marked as done at the first frame after the end.
 // TODO: Negative rate, meaning the cmp for being finished needs to be inverted and the end_frame
 // needs to be start_frame - dur_frame instead.
 #[derive(Clone, Debug)]
@@ -42,7 +45,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[must_use]
     pub fn new(buffer: impl Into<Arc<Buffer<F>>>, rate: f64, looping: bool) -> Self {
         let buffer = buffer.into();
-        let buffer_length = buffer.length_seconds();
+        let num_frames = buffer.num_frames();
         BufferReader {
             buffer,
             read_pointer: 0.0,
@@ -51,8 +54,8 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             finished: false,
             looping,
             start_frame: 0.,
-            end_frame: buffer_length,
-            dur_frame: buffer_length,
+            end_frame: num_frames,
+            dur_frame: num_frames,
             _marker: PhantomData,
         }
     }
@@ -67,9 +70,20 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     }
     /// Jump to a specific point in the buffer in samples. Has to be called before processing starts.
     pub fn start_at(mut self, start_time: Seconds) -> Self {
-        self.start_frame = start_time.to_secs_f64();
+        self.start_s(start_time.to_secs_f64());
         self
     }
+    /// Convert a position in seconds to frames in the buffer
+    fn seconds_to_frames(&self, seconds: PFloat) -> f64 {
+        let frames = seconds as f64 * self.buffer.sample_rate();
+        // Seconds can only approximate the time of most frames
+        let closest = (frames + 0.5).floor();
+        if (frames - closest).abs() < 1e-6 {
+            closest
+        } else {
+            frames
+        }
+    }
 
     #[param]
     #[allow(missing_docs)]
@@ -84,22 +98,23 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
     #[param]
     #[allow(missing_docs)]
     pub fn start_s(&mut self, start_s: PFloat) {
-        let start_time = Seconds::from_secs_f64(start_s);
-        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
+        self.start_frame = self.seconds_to_frames(start_s).max(0.0);
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
     #[allow(missing_docs)]
     pub fn duration_s(&mut self, duration_s: PFloat) {
-        let dur_time = Seconds::from_secs_f64(duration_s);
-        self.dur_frame = dur_time.to_samples_f64(self.buffer.sample_rate());
+        self.dur_frame = if duration_s < 0.0 {
+            self.buffer.num_frames()
+        } else {
+            self.seconds_to_frames(duration_s)
+        };
         self.end_frame = self.start_frame + self.dur_frame;
     }
     #[param]
     #[allow(missing_docs)]
     pub fn end_s(&mut self, end_s: PFloat) {
-        let end_time = Seconds::from_secs_f64(end_s);
-        self.end_frame = end_time.to_samples_f64(self.buffer.sample_rate());
+        self.end_frame = self.seconds_to_frames(end_s);
     }
     #[param]
     #[allow(missing_docs)]
@@ -109,14 +124,22 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
 
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.base_rate = self.buffer.buf_rate_scale(sample_rate);
-        self.start_frame =
-            Seconds::from_secs_f64(self.start_frame).to_samples_f64(self.buffer.sample_rate());
-        self.dur_frame =
-            Seconds::from_secs_f64(self.dur_frame).to_samples_f64(self.buffer.sample_rate());
-        self.end_frame = self.start_frame + self.dur_frame;
         self.jump_to(self.start_frame);
     }
 
+    /// Start over, or stop, if all frames have been played
+    fn stop_at_end(&mut self, flags: &mut UGenFlags, frame_in_block: u32) {
+        if self.finished || self.read_pointer < self.end_frame {
+            return;
+        }
+        if self.looping {
+            self.reset();
+        } else {
+            self.finished = true;
+            flags.mark_done(frame_in_block);
+        }
+    }
+
     // Using UGen trait process fn signatures because of generic channels
 
     fn process(
@@ -126,6 +149,7 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         _input: knaster_core::Frame<Self::Sample, Self::Inputs>,
     ) -> knaster_core::Frame<Self::Sample, Self::Outputs> {
         let mut output = NumericArray::default();
+        self.stop_at_end(flags, 0);
         if self.finished {
             output.fill(F::ZERO);
             return output;
@@ -135,14 +159,6 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
             output[chan] = sample;
         }
         self.read_pointer += self.base_rate * self.rate;
-        if self.read_pointer >= self.end_frame {
-            self.finished = true;
-            if self.looping {
-                self.reset();
-            } else {
-                flags.mark_done(0);
-            }
-        }
         output
     }
 
@@ -156,36 +172,20 @@ impl<F: Float, Channels: Size> BufferReader<F, Channels> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut stop_sample = None;
-        if !self.finished {
-            for i in 0..ctx.block_size() {
+        for i in 0..ctx.frames_to_process() {
+            self.stop_at_end(flags, i as u32);
+            if self.finished {
+                // Output zeroes if we're finished
                 for chan in 0..Channels::USIZE {
-                    let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
-                    output.write(sample, chan, i);
-                }
-                self.read_pointer += self.base_rate * self.rate;
-                if self.read_pointer >= self.end_frame {
-                    self.finished = true;
-                    if self.looping {
-                        self.reset();
-                    } else {
-                        flags.mark_done((i + 1) as u32);
-                    }
-                }
-                if self.finished {
-                    stop_sample = Some(i + 1);
-                    break;
+                    output.write(F::ZERO, chan, i);
                 }
+                continue;
             }
-        } else {
-            // Output zeroes if we're finished
-            rt_log!(ctx.logger(); "Error: BufferReader: buffer doesn't exist in Resources");
-            stop_sample = Some(0);
-        }
-        if let Some(stop_sample) = stop_sample {
-            for out in output.iter_mut() {
-                out[stop_sample..].fill(F::ZERO);
+            for chan in 0..Channels::USIZE {
+                let sample = self.buffer.get_linear_interp_f64(self.read_pointer, chan);
+                output.write(sample, chan, i);
             }
+            self.read_pointer += self.base_rate * self.rate;
         }
     }
 }
-- 
2.43.0


From 94ad2277f46cb539af405fd7b1974ae9a3a2f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 44/58] fix: oscillator phases wrap for every frequency and
 offset

The phase offset of the wavetable oscillators was scaled to a single table entry instead of
the whole table, negative frequencies stood still, other oscillators left their range for
negative and high frequencies, and the wavetable for the highest frequencies didn't exist.
---
 knaster_core_dsp/src/dsp/wavetable.rs | 11 +++++++++--
 knaster_core_dsp/src/ugens/osc.rs     | 18 +++++++++---------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index e5a332e..1178351 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -44,6 +44,13 @@ impl WavetablePhase {
         const FRACTIONAL_MASK: u32 = u16::MAX as u32;
         (self.0 & FRACTIONAL_MASK) as f32 / FRACTIONAL_MASK as f32
     }
+    /// Convert from a phase where 1 is a full period. Whole periods, also negative ones, wrap
+    /// around.
+    #[must_use]
+    #[inline]
+    pub fn from_periods(periods: f64) -> Self {
+        Self((periods * TABLE_SIZE as f64 * FRACTIONAL_PART as f64) as i64 as u32)
+    }
     /// Increase the phase by the given step. The step should be the
     /// frequency/sample_rate * [`TABLE_SIZE`] * [`FRACTIONAL_PART`].
     #[inline]
@@ -597,7 +604,7 @@ mod wavetable_vec {
         #[must_use]
         pub fn get_linear_interp(&self, phase: WavetablePhase, freq: F) -> F {
             let table_index = freq_to_table_index(freq.to_f32());
-            self.partial_tables[table_index.min(self.partial_tables.len())].get_linear_interp(phase)
+            self.partial_tables[table_index.min(self.partial_tables.len() - 1)].get_linear_interp(phase)
         }
 
         /// Get the closest sample with no interpolation
@@ -605,7 +612,7 @@ mod wavetable_vec {
         #[must_use]
         pub fn get(&self, phase: WavetablePhase, freq: F) -> F {
             let table_index = freq_to_table_index(freq.to_f32());
-            self.partial_tables[table_index.min(self.partial_tables.len())].get(phase)
+            self.partial_tables[table_index.min(self.partial_tables.len() - 1)].get(phase)
         }
     }
 
diff --git a/knaster_core_dsp/src/ugens/osc.rs b/knaster_core_dsp/src/ugens/osc.rs
index 9a376d6..43fb56e 100644
--- a/knaster_core_dsp/src/ugens/osc.rs
+++ b/knaster_core_dsp/src/ugens/osc.rs
@@ -43,12 +43,12 @@ mod wavetable_vec {
         #[param]
         pub fn freq(&mut self, freq: PFloat) {
             self.freq = F::new(freq);
-            self.step = (self.freq.to_f64() * self.freq_to_phase_inc) as u32;
+            self.step = (self.freq.to_f64() * self.freq_to_phase_inc) as i64 as u32;
         }
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase::from_periods(offset.to_f64());
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -126,12 +126,12 @@ mod wavetable_vec {
         #[param]
         pub fn freq(&mut self, freq: PFloat) {
             self.freq = F::new(freq);
-            self.phase_increment = (self.freq.to_f64() * self.freq_to_phase_inc) as u32;
+            self.phase_increment = (self.freq.to_f64() * self.freq_to_phase_inc) as i64 as u32;
         }
         /// Set the phase offset in a range 0-1
         #[param]
         pub fn phase_offset(&mut self, offset: PFloat) {
-            self.phase_offset = WavetablePhase((offset.to_f64() * FRACTIONAL_PART as f64) as u32);
+            self.phase_offset = WavetablePhase::from_periods(offset.to_f64());
         }
         /// Reset the phase of the oscillator.
         #[param]
@@ -205,8 +205,10 @@ impl<F: Float> Phasor<F> {
     pub fn process(&mut self) -> [F; 1] {
         let out = F::new(self.phase);
         self.phase += self.step;
-        while self.phase >= 1.0 {
-            self.phase -= 1.0;
+        self.phase -= self.phase.floor();
+        if self.phase >= 1.0 {
+            // Rounded up, coming from just below 0
+            self.phase = 0.0;
         }
         [out]
     }
@@ -263,9 +265,7 @@ impl<F: Float> SinNumeric<F> {
     pub fn process(&mut self) -> [F; 1] {
         let out = ((self.phase + self.phase_offset) * F::TAU).sin();
         self.phase += self.phase_increment;
-        if self.phase > F::ONE {
-            self.phase -= F::ONE;
-        }
+        self.phase -= self.phase.floor();
         [out]
     }
 }
-- 
2.43.0


From 4f0542e57513d9b8408694cc16f915b6ccf5dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 45/58] fix: RandomLin keeps to its frequency if the period
 isn't a whole number of frames

---
 knaster_core_dsp/src/ugens/noise.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index 0cf852d..da4edb8 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -187,12 +187,12 @@ impl<F: Float> RandomLin<F> {
         let new = F::new(self.rng.f32());
         self.current_value = old_target;
         self.current_change_width = new - old_target;
-        self.phase = F::new(0.0);
     }
     fn init(&mut self, sample_rate: u32, _block_size: usize) {
         self.freq_to_phase_inc = F::ONE / F::from(sample_rate).unwrap();
         // freq is stored in phase_step until init
         self.phase_step *= self.freq_to_phase_inc;
+        self.phase = F::ZERO;
         self.new_value();
     }
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags) -> [F; 1] {
@@ -200,6 +200,8 @@ impl<F: Float> RandomLin<F> {
         self.phase += self.phase_step;
 
         if self.phase >= F::ONE {
+            // Keep the remainder, the period is rarely a whole number of frames
+            self.phase -= self.phase.floor();
             self.new_value();
         }
         [out]
-- 
2.43.0


From d93164542c372c2935123c91a5ee379e509de679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 46/58] fix: LogProbe logs every N samples rather than N + 1

---
 knaster_core_dsp/src/ugens/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/util.rs b/knaster_core_dsp/src/ugens/util.rs
index 8b08cec..bf671b1 100644
--- a/knaster_core_dsp/src/ugens/util.rs
+++ b/knaster_core_dsp/src/ugens/util.rs
@@ -92,7 +92,8 @@ impl<F: Float> LogProbe<F> {
     fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 1]) -> [F; 0] {
         if self.sample_counter == 0 {
             rt_log!(_ctx.logger(); "Probe", self.name, input[0].to_f64());
-            self.sample_counter = self.samples_between_logs;
+            // This is the first of them
+            self.sample_counter = self.samples_between_logs.saturating_sub(1);
         } else {
             self.sample_counter -= 1;
         }
-- 
2.43.0


From b2f4883e2a72708cdc91e43a51b2ae8f211d2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 47/58] hook: set the next randomness seed

---
 knaster_core_dsp/src/ugens/noise.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index da4edb8..84dc599 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -21,6 +21,14 @@ pub fn next_randomness_seed() -> u64 {
     NEXT_SEED.fetch_add(1, crate::core::sync::atomic::Ordering::SeqCst)
 }
 
+/// Verification hook: the seed that will be given out next.
+#[allow(unexpected_cfgs)]
+#[cfg(knaster_verif)]
+#[doc(hidden)]
+pub fn set_next_randomness_seed(seed: u64) {
+    NEXT_SEED.store(seed, crate::core::sync::atomic::Ordering::SeqCst)
+}
+
 /// White noise (fastrand RNG, based on wyrand)
 #[derive(Clone, Debug)]
 pub struct WhiteNoise<F: Copy = f32> {
-- 
2.43.0


From 03b97dd120b8cc77655461a8e0b36b45e4453875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 48/58] fix: the dither of Galactic follows the level of its
 output

Its exponent was unsigned: levels of 4 and above overflowed (a panic with overflow checks), and for
levels below 1 it wasn't scaled down.
---
 knaster_airwindows/src/galactic.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/knaster_airwindows/src/galactic.rs b/knaster_airwindows/src/galactic.rs
index d5a1fc4..7600207 100644
--- a/knaster_airwindows/src/galactic.rs
+++ b/knaster_airwindows/src/galactic.rs
@@ -369,7 +369,8 @@ impl<F: Float> Galactic<F> {
             input_sample_l += F::new(
                 ((fpd_l as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_l + 62) as f64),
+                    * (2_u64.pow(62) as f64)
+                    * 2.0_f64.powi(exp_l),
             );
             self.fpd_l = fpd_l;
 
@@ -381,7 +382,8 @@ impl<F: Float> Galactic<F> {
             input_sample_r += F::new(
                 ((fpd_r as f64) - (0x7fffffff_u32) as f64)
                     * 5.5e-36
-                    * (2_u64.pow(exp_r + 62) as f64),
+                    * (2_u64.pow(62) as f64)
+                    * 2.0_f64.powi(exp_r),
             );
             self.fpd_r = fpd_r;
 
@@ -391,13 +393,13 @@ impl<F: Float> Galactic<F> {
     }
 }
 
-fn frexp(s: f32) -> (f32, u32) {
+fn frexp(s: f32) -> (f32, i32) {
     if 0.0 == s {
         (s, 0)
     } else {
         let lg = s.abs().log2();
         let x = (lg - lg.floor() - 1.0).exp2();
         let exp = lg.floor() + 1.0;
-        (s.signum() * x, exp as u32)
+        (s.signum() * x, exp as i32)
     }
 }
-- 
2.43.0


From 662668f8ac65691fd77a8652db1806b9b0965850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 49/58] fix: the bell of SvfFilter is centred at its cutoff
 frequency

The coefficient g of the shelves was used for the bell too, which moved its
centre by the square root of its amplitude.
---
 knaster_core_dsp/src/ugens/svf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/ugens/svf.rs b/knaster_core_dsp/src/ugens/svf.rs
index e39b7b1..35407c5 100644
--- a/knaster_core_dsp/src/ugens/svf.rs
+++ b/knaster_core_dsp/src/ugens/svf.rs
@@ -207,7 +207,7 @@ impl<F: Float> SvfFilter<F> {
             }
             SvfFilterType::Bell => {
                 let amp = F::new(10.0).powf(gain_db / F::new(40.));
-                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.sqrt();
+                let g = ((F::PI * cutoff) / sample_rate).tan();
                 let k = F::ONE / (q * amp);
                 self.a1 = F::ONE / (F::ONE + g * (g + k));
                 self.a2 = g * self.a1;
-- 
2.43.0


From 156e1dd17f93e4167b9c38522d9d76e243a93aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 50/58] hook: remove the hook for the next randomness seed,
 nothing needs it any more

---
 knaster_core_dsp/src/ugens/noise.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/knaster_core_dsp/src/ugens/noise.rs b/knaster_core_dsp/src/ugens/noise.rs
index 84dc599..da4edb8 100644
--- a/knaster_core_dsp/src/ugens/noise.rs
+++ b/knaster_core_dsp/src/ugens/noise.rs
@@ -21,14 +21,6 @@ pub fn next_randomness_seed() -> u64 {
     NEXT_SEED.fetch_add(1, crate::core::sync::atomic::Ordering::SeqCst)
 }
 
-/// Verification hook: the seed that will be given out next.
-#[allow(unexpected_cfgs)]
-#[cfg(knaster_verif)]
-#[doc(hidden)]
-pub fn set_next_randomness_seed(seed: u64) {
-    NEXT_SEED.store(seed, crate::core::sync::atomic::Ordering::SeqCst)
-}
-
 /// White noise (fastrand RNG, based on wyrand)
 #[derive(Clone, Debug)]
 pub struct WhiteNoise<F: Copy = f32> {
-- 
2.43.0


From 88b94e1da89af92c8b19c5d038174e301b3e55fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 51/58] fix: play graphs with inputs through the CPAL backend

The callback of the stream panicked for a graph with inputs, because it ran
the graph without any. The inputs are now silent.
---
 knaster_graph/src/audio_backend/cpal.rs | 35 +++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/audio_backend/cpal.rs b/knaster_graph/src/audio_backend/cpal.rs
index e0bb204..71ae1e5 100644
--- a/knaster_graph/src/audio_backend/cpal.rs
+++ b/knaster_graph/src/audio_backend/cpal.rs
@@ -145,6 +145,30 @@ impl<F: Float> AudioBackend for CpalBackend<F> {
     }
 }
 
+/// One block of silence for each input of the top level graph, because CPAL currently does not
+/// support duplex streams.
+struct SilentInputs<F> {
+    _silence: Vec<F>,
+    pointers: Vec<*const F>,
+}
+impl<F: Float> SilentInputs<F> {
+    fn new(inputs: usize, block_size: usize) -> Self {
+        let silence = vec![F::ZERO; block_size];
+        let pointers = vec![silence.as_ptr(); inputs];
+        Self {
+            _silence: silence,
+            pointers,
+        }
+    }
+    fn pointers(&self) -> &[*const F] {
+        &self.pointers
+    }
+}
+// # Safety
+//
+// The pointers point to the data owned by the struct, which is never written to.
+unsafe impl<F: Float> Send for SilentInputs<F> {}
+
 fn run<T, F: Float>(
     device: &cpal::Device,
     config: &cpal::StreamConfig,
@@ -160,6 +184,7 @@ where
 
     let graph_block_size = audio_processor.block_size();
     let mut sample_counter = graph_block_size; // Immediately process a block
+    let silent_inputs = SilentInputs::new(audio_processor.inputs() as usize, graph_block_size);
     let stream = device.build_output_stream(
         config,
         move |output: &mut [T], _: &cpal::OutputCallbackInfo| {
@@ -170,7 +195,10 @@ where
                     for frame in output.chunks_mut(channels) {
                         if sample_counter >= graph_block_size {
                             // CPAL currently does not support duplex streams
-                            audio_processor.run_without_inputs();
+                            // SAFETY: Every pointer points to one block of silence.
+                            unsafe {
+                                audio_processor.run_raw_ptr_inputs(silent_inputs.pointers());
+                            }
                             sample_counter = 0;
                         }
                         let out_block = audio_processor.output_block();
@@ -188,7 +216,10 @@ where
                 for frame in output.chunks_mut(channels) {
                     if sample_counter >= graph_block_size {
                         // CPAL currently does not support duplex streams
-                        audio_processor.run_without_inputs();
+                        // SAFETY: Every pointer points to one block of silence.
+                        unsafe {
+                            audio_processor.run_raw_ptr_inputs(silent_inputs.pointers());
+                        }
                         sample_counter = 0;
                     }
                     let out_block = audio_processor.output_block();
-- 
2.43.0


From a0f5bd87e123c139e5a3d2d739d13ca0c510ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 52/58] fix: keep the JACK client when it is started twice or
 stopped

Starting a running JackBackend dropped the running client along with the
refusal, stopping one that wasn't running dropped the client, and a stopped one
could not be started again.
---
 knaster_graph/src/audio_backend/jack.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/audio_backend/jack.rs b/knaster_graph/src/audio_backend/jack.rs
index e2f0f93..c9f8e3c 100644
--- a/knaster_graph/src/audio_backend/jack.rs
+++ b/knaster_graph/src/audio_backend/jack.rs
@@ -49,10 +49,21 @@ impl<F: Float> AudioBackend for JackBackend<F> {
     fn stop(&mut self) -> Result<(), AudioBackendError> {
         match self.client.take() {
             Some(JackClient::Active(active_client)) => {
-                active_client.deactivate().unwrap();
+                let (client, _, process) = active_client.deactivate().unwrap();
+                // The names of the ports must be free if the client is started again
+                for port in process.in_ports {
+                    client.unregister_port(port)?;
+                }
+                for port in process.out_ports {
+                    client.unregister_port(port)?;
+                }
+                self.client = Some(JackClient::Passive(client));
                 Ok(())
             }
-            _ => Err(AudioBackendError::BackendNotRunning),
+            not_running => {
+                self.client = not_running;
+                Err(AudioBackendError::BackendNotRunning)
+            }
         }
     }
 
@@ -110,7 +121,10 @@ impl<F: Float> AudioBackend for JackBackend<F> {
                 self.client = Some(JackClient::Active(active_client));
                 Ok(())
             }
-            _ => Err(AudioBackendError::BackendAlreadyRunning),
+            already_running => {
+                self.client = already_running;
+                Err(AudioBackendError::BackendAlreadyRunning)
+            }
         }
     }
 }
-- 
2.43.0


From f0cc8172e15a21ec40cd084ae82ae1732265548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 53/58] fix: use the device's sample rate when no backend was
 given

KnasterBuilder::start with the default backend ran the graph at 48000 whatever
the rate of the device.
---
 knaster/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/knaster/src/lib.rs b/knaster/src/lib.rs
index 58999da..adb7da1 100644
--- a/knaster/src/lib.rs
+++ b/knaster/src/lib.rs
@@ -35,14 +35,13 @@ pub struct KnasterBuilder<F: Float> {
 }
 #[cfg(feature = "cpal")]
 impl<F: Float> KnasterBuilder<F> {
-    pub fn start(self) -> Result<Graph<F>, AudioBackendError> {
-        let mut backend = if let Some(backend) = self.backend {
-            backend
-        } else {
-            Box::new(knaster_graph::audio_backend::cpal::CpalBackend::new(
+    pub fn start(mut self) -> Result<Graph<F>, AudioBackendError> {
+        if self.backend.is_none() {
+            self = self.backend(knaster_graph::audio_backend::cpal::CpalBackend::new(
                 CpalBackendOptions::default(),
-            )?)
-        };
+            )?);
+        }
+        let mut backend = self.backend.expect("The backend was just set");
         let mut log_handler = self.log_handler.unwrap_or_else(|| {
             Box::new(|m| {
                 ::log::info!("{:?}", m);
-- 
2.43.0


From 40bd69f99491189ef79f753d20a37d5e1909781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:26 +0000
Subject: [PATCH 54/58] fix: a wavetable of the wrong size is read outside of
 its buffer

---
 knaster_core_dsp/src/dsp/wavetable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 1178351..734e808 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -125,9 +125,10 @@ mod wavetable_vec {
         }
         /// Create a [`PartialTable`] from an existing buffer.
         ///
-        /// # Errors
-        /// The buffer has to be of [`TABLE_SIZE`] length, otherwise an error will be returned.
+        /// # Panics
+        /// The buffer has to be of [`TABLE_SIZE`] length, since any phase may be read.
         pub fn set_from_buffer(&mut self, buffer: Vec<F>) {
+            assert_eq!(buffer.len(), TABLE_SIZE);
             // TODO: FFT of the buffer for anti-aliasing
             self.buffer = buffer;
             self.update_diff_buffer();
-- 
2.43.0


From 3ef8faa006c3c525452eda4df91bfd677402a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 55/58] fix: fill_sine limits the number of harmonics as if
 their frequency was inverted

---
 knaster_core_dsp/src/dsp/wavetable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 734e808..8036b15 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -538,7 +538,7 @@ mod wavetable_vec {
         pub fn fill_sine(&mut self, num_harmonics: usize, freq: f64) {
             for (i, table) in self.partial_tables.iter_mut().enumerate() {
                 table.fill_sine(
-                    num_harmonics.min((table_index_to_max_harmonic(i) as f64 * freq) as usize),
+                    num_harmonics.min((table_index_to_max_harmonic(i) as f64 / freq) as usize),
                     freq,
                 );
             }
-- 
2.43.0


From 7fb6217ffbcc9b313ebb23e67c53765c21da308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 56/58] fix: a wavetable saw has a harmonic more than asked for
 and than its table can hold without aliasing

---
 knaster_core_dsp/src/dsp/wavetable.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 8036b15..24a8b4f 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -251,9 +251,10 @@ mod wavetable_vec {
             }
             self.update_diff_buffer();
         }
-        /// Add a naive sawtooth wave to the wavetable.
+        /// Add a naive sawtooth wave to the wavetable. Harmonics are counted from 0 and
+        /// `end_harmonic` is not included.
         pub fn add_saw(&mut self, start_harmonic: usize, end_harmonic: usize, amp: f64) {
-            for i in start_harmonic..=end_harmonic {
+            for i in start_harmonic..end_harmonic {
                 let start_phase = 0.0;
                 let harmonic_amp = 1.0 / ((i + 1) as f64 * PI);
                 let len = self.buffer.len() as f64;
-- 
2.43.0


From 2c240d51693bc762f674f2c7b0dd9df1ebf3e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 57/58] fix: odd harmonics are added up to twice the frequency
 their table can hold without aliasing

---
 knaster_core_dsp/src/dsp/wavetable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 24a8b4f..6485df3 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -565,7 +565,8 @@ mod wavetable_vec {
         pub fn add_odd_harmonics(&mut self, num_harmonics: usize, amp_falloff: f64) {
             for (i, table) in self.partial_tables.iter_mut().enumerate() {
                 table.add_odd_harmonics(
-                    num_harmonics.min(table_index_to_max_harmonic(i)),
+                    // The last one of n odd harmonics is number 2n - 1
+                    num_harmonics.min(table_index_to_max_harmonic(i).div_ceil(2)),
                     amp_falloff,
                 );
             }
-- 
2.43.0


From 4cd5fbe292d90a868af6eff7011e2e6de8be5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 58/58] fix: normalizing a silent wavetable panics

---
 knaster_core_dsp/src/dsp/wavetable.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index 6485df3..39b8679 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -594,6 +594,10 @@ mod wavetable_vec {
                     loudest_sample = sample.abs();
                 }
             }
+            if loudest_sample == F::ZERO {
+                // Silence stays silent
+                return;
+            }
             // Scale all tables by the same amount
             let scaler = F::ONE / loudest_sample;
             for table in self.partial_tables.iter_mut() {
-- 
2.43.0

