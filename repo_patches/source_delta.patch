From 243e0bbfad0de1eb559c36ff7bd71a54e533c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 01/27] fix: keep outer-scope references in a fixed order

extract_node_outer_scope_references returned a HashSet whose iteration order
decides the order of a control-flow node's extra inputs, so converting the same
model twice could produce different source files. Use an ordered set.
---
 crates/onnx-ir/src/proto_conversion.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index e77bfa2..c7b9847 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -773,13 +773,14 @@ pub fn extract_outer_scope_references(
 ///
 /// This scans all GRAPH and GRAPHS attributes and returns all names that are
 /// referenced but not defined within the subgraphs. These need to be added
-/// as implicit inputs to ensure proper topological ordering.
+/// as implicit inputs to ensure proper topological ordering. The set is ordered because
+/// callers append the names to the node's inputs, and that order reaches the generated code.
 pub fn extract_node_outer_scope_references(
     node_proto: &NodeProto,
-) -> std::collections::HashSet<String> {
-    use std::collections::HashSet;
+) -> std::collections::BTreeSet<String> {
+    use std::collections::BTreeSet;
 
-    let mut all_refs: HashSet<String> = HashSet::new();
+    let mut all_refs: BTreeSet<String> = BTreeSet::new();
 
     for attr in &node_proto.attribute {
         if let Ok(attr_type) = attr.type_.enum_value() {
-- 
2.43.0


From e841ff360e0ad02332a810f6312e63df35bebe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:44 +0000
Subject: [PATCH 02/27] fix: keep node names unique across all subgraphs of a
 model

Every control-flow node of the main graph created its own name registry, so two
sibling If/Loop/Scan nodes gave the same names to nodes in their subgraphs, and
main-graph nodes following them could collide with subgraph nodes as well. The
generated struct then held renamed (or duplicate) fields that the forward pass
never used: weights of one subgraph were silently replaced by another's.
---
 crates/onnx-ir/src/graph_state.rs            |  7 ++++
 crates/onnx-ir/src/phases/node_conversion.rs | 41 ++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/crates/onnx-ir/src/graph_state.rs b/crates/onnx-ir/src/graph_state.rs
index 62dc6af..bb9296d 100644
--- a/crates/onnx-ir/src/graph_state.rs
+++ b/crates/onnx-ir/src/graph_state.rs
@@ -75,6 +75,13 @@ impl NameRegistry {
             inner.node_type_counters.insert(node_type.clone(), count);
         }
     }
+
+    /// Make sure the next generated name for a node type is numbered above `count`
+    pub fn raise_counter(&self, node_type: &crate::ir::NodeType, count: usize) {
+        let mut inner = self.0.borrow_mut();
+        let counter = inner.node_type_counters.entry(node_type.clone()).or_insert(0);
+        *counter = (*counter).max(count);
+    }
 }
 
 /// Mutable state container for ONNX graph conversion
diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 8e1de43..947e0e1 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -62,6 +62,9 @@ fn convert_nodes_impl(
         }
     };
 
+    // Registry handed to the subgraphs when this graph has none itself (main graph)
+    let mut subgraph_registry: Option<crate::graph_state::NameRegistry> = None;
+
     let mut node_iter = nodes.iter().peekable();
 
     while let Some(node_proto) = node_iter.next() {
@@ -130,22 +133,28 @@ fn convert_nodes_impl(
             }
 
             // Pass the current graph's NameRegistry to ensure unique names across nested subgraphs
-            // If no registry exists, create one and initialize with current node counts
+            // If no registry exists, create one and initialize with current node counts.
+            // All control flow nodes of this graph share it, so that sibling nodes do not hand
+            // out the same names in their subgraphs.
             let parent_registry = if let Some(registry) = state_rc.borrow().name_registry().cloned()
             {
                 registry
             } else {
-                // Create new registry and initialize with current node name counters
-                let registry = crate::graph_state::NameRegistry::new();
-                // Initialize counters from the current graph's already-named nodes
-                // IMPORTANT: Increment by 1 to account for the current node which will be
-                // renamed later using the local counter
-                for (node_type, count) in &node_name_counter {
-                    registry.set_initial_counter(node_type, count + 1);
-                }
-                // Also account for the current node's type
-                registry.set_initial_counter(&node.node_type, 1);
-                registry
+                subgraph_registry
+                    .get_or_insert_with(|| {
+                        // Create new registry and initialize with current node name counters
+                        let registry = crate::graph_state::NameRegistry::new();
+                        // Initialize counters from the current graph's already-named nodes
+                        // IMPORTANT: Increment by 1 to account for the current node which will be
+                        // renamed later using the local counter
+                        for (node_type, count) in &node_name_counter {
+                            registry.set_initial_counter(node_type, count + 1);
+                        }
+                        // Also account for the current node's type
+                        registry.set_initial_counter(&node.node_type, 1);
+                        registry
+                    })
+                    .clone()
             };
 
             // Convert graph attributes - now creates DeferredGraph instead of building immediately
@@ -210,6 +219,14 @@ fn convert_nodes_impl(
         state_rc.borrow_mut().add_node(node);
     }
 
+    // Subgraphs are built later (deferred): keep their names clear of this graph's nodes too,
+    // including the ones named after the registry was created.
+    if let Some(registry) = subgraph_registry {
+        for (node_type, count) in &node_name_counter {
+            registry.raise_counter(node_type, *count);
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 5c57ad1a5374006cfa6163ee84323019d0308de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 03/27] fix: carry over weights used inside Scan bodies

Fields and weights of subgraph nodes were collected from If and Loop nodes but
not from Scan nodes: the generated forward pass referred to fields that do not
exist and the weights were missing from the weight file.
---
 crates/burn-onnx/src/burn/graph.rs | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index af102f4..71704b3 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -95,7 +95,7 @@ impl BurnGraph {
                     snapshots.extend(node_snapshots);
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = node {
                     collect_subgraph_snapshots_recursive(
                         &nested_if_node.config.then_branch,
@@ -113,6 +113,12 @@ impl BurnGraph {
                         field_name_counts,
                         snapshots,
                     );
+                } else if let Node::Scan(nested_scan_node) = node {
+                    collect_subgraph_snapshots_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        snapshots,
+                    );
                 }
             }
         }
@@ -125,7 +131,7 @@ impl BurnGraph {
                 snapshots.extend(node_snapshots);
             }
 
-            // Collect from subgraphs in If/Loop nodes
+            // Collect from subgraphs in If/Loop/Scan nodes
             if let Node::If(if_node) = node {
                 collect_subgraph_snapshots_recursive(
                     &if_node.config.then_branch,
@@ -143,6 +149,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut snapshots,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_snapshots_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut snapshots,
+                );
             }
         }
 
@@ -396,7 +408,7 @@ impl BurnGraph {
                     all_fields.push((field.name.clone(), field.ty.clone(), Some(field.init)));
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = burn_node {
                     collect_subgraph_fields_recursive(
                         &nested_if_node.config.then_branch,
@@ -414,6 +426,12 @@ impl BurnGraph {
                         field_name_counts,
                         all_fields,
                     );
+                } else if let Node::Scan(nested_scan_node) = burn_node {
+                    collect_subgraph_fields_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        all_fields,
+                    );
                 }
             }
         }
@@ -424,7 +442,7 @@ impl BurnGraph {
                 all_fields.push((field.name, field.ty, Some(field.init)));
             }
 
-            // Recursively collect fields from If/Loop node subgraphs
+            // Recursively collect fields from If/Loop/Scan node subgraphs
             // Note: Subgraph fields are NOT deduplicated - each branch has unique fields
             if let Node::If(if_node) = node {
                 collect_subgraph_fields_recursive(
@@ -443,6 +461,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut all_fields,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_fields_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut all_fields,
+                );
             }
         }
 
-- 
2.43.0


From 86b6a49bba260a2e87382ed37d2973014514cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 04/27] fix: refuse model files that were cut short

A model file that lost its graph passed for an empty one, and the protobuf
decoder accepted a file cut between two fields of a nested message, so part of
the graph or the operator-set version could be missing without notice.
---
 crates/onnx-ir/src/pipeline.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 81f395c..4480693 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -26,7 +26,7 @@
 use std::io::Read;
 use std::{fmt, fs::File, path::Path};
 
-use protobuf::Message;
+use protobuf::{CodedInputStream, Message};
 
 use crate::{ir::OnnxGraph, processor::ProcessError, protos::ModelProto};
 
@@ -250,11 +250,19 @@ impl OnnxGraphBuilder {
         // Get the base directory for external data resolution
         let base_path = source_path.and_then(|p| p.parent());
 
-        let model: ModelProto =
-            Message::parse_from_tokio_bytes(&buffer).map_err(|e| Error::InvalidFormat {
-                path: path_str.clone(),
-                error: e.to_string(),
-            })?;
+        let model = decode_model(&buffer).map_err(|e| Error::InvalidFormat {
+            path: path_str.clone(),
+            error: e.to_string(),
+        })?;
+
+        // The graph is the model: a file that lost it must not pass for an
+        // empty one.
+        if model.graph.is_none() {
+            return Err(Error::InvalidFormat {
+                path: path_str,
+                error: "model has no graph".to_string(),
+            });
+        }
 
         // ONNX nodes must be topologically sorted per spec:
         // https://github.com/onnx/onnx/blob/main/docs/IR.md#graphs
@@ -275,6 +283,19 @@ impl OnnxGraphBuilder {
     }
 }
 
+/// Decode the protobuf message, refusing a buffer that was cut short.
+///
+/// Without a limit the decoder takes the end of the buffer for the end of every
+/// message it is inside of, so a file cut between two nested fields would pass
+/// for a complete one.
+fn decode_model(buffer: &bytes::Bytes) -> protobuf::Result<ModelProto> {
+    let mut stream = CodedInputStream::from_tokio_bytes(buffer);
+    stream.push_limit(buffer.len() as u64)?;
+    let model = ModelProto::parse_from(&mut stream)?;
+    stream.check_eof()?;
+    Ok(model)
+}
+
 /// Build IR graph from ONNX model with base path and simplification option
 fn build_graph_with_options(
     model: &ModelProto,
-- 
2.43.0


From e1f6bd52560117ce912835fdcc02c40381abb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:51 +0000
Subject: [PATCH 05/27] fix: do not skip the containment check of side-file
 paths

When a path could not be resolved (permission, I/O error), or the model was
named by its bare file name, the check against symbolic links that leave the
model's directory was skipped and the file was read.
---
 crates/onnx-ir/src/external_data.rs | 43 ++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/crates/onnx-ir/src/external_data.rs b/crates/onnx-ir/src/external_data.rs
index 8921b7f..93709c7 100644
--- a/crates/onnx-ir/src/external_data.rs
+++ b/crates/onnx-ir/src/external_data.rs
@@ -120,7 +120,7 @@ impl ExternalDataInfo {
     ///   normalizes separators on Windows
     /// - **Null bytes**: `weights.bin\0.txt` - blocked by explicit null byte check
     /// - **Symlink escapes**: Caught by `canonicalize()` + `starts_with()` check when
-    ///   the paths exist on disk
+    ///   the paths exist on disk; an existing path that cannot be checked is refused
     pub fn resolve_path(&self, base_path: &Path) -> Result<PathBuf, String> {
         // Check for null bytes which could truncate the path in some contexts
         // (e.g., C APIs, older PHP). Rust's Path handles this safely, but we
@@ -155,15 +155,38 @@ impl ExternalDataInfo {
         let resolved = base_path.join(&self.location);
 
         // Extra safety: canonicalize and verify the resolved path is under base_path
-        // This catches edge cases like symlinks pointing outside the base directory
-        if let (Ok(canonical_base), Ok(canonical_resolved)) =
-            (base_path.canonicalize(), resolved.canonicalize())
-            && !canonical_resolved.starts_with(&canonical_base)
-        {
-            return Err(format!(
-                "Security error: external_data path escapes base directory: {:?}",
-                self.location
-            ));
+        // This catches edge cases like symlinks pointing outside the base directory.
+        // Only a path that does not exist may go unverified (there is nothing to
+        // read); any other failure to resolve it must not skip the check.
+        match resolved.canonicalize() {
+            Ok(canonical_resolved) => {
+                // A model named by its bare file name has the empty path as its
+                // base, which stands for the current directory.
+                let base = if base_path.as_os_str().is_empty() {
+                    Path::new(".")
+                } else {
+                    base_path
+                };
+                let canonical_base = base.canonicalize().map_err(|e| {
+                    format!(
+                        "Security error: cannot verify that external_data path {:?} stays in its base directory: {}",
+                        self.location, e
+                    )
+                })?;
+                if !canonical_resolved.starts_with(&canonical_base) {
+                    return Err(format!(
+                        "Security error: external_data path escapes base directory: {:?}",
+                        self.location
+                    ));
+                }
+            }
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+            Err(e) => {
+                return Err(format!(
+                    "Security error: cannot verify that external_data path {:?} stays in its base directory: {}",
+                    self.location, e
+                ));
+            }
         }
 
         Ok(resolved)
-- 
2.43.0


From b350d72101ca605d58b80c9ded3b0b95d2411bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 06/27] fix: refuse side-file references that contradict the
 tensor's shape

A length entry that differs from what shape and element type need was taken
at its word: the constant was delivered with too few or too many bytes, and a
weight file with inconsistent entries was written. Offsets for which no end
position exists are refused as well.
---
 crates/onnx-ir/src/proto_conversion.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index c7b9847..328491f 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -467,16 +467,20 @@ fn create_external_data_ref(
         .resolve_path(base)
         .map_err(ParseError::VariantNotFound)?;
 
-    // Calculate the length if not specified
-    // When length is not provided, we need to calculate it from shape and dtype
-    let length = external_info.length.unwrap_or_else(|| {
-        let num_elements: usize = if shape.is_empty() {
-            1 // scalar
-        } else {
-            shape.iter().product()
-        };
-        (num_elements * dtype.size()) as u64
-    });
+    // The length follows from shape and dtype. A stated length that differs, or
+    // a range that no file can have, would yield other bytes than the tensor's.
+    let length = shape
+        .iter()
+        .try_fold(dtype.size(), |size, &dim| size.checked_mul(dim))
+        .map(|size| size as u64)
+        .filter(|&size| external_info.offset.checked_add(size).is_some())
+        .filter(|&size| external_info.length.is_none_or(|stated| stated == size))
+        .ok_or_else(|| {
+            ParseError::VariantNotFound(format!(
+                "External data of tensor '{}' (offset {}, length {:?}) does not fit shape {:?} and type {:?}",
+                tensor.name, external_info.offset, external_info.length, shape, dtype
+            ))
+        })?;
 
     log::debug!(
         "Creating external data ref for '{}': file={}, offset={}, length={}",
-- 
2.43.0


From 95304fc4ef153cb072bf1884014490e931a4aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 07/27] fix: do not allocate for side-file ranges the file does
 not have

The read fallback allocated whatever length the model states before looking at
the file, so a bogus shape made the allocation fail and abort the process; the
mapped path overflowed on offsets near the end of the address space.
---
 crates/onnx-ir/src/tensor_store.rs | 34 +++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index 61d13c4..fd5af24 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -145,22 +145,20 @@ impl TensorDataRef {
         // SAFETY: We're mapping a read-only file
         let mmap = unsafe { memmap2::Mmap::map(&file)? };
 
-        let start = offset as usize;
-        let end = start + length as usize;
+        let range = offset as usize..offset.saturating_add(length) as usize;
 
-        if end > mmap.len() {
-            return Err(std::io::Error::new(
+        let data = mmap.get(range.clone()).ok_or_else(|| {
+            std::io::Error::new(
                 std::io::ErrorKind::UnexpectedEof,
                 format!(
-                    "External data range {}..{} exceeds file size {}",
-                    start,
-                    end,
+                    "External data range {:?} exceeds file size {}",
+                    range,
                     mmap.len()
                 ),
-            ));
-        }
+            )
+        })?;
 
-        Ok(mmap[start..end].to_vec())
+        Ok(data.to_vec())
     }
 
     /// Load external data using standard file I/O
@@ -173,6 +171,22 @@ impl TensorDataRef {
             )
         });
 
+        // The length comes from the model: do not allocate it unless the file
+        // has that much.
+        let available = file
+            .metadata()
+            .unwrap_or_else(|e| panic!("Failed to inspect '{}': {}", file_path.display(), e))
+            .len();
+        if offset.checked_add(length).is_none_or(|end| end > available) {
+            panic!(
+                "Failed to read {} bytes at offset {} from '{}': the file has {} bytes",
+                length,
+                offset,
+                file_path.display(),
+                available
+            );
+        }
+
         file.seek(SeekFrom::Start(offset)).unwrap_or_else(|e| {
             panic!(
                 "Failed to seek to offset {} in '{}': {}",
-- 
2.43.0


From 2d52de481f3ab411af173870250b85cf5594e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 08/27] fix: refuse a Split whose num_outputs differs from its
 number of outputs

---
 crates/onnx-ir/src/node/split.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/onnx-ir/src/node/split.rs b/crates/onnx-ir/src/node/split.rs
index a9fea6d..c5db266 100644
--- a/crates/onnx-ir/src/node/split.rs
+++ b/crates/onnx-ir/src/node/split.rs
@@ -233,6 +233,20 @@ impl NodeProcessor for SplitProcessor {
             });
         }
 
+        // The attribute repeats the number of outputs the node has
+        if let Some(num) = num_outputs
+            && num != node.outputs.len()
+        {
+            return Err(ProcessError::InvalidAttribute {
+                name: "num_outputs".to_string(),
+                reason: format!(
+                    "Split: num_outputs is {} but the node has {} outputs",
+                    num,
+                    node.outputs.len()
+                ),
+            });
+        }
+
         // Handle the case when num_outputs is provided to calculate uniform split size
         if let Some(num_outputs) = num_outputs
             && let Some(static_shape) = &tensor.static_shape
-- 
2.43.0


From e2cb7d910bab3fc3d850852675dc267a625dedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 09/27] fix: refuse inferred output ranks no tensor can have

---
 crates/onnx-ir/src/phases/type_inference.rs |  1 +
 crates/onnx-ir/src/processor.rs             | 25 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/crates/onnx-ir/src/phases/type_inference.rs b/crates/onnx-ir/src/phases/type_inference.rs
index aa121e7..05b299c 100644
--- a/crates/onnx-ir/src/phases/type_inference.rs
+++ b/crates/onnx-ir/src/phases/type_inference.rs
@@ -123,6 +123,7 @@ pub(super) fn iterative_type_inference_with_preferences(
 
             // Validate that no rank-0 tensors were created (invariant: should be Scalars)
             crate::processor::validate_no_rank_zero_tensors(&nodes[i])?;
+            crate::processor::validate_output_ranks(&nodes[i])?;
 
             // Immediately sync this node's output types to downstream nodes' inputs
             // This allows downstream nodes to see correct types in the same iteration
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index d72d4f5..b156e59 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -346,6 +346,31 @@ pub fn validate_no_rank_zero_tensors(node: &RawNode) -> Result<(), ProcessError>
     Ok(())
 }
 
+/// Largest rank, and longest shape vector, an inferred output may have.
+///
+/// Later stages do work per dimension, so a rank taken from a bogus shape must not
+/// get there. No tensor library handles ranks anywhere near this.
+const MAX_INFERRED_RANK: usize = 4096;
+
+/// Validate that no output has an absurd rank
+pub fn validate_output_ranks(node: &RawNode) -> Result<(), ProcessError> {
+    for output in &node.outputs {
+        let rank = output.ty.rank();
+        let len = match &output.ty {
+            crate::ir::ArgType::Shape(len) => *len,
+            _ => rank,
+        };
+        if len > MAX_INFERRED_RANK {
+            return Err(ProcessError::Custom(format!(
+                "Invalid type inference: Node '{}' output '{}' would have {} dimensions.",
+                node.name, output.name, len
+            )));
+        }
+    }
+
+    Ok(())
+}
+
 // ============================================================================
 // NodeSpec Validation
 // ============================================================================
-- 
2.43.0


From 09c3cae23815d46cadd77e60fe9408b76a87e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:51 +0000
Subject: [PATCH 10/27] fix: keep converting when both stdout and stderr are
 gone

---
 crates/burn-onnx/src/logger.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/burn-onnx/src/logger.rs b/crates/burn-onnx/src/logger.rs
index 3def091..1ae1dfe 100644
--- a/crates/burn-onnx/src/logger.rs
+++ b/crates/burn-onnx/src/logger.rs
@@ -5,6 +5,8 @@ pub fn init_log() -> Result<(), Box<dyn Error + Send + Sync>> {
     let result = tracing_subscriber::fmt()
         .with_max_level(LevelFilter::DEBUG)
         .without_time()
+        // Reporting a failing stdout on a failing stderr would panic.
+        .log_internal_errors(false)
         .try_init();
 
     if result.is_ok() {
-- 
2.43.0


From c2b40904ec1db10e049b22c5edf7b2bffb32a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:36 +0000
Subject: [PATCH 11/27] fix: bound the rank Unsqueeze takes from the length of
 its axes

---
 crates/onnx-ir/src/node/unsqueeze.rs |  4 ++++
 crates/onnx-ir/src/processor.rs      | 22 +++++++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/onnx-ir/src/node/unsqueeze.rs b/crates/onnx-ir/src/node/unsqueeze.rs
index aef4822..4aa1627 100644
--- a/crates/onnx-ir/src/node/unsqueeze.rs
+++ b/crates/onnx-ir/src/node/unsqueeze.rs
@@ -33,6 +33,7 @@ use onnx_ir_derive::NodeBuilder;
 use crate::ir::{ArgType, Argument, Node, RawNode, RuntimeInputRef, TensorDataExt, TensorType};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
+    check_inferred_rank,
 };
 
 /// Axes specification for the Unsqueeze operation.
@@ -257,6 +258,9 @@ impl UnsqueezeProcessor {
             ));
         };
 
+        // The length of runtime axes comes from a declared shape
+        check_inferred_rank(&node.name, output_rank)?;
+
         // Special case: Int scalar -> Shape[1] conversion (reverse of squeeze)
         match &node.inputs[0].ty {
             ArgType::ScalarTensor(elem_type) | ArgType::ScalarNative(elem_type)
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index b156e59..6cbde29 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -352,20 +352,24 @@ pub fn validate_no_rank_zero_tensors(node: &RawNode) -> Result<(), ProcessError>
 /// get there. No tensor library handles ranks anywhere near this.
 const MAX_INFERRED_RANK: usize = 4096;
 
+/// Refuse a rank, or shape vector length, no tensor can have
+pub fn check_inferred_rank(node_name: &str, rank: usize) -> Result<(), ProcessError> {
+    if rank > MAX_INFERRED_RANK {
+        return Err(ProcessError::Custom(format!(
+            "Invalid type inference: an output of node '{node_name}' would have {rank} dimensions."
+        )));
+    }
+    Ok(())
+}
+
 /// Validate that no output has an absurd rank
 pub fn validate_output_ranks(node: &RawNode) -> Result<(), ProcessError> {
     for output in &node.outputs {
-        let rank = output.ty.rank();
-        let len = match &output.ty {
+        let rank = match &output.ty {
             crate::ir::ArgType::Shape(len) => *len,
-            _ => rank,
+            ty => ty.rank(),
         };
-        if len > MAX_INFERRED_RANK {
-            return Err(ProcessError::Custom(format!(
-                "Invalid type inference: Node '{}' output '{}' would have {} dimensions.",
-                node.name, output.name, len
-            )));
-        }
+        check_inferred_rank(&node.name, rank)?;
     }
 
     Ok(())
-- 
2.43.0


From 44d5be56717a6f84aee98eae0b1df6efdafc5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 12/27] fix: fuse into Linear only what a Linear layer can hold

Gemm became Linear with weights that are no constants, and with a C that is no
vector of out_features elements; MatMul+Add became Linear with any constant as
bias, and also when other nodes need the product itself, which was then never
computed.
---
 crates/onnx-ir/src/phases/node_conversion.rs | 82 +++++++++++++++++---
 1 file changed, 71 insertions(+), 11 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 947e0e1..5a285e5 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -9,10 +9,10 @@ use std::{cell::RefCell, collections::HashMap, iter::Peekable, rc::Rc, slice::It
 
 use crate::{
     graph_state::GraphState,
-    ir::{ArgType, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
+    ir::{ArgType, Argument, AttributeValue, NodeType, RawNode, TensorData, TensorDataExt},
     pipeline::Error,
     processor::get_processor_registry,
-    proto_conversion::convert_node_proto,
+    proto_conversion::{convert_node_proto, extract_node_outer_scope_references, sanitize_name},
     protos::{GraphProto, NodeProto},
 };
 
@@ -482,7 +482,23 @@ fn convert_gemm_to_linear(node: &mut RawNode) {
         _ => false,
     };
 
-    if straight_linear {
+    // A Linear module owns its parameters: the weight has to be a constant matrix and the bias,
+    // if any, a constant vector with one element per output feature (Gemm broadcasts C).
+    let constant_parameters = {
+        let constant = |arg: &Argument| arg.is_constant() || arg.is_static();
+        node.inputs.get(1).is_some_and(|weight| {
+            constant(weight)
+                && weight.ty.rank() == 2
+                && match node.inputs.get(2) {
+                    Some(bias) if !bias.name.is_empty() => {
+                        constant(bias) && is_linear_bias(bias, weight, 0)
+                    }
+                    _ => true,
+                }
+        })
+    };
+
+    if straight_linear && constant_parameters {
         log::debug!("Fusing Gemm → Linear for node {}", node.name);
         node.node_type = NodeType::Linear;
         node.attrs.remove("alpha");
@@ -494,15 +510,30 @@ fn convert_gemm_to_linear(node: &mut RawNode) {
             .insert("transpose_weight".to_string(), AttributeValue::Int64(1));
     } else {
         log::debug!(
-            "Keeping Gemm node {} (alpha={:?}, beta={:?}, transB={:?} don't match Linear pattern)",
+            "Keeping Gemm node {} (alpha={:?}, beta={:?}, transB={:?}, constant parameters: {} don't match Linear pattern)",
             node.name,
             node.attrs.get("alpha"),
             node.attrs.get("beta"),
-            node.attrs.get("transB")
+            node.attrs.get("transB"),
+            constant_parameters
         );
     }
 }
 
+/// Check if a constant is the bias vector of a Linear with the given weight, whose output features
+/// are counted by the weight's dimension `out_dim`
+fn is_linear_bias(bias: &Argument, weight: &Argument, out_dim: usize) -> bool {
+    let out_features = weight
+        .ty
+        .static_shape()
+        .and_then(|shape| shape.get(out_dim).copied().flatten());
+
+    match bias.ty.static_shape() {
+        Some(shape) => shape.len() == 1 && out_features.is_some() && shape[0] == out_features,
+        None => false,
+    }
+}
+
 /// Convert MatMul to Linear, fusing the following Add node as bias if present
 fn convert_matmul_to_linear(
     node: &mut RawNode,
@@ -548,7 +579,9 @@ fn convert_matmul_to_linear(
     // Check the next node for potential conversion
     if let Some(peek_node) = iter_mut.peek() {
         let peek_node = convert_node_proto(peek_node, graph_data);
-        if is_add_node_with_bias(&peek_node, node, graph_data) {
+        if is_add_node_with_bias(&peek_node, node, graph_data)
+            && !is_used_elsewhere(&node.outputs[0].name, iter_mut, graph_data)
+        {
             convert_and_remove_add_node(&peek_node, node);
             log::debug!("Fused Add bias into Linear node {}", node.name);
 
@@ -569,11 +602,38 @@ fn is_add_node_with_bias(
         return false;
     }
 
-    // Check if one input is the matmul output and the other has a value
-    (peek_node.inputs[0].name == current_node.outputs[0].name
-        && graph_data.has_value(&peek_node.inputs[1].name))
-        || (peek_node.inputs[1].name == current_node.outputs[0].name
-            && graph_data.has_value(&peek_node.inputs[0].name))
+    // Check if one input is the matmul output and the other is a constant bias vector
+    let product = &current_node.outputs[0].name;
+    let is_bias = |arg: &Argument| {
+        graph_data.has_value(&arg.name) && is_linear_bias(arg, &current_node.inputs[1], 1)
+    };
+
+    (peek_node.inputs[0].name == *product && is_bias(&peek_node.inputs[1]))
+        || (peek_node.inputs[1].name == *product && is_bias(&peek_node.inputs[0]))
+}
+
+/// Check if the MatMul output is needed by anything but the Add that is peeked, in which case the
+/// product itself has to stay available
+fn is_used_elsewhere(
+    output: &str,
+    nodes_iter: &Peekable<Iter<NodeProto>>,
+    graph_data: &GraphState,
+) -> bool {
+    let mut rest = nodes_iter.clone();
+
+    // The name of the product in the ONNX graph
+    let Some(product) = rest
+        .next()
+        .and_then(|add| add.input.iter().find(|name| sanitize_name(name) == output))
+    else {
+        return false;
+    };
+
+    graph_data.get_output_type(output).is_some()
+        || rest.any(|node| {
+            node.input.contains(product)
+                || extract_node_outer_scope_references(node).contains(output)
+        })
 }
 
 /// Merge the Add node's bias into the MatMul node
-- 
2.43.0


From 081c723d9df920761fa1031f020fdb7161eb5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:15 +0000
Subject: [PATCH 13/27] fix: refuse graphs that use a node output no code is
 generated for

The mask of Dropout and the statistics of BatchNormalization are not computed;
a graph using them was converted into source with undefined names.
---
 crates/burn-onnx/src/burn/graph.rs            |  4 ++
 .../src/burn/node/subgraph_helper.rs          |  5 ++
 crates/burn-onnx/src/burn/scope.rs            | 55 ++++++++++++++++++-
 3 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 71704b3..66a1ee1 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -570,11 +570,15 @@ impl BurnGraph {
         }
 
         let mut body = quote! {};
+        let mut computed = super::scope::ComputedOutputs::default();
         for (index, node) in self.nodes.iter().enumerate() {
+            computed.check_use(NodeCodegen::inputs(node));
             let mut scope_at_pos = self.scope.at_position(index);
             let code = NodeCodegen::forward(node, &mut scope_at_pos);
+            computed.record(NodeCodegen::outputs(node), &code);
             body.extend(code);
         }
+        computed.check_use(&self.graph_output_args);
 
         // Insert ScalarTensor -> ScalarNative conversions at graph boundary.
         // Internal nodes produce Tensor<B, 1> but the graph signature expects native types.
diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index 640c4ab..ecc4af0 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -1,6 +1,7 @@
 //! Shared utilities for subgraph code generation in control flow nodes (If, Loop, Scan)
 
 use super::prelude::*;
+use crate::burn::scope::ComputedOutputs;
 use std::collections::HashSet;
 
 /// Collect all names referenced within a subgraph (node inputs).
@@ -147,12 +148,16 @@ pub(super) fn generate_subgraph_forward_code(
     node_position: usize,
 ) -> TokenStream {
     let mut code = quote! {};
+    let mut computed = ComputedOutputs::default();
 
     for (idx, node) in subgraph.nodes.iter().enumerate() {
+        computed.check_use(NodeCodegen::inputs(node));
         let mut scope_at_pos = scope.at_position(node_position + idx + 1);
         let node_code = NodeCodegen::forward(node, &mut scope_at_pos);
+        computed.record(NodeCodegen::outputs(node), &node_code);
         code.extend(node_code);
     }
+    computed.check_use(&subgraph.outputs);
 
     code
 }
diff --git a/crates/burn-onnx/src/burn/scope.rs b/crates/burn-onnx/src/burn/scope.rs
index f8e3b9f..ffc023a 100644
--- a/crates/burn-onnx/src/burn/scope.rs
+++ b/crates/burn-onnx/src/burn/scope.rs
@@ -1,7 +1,7 @@
 use onnx_ir::{Argument, ir::ArgType};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 use quote::quote;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use super::node_traits::arg_to_ident;
 
@@ -108,6 +108,57 @@ impl Scope {
     }
 }
 
+/// Keeps track of node outputs the generated code does not bind.
+///
+/// Some nodes have optional outputs that are not supported (e.g. the mask of Dropout or the
+/// statistics of BatchNormalization). This is fine as long as nothing uses them.
+#[derive(Debug, Default)]
+pub struct ComputedOutputs {
+    missing: HashSet<String>,
+}
+
+impl ComputedOutputs {
+    /// Record which outputs of a node its code computes.
+    pub fn record(&mut self, outputs: &[Argument], code: &TokenStream) {
+        if outputs.len() > 1 {
+            let mut idents = HashSet::new();
+            collect_idents(code.clone(), &mut idents);
+            self.missing.extend(
+                outputs
+                    .iter()
+                    .filter(|arg| !arg.name.is_empty() && !idents.contains(&arg.name))
+                    .map(|arg| arg.name.clone()),
+            );
+        }
+    }
+
+    /// Make sure that values about to be used are computed.
+    ///
+    /// # Panics
+    ///
+    /// If a value is an output that no code has been generated for.
+    pub fn check_use(&self, args: &[Argument]) {
+        if let Some(arg) = args.iter().find(|arg| self.missing.contains(&arg.name)) {
+            panic!(
+                "The graph uses the optional node output '{}', which is not supported",
+                arg.name
+            );
+        }
+    }
+}
+
+fn collect_idents(code: TokenStream, idents: &mut HashSet<String>) {
+    for token in code {
+        match token {
+            TokenTree::Ident(ident) => {
+                idents.insert(ident.to_string());
+            }
+            TokenTree::Group(group) => collect_idents(group.stream(), idents),
+            _ => {}
+        }
+    }
+}
+
 /// A wrapper around Scope that encapsulates the node_position parameter
 ///
 /// This provides a more ergonomic API for the common pattern of using scope
-- 
2.43.0


From 15e2cf4c5b76c47db4577c149f6a20377cee3e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 14/27] fix: model-checks: treat an empty BURN_CACHE_DIR as
 unset, like get_model.py does

The download step (common.py) falls back to the platform cache directory when
BURN_CACHE_DIR is empty; build and run looked in a relative directory and
found no artifacts.
---
 crates/model-checks/common/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/model-checks/common/src/lib.rs b/crates/model-checks/common/src/lib.rs
index 1324c36..c84a934 100644
--- a/crates/model-checks/common/src/lib.rs
+++ b/crates/model-checks/common/src/lib.rs
@@ -4,9 +4,10 @@ use std::path::PathBuf;
 ///
 /// Used in `src/main.rs` (no cargo warnings).
 pub fn artifacts_dir(model_name: &str) -> PathBuf {
-    let base = match std::env::var("BURN_CACHE_DIR") {
-        Ok(dir) => PathBuf::from(dir),
-        Err(_) => dirs::cache_dir()
+    // An empty variable counts as unset, as in `common.py`.
+    let base = match std::env::var_os("BURN_CACHE_DIR").filter(|dir| !dir.is_empty()) {
+        Some(dir) => PathBuf::from(dir),
+        None => dirs::cache_dir()
             .expect("could not determine cache directory")
             .join("burn-onnx"),
     };
-- 
2.43.0


From 6aa1ef20b974ccdf71151f55cb7a5e6d516afa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 15/27] fix: model-checks: ignore an empty or relative
 XDG_CACHE_HOME when downloading

The XDG specification asks for that and dirs::cache_dir does it, so build and
run looked elsewhere than where get_model.py had stored the artifacts.
---
 crates/model-checks/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/model-checks/common.py b/crates/model-checks/common.py
index ece4077..e4c2aa8 100644
--- a/crates/model-checks/common.py
+++ b/crates/model-checks/common.py
@@ -19,8 +19,10 @@ def get_artifacts_dir(model_name: str) -> Path:
         local = os.environ.get("LOCALAPPDATA", str(Path.home() / "AppData" / "Local"))
         base = Path(local) / "burn-onnx"
     else:
-        xdg = os.environ.get("XDG_CACHE_HOME", str(Path.home() / ".cache"))
-        base = Path(xdg) / "burn-onnx"
+        # Like the Rust side (`dirs::cache_dir`), ignore an empty or relative value.
+        xdg = Path(os.environ.get("XDG_CACHE_HOME", ""))
+        cache = xdg if xdg.is_absolute() else Path.home() / ".cache"
+        base = cache / "burn-onnx"
     d = base / "model-checks" / model_name
     d.mkdir(parents=True, exist_ok=True)
     print(f"Artifacts directory: {d}")
-- 
2.43.0


From 31ed83c952f0d601f1e092ceb2fd31c5110b75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 16/27] fix: embed weights by a path that holds from the
 generated source file

---
 crates/burn-onnx/src/burn/graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 66a1ee1..e8f796a 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -318,6 +318,12 @@ impl BurnGraph {
         let file_size = std::fs::metadata(&file)
             .expect("Failed to read burnpack file metadata")
             .len() as usize;
+        // `include_bytes!` looks a relative path up from the generated source file, which
+        // lies beside the burnpack file, and not from the directory this process runs in.
+        let file = match file.file_name() {
+            Some(name) if file.is_relative() => PathBuf::from(name),
+            _ => file,
+        };
         let file = file.to_str().unwrap();
 
         self.default = Some(quote! {
-- 
2.43.0


From 2768ec1238339864892d0f6e88708e53ff4d146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 17/27] fix: Loop and Scan: carry all states over to the next
 iteration at once

The states were assigned one after the other, so a state that took the value
of an earlier one got the value of the iteration that starts instead of the one
that ends. A scan output that is an old state was collected after the update.
---
 crates/burn-onnx/src/burn/node/loop_node.rs   | 30 ++++++--------
 crates/burn-onnx/src/burn/node/scan_node.rs   | 35 ++++++++--------
 .../src/burn/node/subgraph_helper.rs          | 41 +++++++++++++++++++
 3 files changed, 71 insertions(+), 35 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 993e754..435d7e2 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -219,29 +219,25 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
 
         // Update loop-carried variables after iteration
         // Skip self-assignments when body passes through a value unchanged (same name)
-        let mut update_vars = quote! {};
-        for (idx, out_name) in loop_out_names.iter().enumerate() {
-            let var_name = &loop_var_names[idx];
-            if var_name != out_name {
-                update_vars.extend(quote! {
-                    #var_name = #out_name;
-                });
+        let mut updates = Vec::new();
+        for (var, out) in loop_var_names.iter().zip(&loop_out_names) {
+            if var != out {
+                updates.push((var.clone(), out.clone(), quote! { #out }));
             }
         }
 
         // Update condition from body output (skip if same name)
-        let update_cond = if cond_in_name != cond_out_name {
+        if cond_in_name != cond_out_name {
             let cond_out_ty = &self.config.body.outputs[0].ty;
-            if let ArgType::ScalarTensor(dtype) = cond_out_ty {
+            let value = if let ArgType::ScalarTensor(dtype) = cond_out_ty {
                 // ScalarTensor -> native bool
-                let convert = on_device_to_native(quote! { #cond_out_name }, dtype);
-                quote! { #cond_in_name = #convert; }
+                on_device_to_native(quote! { #cond_out_name }, dtype)
             } else {
-                quote! { #cond_in_name = #cond_out_name; }
-            }
-        } else {
-            quote! {}
-        };
+                quote! { #cond_out_name }
+            };
+            updates.push((cond_in_name.clone(), cond_out_name.clone(), value));
+        }
+        let update_vars = subgraph_helper::generate_simultaneous_updates(&updates, &loop_var_names);
 
         // Collect scan outputs - handle scalar vs tensor
         let mut collect_scans = quote! {};
@@ -364,7 +360,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
                     // Collect scan outputs from body outputs (before updating variables)
                     #collect_scans
 
-                    // Update loop-carried variables for next iteration
+                    // Update loop-carried variables and condition for next iteration
                     #update_vars
 
                     // Update condition from body output for next iteration
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index c846c08..ddcf8b8 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -187,31 +187,30 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             node_position,
         );
 
-        // Update state variables and collect scan outputs
+        // Collect scan outputs and update state variables
         let mut update_stmts = quote! {};
 
-        // Update state variables (clone if there are scan outputs)
-        let should_clone = num_scan_outputs > 0;
-        for (idx, var_name) in state_var_names.iter().enumerate() {
-            let out_name = arg_to_ident(&self.config.body.outputs[idx]);
-            if should_clone {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name.clone();
-                });
-            } else {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name;
-                });
-            }
-        }
-
-        // Collect scan outputs
+        // Collect scan outputs (before updating variables: they may be among the old states)
         for (idx, collector) in scan_output_collectors.iter().enumerate() {
             let body_out_name = arg_to_ident(&self.config.body.outputs[num_state_vars + idx]);
             update_stmts.extend(quote! {
-                #collector.push(#body_out_name);
+                #collector.push(#body_out_name.clone());
             });
         }
+        // Update state variables
+        let updates: Vec<_> = state_var_names
+            .iter()
+            .zip(&self.config.body.outputs)
+            .map(|(var, out)| {
+                let out = arg_to_ident(out);
+                (var.clone(), out.clone(), quote! { #out })
+            })
+            .collect();
+        update_stmts.extend(subgraph_helper::generate_simultaneous_updates(
+            &updates,
+            &state_var_names,
+        ));
+
 
         // Finalize scan outputs: reverse if needed, then stack into tensors
         let mut finalize_stmts = quote! {};
diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index ecc4af0..ad2cefc 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -161,3 +161,44 @@ pub(super) fn generate_subgraph_forward_code(
 
     code
 }
+
+/// Generate the assignments that carry values over to the next iteration.
+///
+/// Each entry is the variable to assign, the name of its new value and the
+/// expression for it. All new values are those of the iteration that ends, so
+/// an assignment must not be seen by a later one. `carried` lists all variables
+/// the next iteration starts from.
+pub(super) fn generate_simultaneous_updates(
+    updates: &[(Ident, Ident, TokenStream)],
+    carried: &[Ident],
+) -> TokenStream {
+    let assigned = |name: &Ident| updates.iter().any(|(var, _, _)| var == name);
+
+    let values: Vec<_> = updates
+        .iter()
+        .enumerate()
+        .map(|(idx, (_, out, value))| {
+            // A value that is carried over more than once must not be given away
+            let again = updates[idx + 1..].iter().any(|(_, other, _)| other == out);
+            if again || (carried.contains(out) && !assigned(out)) {
+                quote! { #value.clone() }
+            } else {
+                quote! { #value }
+            }
+        })
+        .collect();
+
+    let depends = updates.iter().enumerate().any(|(idx, (_, out, _))| {
+        assigned(out) && updates[..idx].iter().any(|(var, _, _)| var == out)
+    });
+    let vars = updates.iter().map(|(var, _, _)| var);
+    if depends {
+        quote! {
+            (#(#vars),*) = (#(#values),*);
+        }
+    } else {
+        quote! {
+            #(#vars = #values;)*
+        }
+    }
+}
-- 
2.43.0


From f8e5edff8b82816bd7c78b5acac50ec1c7e2241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 18/27] fix: clone a value that forward or an If branch returns
 more than once

Two graph outputs can be the same value once the Identity between them is
eliminated; returning it twice moved it twice (and converted it twice when
it was a scalar).
---
 crates/burn-onnx/src/burn/argument_helpers.rs | 14 ++++++++++++--
 crates/burn-onnx/src/burn/graph.rs            |  9 ++++++++-
 crates/burn-onnx/src/burn/node/if_node.rs     |  9 ++-------
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 4dabd2b..61fa591 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -143,13 +143,23 @@ pub fn codegen_return_type(outputs: &[Argument]) -> TokenStream {
 ///
 /// Single output: `name`
 /// Multiple outputs: `(name1, name2, ...)`
+///
+/// A value that is returned more than once is cloned.
 pub fn codegen_return_expr(outputs: &[Argument]) -> TokenStream {
     if outputs.len() == 1 {
         let name = arg_ident(&outputs[0]);
         quote! { #name }
     } else {
-        let names: Vec<_> = outputs.iter().map(arg_ident).collect();
-        quote! { (#(#names),*) }
+        let values = outputs.iter().enumerate().map(|(idx, arg)| {
+            let name = arg_ident(arg);
+            let again = outputs[idx + 1..].iter().any(|o| o.name == arg.name);
+            if again && matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
+                quote! { #name.clone() }
+            } else {
+                quote! { #name }
+            }
+        });
+        quote! { (#(#values),*) }
     }
 }
 
diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index e8f796a..1033ee2 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -4,7 +4,10 @@ use burn_store::{BurnpackWriter, TensorSnapshot};
 use onnx_ir::{Node, ir::ArgType};
 use proc_macro2::TokenStream;
 use quote::quote;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::{HashMap, HashSet},
+    path::PathBuf,
+};
 
 /// Burn graph intermediate representation of modules and tensor operations.
 #[derive(Default, Debug)]
@@ -589,7 +592,11 @@ impl BurnGraph {
         // Insert ScalarTensor -> ScalarNative conversions at graph boundary.
         // Internal nodes produce Tensor<B, 1> but the graph signature expects native types.
         let mut boundary_conversions = quote! {};
+        let mut converted = HashSet::new();
         for arg in &self.graph_output_args {
+            if !converted.insert(&arg.name) {
+                continue;
+            }
             if let Some(dtype) = self.boundary_output_conversions.get(&arg.name) {
                 let name = crate::burn::arg_ident(arg);
                 let convert = crate::burn::on_device_to_native(quote! { #name }, dtype);
diff --git a/crates/burn-onnx/src/burn/node/if_node.rs b/crates/burn-onnx/src/burn/node/if_node.rs
index df2497b..26395d7 100644
--- a/crates/burn-onnx/src/burn/node/if_node.rs
+++ b/crates/burn-onnx/src/burn/node/if_node.rs
@@ -1,5 +1,6 @@
 use super::prelude::*;
 use super::subgraph_helper;
+use crate::burn::argument_helpers::codegen_return_expr;
 use std::collections::HashSet;
 
 /// Generate inline code for a subgraph branch (then/else).
@@ -37,13 +38,7 @@ fn generate_branch_code(
         subgraph_helper::generate_subgraph_forward_code(subgraph, scope, node_position);
 
     // Generate output tuple
-    let output_names: Vec<_> = subgraph.outputs.iter().map(arg_to_ident).collect();
-    let output_tuple = if output_names.len() == 1 {
-        let out = &output_names[0];
-        quote! { #out }
-    } else {
-        quote! { (#(#output_names),*) }
-    };
+    let output_tuple = codegen_return_expr(&subgraph.outputs);
 
     let body = quote! {
         #bindings
-- 
2.43.0


From 7cebd252a9b551658690d0744148f389395c683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 19/27] fix: keep outer values available to control flow bodies
 and to later nodes

- The initial values of Loop and Scan were moved even if used again.
- An outer value that is an input of the node as well was not bound in the
  body, which then referred to a value that may have been given away.
- A value that both branches of an If refer to was counted as used twice, so
  a use before the last one did not clone it.
---
 crates/burn-onnx/src/burn/node/if_node.rs     |  3 +--
 crates/burn-onnx/src/burn/node/loop_node.rs   |  8 ++-----
 crates/burn-onnx/src/burn/node/scan_node.rs   |  7 +++----
 .../src/burn/node/subgraph_helper.rs          | 21 ++++++++++++++-----
 crates/onnx-ir/src/phases/node_conversion.rs  |  8 ++-----
 5 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/if_node.rs b/crates/burn-onnx/src/burn/node/if_node.rs
index 26395d7..78bccf7 100644
--- a/crates/burn-onnx/src/burn/node/if_node.rs
+++ b/crates/burn-onnx/src/burn/node/if_node.rs
@@ -26,8 +26,6 @@ fn generate_branch_code(
         scope_ref_names,
         &exclude_names,
         Some(&used_names),
-        scope,
-        node_position,
     );
 
     // Register subgraph scope
@@ -99,6 +97,7 @@ impl NodeCodegen for onnx_ir::node::if_node::IfNode {
             scope.scope(),
             node_position,
         );
+        subgraph_helper::release_outer_scope_inputs(&outer_scope_inputs, scope);
 
         // Generate output variable declarations
         let output_names: Vec<_> = self.outputs.iter().map(arg_to_ident).collect();
diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 435d7e2..9d3d0d2 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -23,8 +23,6 @@ fn generate_loop_body_code(
         scope_ref_names,
         body_input_names,
         Some(&used_names),
-        scope,
-        node_position,
     );
 
     // Register subgraph scope
@@ -154,7 +152,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         let mut init_stmts = quote! {};
         for (idx, initial_arg) in v_initial_args.iter().enumerate() {
             let var_name = &loop_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
+            let init_value = scope.arg(initial_arg);
 
             // Check if this variable will be updated (different name means it gets assigned)
             let needs_mut = idx < num_loop_carried_outputs
@@ -216,6 +214,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
             scope.scope(),
             node_position,
         );
+        subgraph_helper::release_outer_scope_inputs(&outer_scope_inputs, scope);
 
         // Update loop-carried variables after iteration
         // Skip self-assignments when body passes through a value unchanged (same name)
@@ -362,9 +361,6 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
 
                     // Update loop-carried variables and condition for next iteration
                     #update_vars
-
-                    // Update condition from body output for next iteration
-                    #update_cond
                     #iter_name += 1;
                 }
 
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index ddcf8b8..8dda84f 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -23,8 +23,6 @@ fn generate_scan_body_code(
         scope_ref_names,
         body_input_names,
         Some(&used_names),
-        scope,
-        node_position,
     );
 
     // Register subgraph scope
@@ -93,7 +91,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         for (idx, initial_arg) in initial_state_vars.iter().enumerate() {
             let var_name = &state_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
+            let init_value = scope.arg(initial_arg);
             init_stmts.extend(quote! {
                 let mut #var_name = #init_value;
             });
@@ -186,6 +184,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             scope.scope(),
             node_position,
         );
+        subgraph_helper::release_outer_scope_inputs(&outer_scope_inputs, scope);
 
         // Collect scan outputs and update state variables
         let mut update_stmts = quote! {};
@@ -197,6 +196,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 #collector.push(#body_out_name.clone());
             });
         }
+
         // Update state variables
         let updates: Vec<_> = state_var_names
             .iter()
@@ -211,7 +211,6 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             &state_var_names,
         ));
 
-
         // Finalize scan outputs: reverse if needed, then stack into tensors
         let mut finalize_stmts = quote! {};
         let final_scan_output_names: Vec<_> = (0..num_scan_outputs)
diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index ad2cefc..6091796 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -42,15 +42,14 @@ pub(super) fn collect_subgraph_referenced_names(subgraph: &onnx_ir::OnnxGraph) -
 /// - `exclude_names`: Names to exclude from binding generation (e.g., loop-provided variables)
 /// - `used_names`: Optional set of names actually used in this subgraph. If provided, only
 ///   bindings for names in this set will be generated (avoids unused variable warnings).
-/// - `scope`: The parent scope for accessing outer values
-/// - `node_position`: The position of the control flow node in the graph
+///
+/// The bindings are copies: the values stay available to the other branch, to the next
+/// iteration and to later nodes (see [`release_outer_scope_inputs`]).
 pub(super) fn generate_outer_scope_bindings(
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
     exclude_names: &HashSet<String>,
     used_names: Option<&HashSet<String>>,
-    scope: &mut Scope,
-    node_position: usize,
 ) -> TokenStream {
     let mut bindings = quote! {};
 
@@ -69,7 +68,7 @@ pub(super) fn generate_outer_scope_bindings(
 
         if let Some(outer_input) = outer_scope_inputs.get(idx) {
             let var_name = quote::format_ident!("{}", scope_ref_name);
-            let outer_var = scope.at_position(node_position).arg(outer_input);
+            let outer_var = arg_to_ident(outer_input);
 
             match &outer_input.ty {
                 ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
@@ -90,6 +89,18 @@ pub(super) fn generate_outer_scope_bindings(
     bindings
 }
 
+/// Account for the use of outer-scope values once the code of all subgraphs is generated.
+///
+/// A control flow node uses each of them once, in however many subgraphs it is bound.
+pub(super) fn release_outer_scope_inputs(
+    outer_scope_inputs: &[Argument],
+    scope: &mut ScopeAtPosition<'_>,
+) {
+    for input in outer_scope_inputs {
+        scope.arg(input);
+    }
+}
+
 /// Register subgraph inputs and build scope for generating node forward code.
 ///
 /// This registers all subgraph tensors in the scope so they can be properly
diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 5a285e5..81b582e 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -95,14 +95,10 @@ fn convert_nodes_impl(
                 let state = state_rc.borrow();
                 let mut scope_ref_names: Vec<String> = Vec::new();
                 for ref_name in outer_refs {
-                    // Skip references that are already in the node's inputs
-                    if node.inputs.iter().any(|i| i.name == ref_name) {
-                        log::debug!("Skipping '{}' - already in node inputs", ref_name);
-                        continue;
-                    }
-
                     // Create an argument for this outer-scope reference
                     // The type will be resolved from the parent graph
+                    // A value that is an input of the node as well is listed again: the
+                    // node may give that one away before its body refers to the value
                     let arg = state.init_in(&ref_name);
                     log::debug!(
                         "Adding outer-scope reference '{}' -> arg.name='{}' (type: {:?}) as input to {} node",
-- 
2.43.0


From dadd376506a98077d54e56c297fa312f3fe138b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:46 +0000
Subject: [PATCH 20/27] fix: onnx-ir: give each value an identifier of its own

Values whose names become equal once sanitized ('x.1' and 'x_1'), or equal to
the name the converter gives to the output of a node, were taken for one
another. Names that sanitize to a keyword or to nothing are renamed, too.
---
 crates/onnx-ir/src/lib.rs          |   1 +
 crates/onnx-ir/src/pipeline.rs     |   6 +-
 crates/onnx-ir/src/unique_names.rs | 113 +++++++++++++++++++++++++++++
 3 files changed, 119 insertions(+), 1 deletion(-)
 create mode 100644 crates/onnx-ir/src/unique_names.rs

diff --git a/crates/onnx-ir/src/lib.rs b/crates/onnx-ir/src/lib.rs
index a20fe02..2d1eff1 100644
--- a/crates/onnx-ir/src/lib.rs
+++ b/crates/onnx-ir/src/lib.rs
@@ -13,6 +13,7 @@ mod protos;
 mod registry;
 mod simplify;
 mod tensor_store;
+mod unique_names;
 
 // Public API - only expose essentials
 pub use ir::*;
diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 4480693..02832f8 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -250,7 +250,7 @@ impl OnnxGraphBuilder {
         // Get the base directory for external data resolution
         let base_path = source_path.and_then(|p| p.parent());
 
-        let model = decode_model(&buffer).map_err(|e| Error::InvalidFormat {
+        let mut model = decode_model(&buffer).map_err(|e| Error::InvalidFormat {
             path: path_str.clone(),
             error: e.to_string(),
         })?;
@@ -272,6 +272,10 @@ impl OnnxGraphBuilder {
             });
         }
 
+        if let Some(graph) = model.graph.as_mut() {
+            crate::unique_names::make_names_unique(graph);
+        }
+
         let graph = build_graph_with_options(&model, base_path, self.simplify)?;
 
         if let Some(path) = path_str {
diff --git a/crates/onnx-ir/src/unique_names.rs b/crates/onnx-ir/src/unique_names.rs
new file mode 100644
index 0000000..30598c7
--- /dev/null
+++ b/crates/onnx-ir/src/unique_names.rs
@@ -0,0 +1,113 @@
+//! Keeps the values of a model apart that would share a name.
+//!
+//! ONNX names can be any string, the names in the IR are identifiers (see [`sanitize_name`]).
+//! Values with different names, such as `x.1` and `x_1`, must not end up with the same
+//! identifier, and an identifier must be one that can name a variable.
+
+use std::collections::{HashMap, HashSet};
+
+use crate::proto_conversion::sanitize_name;
+use crate::protos::{AttributeProto, GraphProto, NodeProto};
+
+/// Rename the values of a graph (and of its nested graphs) that have no identifier of their own.
+///
+/// Most models are left as they are.
+pub(crate) fn make_names_unique(graph: &mut GraphProto) {
+    let mut names = Vec::new();
+    let mut seen = HashSet::new();
+    for_each_name(graph, &mut |name| {
+        if !name.is_empty() && seen.insert(name.clone()) {
+            names.push(name.clone());
+        }
+    });
+
+    let mut owners = HashMap::new();
+    let mut homeless = Vec::new();
+    for name in names {
+        let identifier = sanitize_name(&name);
+        if is_reserved(&identifier) || owners.contains_key(&identifier) {
+            homeless.push((name, identifier));
+        } else {
+            owners.insert(identifier, name);
+        }
+    }
+    if homeless.is_empty() {
+        return;
+    }
+
+    let mut renamed = HashMap::new();
+    for (name, identifier) in homeless {
+        let identifier = identifier.trim_matches('_');
+        let new_name = (1..)
+            .map(|n| format!("value_{identifier}_{n}"))
+            .map(|new_name| sanitize_name(&new_name))
+            .find(|new_name| !owners.contains_key(new_name) && !seen.contains(new_name))
+            .expect("there is always a free name");
+        log::debug!("Renaming value '{name}' to '{new_name}'");
+        owners.insert(new_name.clone(), name.clone());
+        renamed.insert(name, new_name);
+    }
+    for_each_name(graph, &mut |name| {
+        if let Some(new_name) = renamed.get(name) {
+            *name = new_name.clone();
+        }
+    });
+}
+
+/// Call a function on each place of the graph that names a value
+fn for_each_name(graph: &mut GraphProto, f: &mut dyn FnMut(&mut String)) {
+    for info in &mut graph.input {
+        f(&mut info.name);
+    }
+    for tensor in &mut graph.initializer {
+        f(&mut tensor.name);
+    }
+    for node in &mut graph.node {
+        for_each_name_of_node(node, f);
+    }
+    for info in &mut graph.output {
+        f(&mut info.name);
+    }
+    for info in &mut graph.value_info {
+        f(&mut info.name);
+    }
+}
+
+fn for_each_name_of_node(node: &mut NodeProto, f: &mut dyn FnMut(&mut String)) {
+    for input in &mut node.input {
+        f(input);
+    }
+    for AttributeProto { g, graphs, .. } in &mut node.attribute {
+        for graph in g.as_mut().into_iter().chain(graphs) {
+            for_each_name(graph, f);
+        }
+    }
+    for output in &mut node.output {
+        f(output);
+    }
+}
+
+/// If a variable can not have this name, or if it is like those given to the outputs of nodes
+fn is_reserved(identifier: &str) -> bool {
+    identifier.is_empty()
+        || identifier.chars().all(|c| c == '_')
+        || KEYWORDS.contains(&identifier)
+        || is_node_output(identifier)
+}
+
+/// If the name has the form `{node type}{number}_out{number}`
+fn is_node_output(identifier: &str) -> bool {
+    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
+    identifier
+        .rsplit_once("_out")
+        .is_some_and(|(node, index)| digits(index) && node.ends_with(|c: char| c.is_ascii_digit()))
+}
+
+/// The strict and reserved keywords of Rust that are in lower case
+const KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
-- 
2.43.0


From ec3ba40d3c8f747de52f5b4e3d4fcd4ee20921f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:46 +0000
Subject: [PATCH 21/27] fix: Loop and Scan: keep helper variables apart from
 the values of the model

A value called 'i' or 'seq_len' was hidden by the variable of the same name
around the body. Sanitized names never have two underscores in a row.
---
 crates/burn-onnx/src/burn/node/loop_node.rs |  2 +-
 crates/burn-onnx/src/burn/node/scan_node.rs | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 9d3d0d2..245b2ec 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -183,7 +183,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         if num_scan_outputs > 0 {
             for i in 0..num_scan_outputs {
                 let collector_name = syn::Ident::new(
-                    &format!("scan_collector_{}", i),
+                    &format!("__scan_collector_{}", i),
                     proc_macro2::Span::call_site(),
                 );
                 scan_collectors.push(collector_name.clone());
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index 8dda84f..6056d66 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -101,7 +101,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         let scan_output_collectors: Vec<_> = (0..num_scan_outputs)
             .map(|i| {
                 syn::Ident::new(
-                    &format!("scan_output_collector_{}", i),
+                    &format!("__scan_output_collector_{}", i),
                     proc_macro2::Span::call_site(),
                 )
             })
@@ -114,7 +114,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         }
 
         init_stmts.extend(quote! {
-            let seq_len = #seq_len_expr;
+            let __seq_len = #seq_len_expr;
         });
 
         // Extract scan input elements for current iteration
@@ -142,9 +142,9 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             let scan_axis = self.config.scan_input_axes.get(idx).copied().unwrap_or(0) as usize;
 
             let iter_expr = if reverse {
-                quote! { seq_len - i - 1 }
+                quote! { __seq_len - __scan_index - 1 }
             } else {
-                quote! { i }
+                quote! { __scan_index }
             };
 
             // Get rank from tensor type
@@ -216,7 +216,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         let final_scan_output_names: Vec<_> = (0..num_scan_outputs)
             .map(|i| {
                 syn::Ident::new(
-                    &format!("scan_output_{}", i),
+                    &format!("__scan_output_{}", i),
                     proc_macro2::Span::call_site(),
                 )
             })
@@ -269,7 +269,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 let #output_name = {
                     #init_stmts
 
-                    for i in 0..seq_len {
+                    for __scan_index in 0..__seq_len {
                         #slice_stmts
                         #body_code
                         #update_stmts
@@ -285,7 +285,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 let (#(#all_output_names),*) = {
                     #init_stmts
 
-                    for i in 0..seq_len {
+                    for __scan_index in 0..__seq_len {
                         #slice_stmts
                         #body_code
                         #update_stmts
-- 
2.43.0


From 0b9b12c10dca113ff1af062b666ee629b4003564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:49 +0000
Subject: [PATCH 22/27] fix: onnx-ir: use the declared type of a graph output
 whose name needs sanitizing

The graph outputs are kept under their sanitized names, but were looked up by the
name in the model, so that the declared type of an output such as 'a:0' was ignored.
---
 crates/onnx-ir/src/proto_conversion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 328491f..b81d679 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -596,8 +596,8 @@ pub fn convert_node_proto(node: &NodeProto, graph_data: &GraphState) -> RawNode
             // Sanitize the output name for Rust compatibility
             let mut arg = Argument::from_name(sanitize_name(output_name));
             // Try to get type from: 1) graph outputs, 2) value_info (intermediate values)
-            // Note: lookups use original ONNX names (unsanitized)
-            if let Some(graph_output_type) = graph_data.get_output_type(output_name) {
+            // Note: graph outputs have sanitized names, value_info the original ONNX names
+            if let Some(graph_output_type) = graph_data.get_output_type(&arg.name) {
                 arg.ty = graph_output_type.clone();
             } else if let Some(value_info_type) = graph_data.get_value_info_type(output_name) {
                 arg.ty = value_info_type.clone();
-- 
2.43.0


From 054dc994b421deada556d1712e4a3d6b50904c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:55 +0000
Subject: [PATCH 23/27] fix: onnx-ir: build the subgraphs of nested control
 flow once

A control flow node builds its subgraphs on every type inference iteration and
again when it is converted to its final form. Nested in a subgraph this happens
for each build of the outer one, so the time grew exponentially with the depth
(eight nested Ifs took 12 s). Keep the graph built for the same outer scope.
---
 crates/onnx-ir/src/ir/argument.rs            | 20 +++++++
 crates/onnx-ir/src/ir/attribute.rs           | 55 +++++++++++++++++++-
 crates/onnx-ir/src/phases/node_conversion.rs |  8 ++-
 crates/onnx-ir/src/proto_conversion.rs       |  2 +
 crates/onnx-ir/src/tensor_store.rs           |  6 +++
 5 files changed, 88 insertions(+), 3 deletions(-)

diff --git a/crates/onnx-ir/src/ir/argument.rs b/crates/onnx-ir/src/ir/argument.rs
index f657df9..934566f 100644
--- a/crates/onnx-ir/src/ir/argument.rs
+++ b/crates/onnx-ir/src/ir/argument.rs
@@ -128,6 +128,26 @@ impl Argument {
         self.ty = other_arg.ty.clone();
         self.value_source = other_arg.value_source;
     }
+
+    /// Whether a subgraph that refers to this value from an outer scope sees the same thing
+    /// in the other argument: the type and, for a constant, the value.
+    pub(crate) fn is_same_outer_value(&self, other: &Argument) -> bool {
+        if self.ty != other.ty || self.value_source != other.value_source {
+            return false;
+        }
+        match self.value_source {
+            // The subgraph knows these by the name it refers to them by
+            ValueSource::Dynamic | ValueSource::Optional => true,
+            ValueSource::Static(_) | ValueSource::Constant => {
+                self.name == other.name
+                    && match (&self.value_store, &other.value_store) {
+                        (Some(a), Some(b)) => a.is_same(b),
+                        (None, None) => true,
+                        _ => false,
+                    }
+            }
+        }
+    }
 }
 
 /// The type of an argument.
diff --git a/crates/onnx-ir/src/ir/attribute.rs b/crates/onnx-ir/src/ir/attribute.rs
index 2d06fe1..3f83700 100644
--- a/crates/onnx-ir/src/ir/attribute.rs
+++ b/crates/onnx-ir/src/ir/attribute.rs
@@ -3,8 +3,11 @@
 //! This module contains the AttributeValue enum which represents various types
 //! of attributes that can be attached to ONNX nodes.
 
+use std::cell::RefCell;
 use std::collections::HashMap;
+use std::fmt;
 use std::path::PathBuf;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use burn_tensor::TensorData;
@@ -48,6 +51,44 @@ pub struct DeferredGraph {
     pub name_registry: Option<crate::graph_state::NameRegistry>,
     /// Base path for resolving external tensor data (inherited from parent graph)
     pub base_path: Option<PathBuf>,
+    /// The subgraph as it was last built, for the next time it is asked for.
+    /// Only for nodes that are in a subgraph themselves.
+    pub built: Option<BuiltGraph>,
+}
+
+/// The last graph built from a [`DeferredGraph`], with the outer scope it was built for.
+///
+/// A control flow node asks for its subgraphs on every type inference iteration and again
+/// when it is converted to its final form, and so does each such node inside a subgraph.
+/// Without this, the time taken is exponential in the nesting depth.
+#[derive(Clone, Default)]
+pub struct BuiltGraph(Rc<RefCell<Option<(OuterScopeTypes, OnnxGraph)>>>);
+
+impl fmt::Debug for BuiltGraph {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("BuiltGraph")
+    }
+}
+
+impl BuiltGraph {
+    /// The graph, if it was built for this outer scope.
+    fn get(&self, outer_scope: &OuterScopeTypes) -> Option<OnnxGraph> {
+        let built = self.0.borrow();
+        let (scope, graph) = built.as_ref()?;
+
+        let same = scope.len() == outer_scope.len()
+            && scope.iter().all(|(name, arg)| {
+                outer_scope
+                    .get(name)
+                    .is_some_and(|other| arg.is_same_outer_value(other))
+            });
+
+        same.then(|| graph.clone())
+    }
+
+    fn set(&self, outer_scope: OuterScopeTypes, graph: &OnnxGraph) {
+        *self.0.borrow_mut() = Some((outer_scope, graph.clone()));
+    }
 }
 
 /// A map of outer-scope value names to their resolved arguments (including type and value)
@@ -81,8 +122,18 @@ impl DeferredGraph {
         &self,
         outer_scope: OuterScopeTypes,
     ) -> Result<OnnxGraph, crate::pipeline::Error> {
-        let builder = self.build_with_outer_scope(outer_scope)?;
-        Ok(builder.convert_to_graph(self.opset_version))
+        let Some(built) = &self.built else {
+            let builder = self.build_with_outer_scope(outer_scope)?;
+            return Ok(builder.convert_to_graph(self.opset_version));
+        };
+
+        if let Some(graph) = built.get(&outer_scope) {
+            return Ok(graph);
+        }
+        let builder = self.build_with_outer_scope(outer_scope.clone())?;
+        let graph = builder.convert_to_graph(self.opset_version);
+        built.set(outer_scope, &graph);
+        Ok(graph)
     }
 
     /// Build the subgraph from the deferred GraphProto without outer scope types.
diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 81b582e..bc0a0e5 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -162,7 +162,13 @@ fn convert_nodes_impl(
                 base_path.as_deref(),
             );
             // Merge graph attributes with existing attributes
-            for (key, value) in graph_attrs {
+            let nested = state_rc.borrow().name_registry().is_some();
+            for (key, mut value) in graph_attrs {
+                if let AttributeValue::DeferredGraph(deferred) = &mut value
+                    && nested
+                {
+                    deferred.built = Some(Default::default());
+                }
                 node.attrs.insert(key, value);
             }
         }
diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index b81d679..97d3ef3 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -845,6 +845,7 @@ pub fn convert_graph_attributes(
                             opset_version,
                             name_registry: Some(name_registry.clone()),
                             base_path: base_path.map(|p| p.to_path_buf()),
+                            built: None,
                         };
                         result.insert(attr.name.clone(), AttributeValue::DeferredGraph(deferred));
                     }
@@ -858,6 +859,7 @@ pub fn convert_graph_attributes(
                             opset_version,
                             name_registry: Some(name_registry.clone()),
                             base_path: base_path.map(|p| p.to_path_buf()),
+                            built: None,
                         })
                         .collect();
                     result.insert(
diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index fd5af24..fc0f404 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -301,6 +301,12 @@ impl ValueStore {
         }
     }
 
+    /// Whether both refer to the same storage
+    pub(crate) fn is_same(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.tensor_store, &other.tensor_store)
+            && Arc::ptr_eq(&self.constant_map, &other.constant_map)
+    }
+
     /// Get tensor data by ID, converting from lazy storage
     pub fn get_tensor_data(&self, id: DataId) -> Option<TensorData> {
         self.tensor_store.get(id)
-- 
2.43.0


From 501cdb5e6094a2350459d199da8c7bb2ff04c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:40 +0000
Subject: [PATCH 24/27] fix: onnx-ir: LayerNormalization: check the axis
 against the rank of the input

---
 crates/onnx-ir/src/node/layer_norm.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/node/layer_norm.rs b/crates/onnx-ir/src/node/layer_norm.rs
index 6a057c7..35e81ac 100644
--- a/crates/onnx-ir/src/node/layer_norm.rs
+++ b/crates/onnx-ir/src/node/layer_norm.rs
@@ -97,13 +97,11 @@ impl NodeProcessor for LayerNormProcessor {
         // (Y is required, Mean and InvStdDev are optional), but we only validate for 1
 
         // Validate axis attribute before extracting config
-        let weight_shape = node.inputs[1]
-            .value()
-            .ok_or_else(|| {
-                ProcessError::Custom("LayerNorm: weight tensor must be present".to_string())
-            })?
-            .shape
-            .to_vec();
+        if node.inputs[1].value().is_none() {
+            return Err(ProcessError::Custom(
+                "LayerNorm: weight tensor must be present".to_string(),
+            ));
+        }
 
         let mut axis = -1;
 
@@ -124,7 +122,7 @@ impl NodeProcessor for LayerNormProcessor {
         // TODO: Validate stash_type is 1 or unspecified - Spec only defines stash_type=1 (float), other values undefined - burn/crates/onnx-ir/src/node/layer_norm.rs:132
         // TODO: Validate axis is within valid range for input tensor rank - Out of bounds axis should be rejected - burn/crates/onnx-ir/src/node/layer_norm.rs:132
 
-        if axis != -1 && axis != weight_shape.len() as i64 - 1 {
+        if axis != -1 && axis != node.inputs[0].ty.rank() as i64 - 1 {
             return Err(ProcessError::Custom(
                 "LayerNorm: normalization is only supported on the last axis right now".to_string(),
             ));
-- 
2.43.0


From ce3eafc12c3040e0a6ba5fa167ef049f609beb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:40 +0000
Subject: [PATCH 25/27] fix: onnx-ir: Gemm without alpha or beta is a Linear as
 with their default values

---
 crates/onnx-ir/src/phases/node_conversion.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index bc0a0e5..d302c32 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -471,18 +471,14 @@ fn convert_gemm_to_linear(node: &mut RawNode) {
         return;
     }
 
-    let straight_linear = match (
-        node.attrs.get("alpha"),
-        node.attrs.get("beta"),
-        node.attrs.get("transB"),
-    ) {
-        (
-            Some(AttributeValue::Float32(alpha)),
-            Some(AttributeValue::Float32(beta)),
-            Some(AttributeValue::Int64(trans_b)),
-        ) => *alpha == 1.0 && *beta == 1.0 && *trans_b == 1,
-        _ => false,
+    // alpha and beta default to 1, transB to 0
+    let is_one = |name: &str| match node.attrs.get(name) {
+        Some(value) => matches!(value, AttributeValue::Float32(value) if *value == 1.0),
+        None => true,
     };
+    let straight_linear = is_one("alpha")
+        && is_one("beta")
+        && matches!(node.attrs.get("transB"), Some(AttributeValue::Int64(1)));
 
     // A Linear module owns its parameters: the weight has to be a constant matrix and the bias,
     // if any, a constant vector with one element per output feature (Gemm broadcasts C).
-- 
2.43.0


From 6b3313b25f4450805b4b0e92579deebe0ceee4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:41 +0000
Subject: [PATCH 26/27] fix: onnx-ir: a trailing input with an empty name is an
 omitted one

---
 crates/onnx-ir/src/proto_conversion.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 97d3ef3..5a2d5d8 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -587,7 +587,16 @@ pub fn convert_vec_attrs_proto(attrs: Vec<AttributeProto>) -> Attributes {
 pub fn convert_node_proto(node: &NodeProto, graph_data: &GraphState) -> RawNode {
     let name = sanitize_name(&node.name);
 
-    let inputs = node.input.iter().map(|x| graph_data.init_in(x)).collect();
+    // Trailing optional inputs may be omitted or given an empty name: both mean the same
+    let input_count = node
+        .input
+        .iter()
+        .rposition(|x| !x.is_empty())
+        .map_or(0, |last| last + 1);
+    let inputs = node.input[..input_count]
+        .iter()
+        .map(|x| graph_data.init_in(x))
+        .collect();
 
     let outputs = node
         .output
-- 
2.43.0


From 76e30799bc7d65fdc331463f8c903565f7e046d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:44 +0000
Subject: [PATCH 27/27] fix: onnx-ir: keep the store of outer constants when
 constants are lifted again

---
 crates/onnx-ir/src/phases/post_processing.rs | 24 +++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index bbadc7c..4f305f9 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -237,20 +237,22 @@ pub(crate) fn post_process(
         drop(state);
 
         // Re-attach value_store and lift constants
-        // For outer-scope Static arguments (constants converted from parent graph), preserve
+        // For outer-scope Static and Constant arguments (constants of a parent graph), preserve
         // their existing value_store since it contains the tensor data they reference.
         for node in &mut nodes {
             for arg in &mut node.inputs {
-                // Preserve value_store for Static arguments that already have a store containing their data
-                let should_preserve =
-                    if let crate::ir::ValueSource::Static(data_id) = arg.value_source {
-                        arg.value_store
-                            .as_ref()
-                            .map(|store| store.get_tensor_data(data_id).is_some())
-                            .unwrap_or(false)
-                    } else {
-                        false
-                    };
+                // Preserve value_store for arguments that already have a store containing their data
+                let should_preserve = match arg.value_source {
+                    crate::ir::ValueSource::Static(data_id) => arg
+                        .value_store
+                        .as_ref()
+                        .is_some_and(|store| store.get_tensor_data(data_id).is_some()),
+                    crate::ir::ValueSource::Constant => arg
+                        .value_store
+                        .as_ref()
+                        .is_some_and(|store| store.get_constant_data_id(&arg.name).is_some()),
+                    _ => false,
+                };
 
                 if !should_preserve {
                     arg.set_value_store(value_store.clone());
-- 
2.43.0

