From c232f9f84e1398f3d3297d7a6d26e74f8306659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 01/83] fix: index the linear units of a command by linear
 position, not by port

---
 tket/src/circuit/command.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..980e12d 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,13 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        // The units are indexed by the position of the port among the linear ports.
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
-- 
2.43.0


From 69d0f50b37687d092aaa43b66c22cffbd3c452a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 02/83] fix: never reuse linear unit ids when iterating over
 commands

---
 tket/src/circuit/command.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index 980e12d..a7845dc 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -253,6 +253,9 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// The next free [`LinearUnit`] id. Ids are never reused, even after their
+    /// unit has been consumed.
+    next_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -282,10 +285,11 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
+        let next_unit = wire_unit.len();
 
         let (region, region_node_map) = circ.hugr().region_portgraph(circ.parent());
         let node_count = region.node_count();
@@ -296,6 +300,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region_node_map,
             nodes,
             wire_unit,
+            next_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
             delayed_consts: HashSet::new(),
@@ -426,7 +431,8 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    let new_id = self.next_unit;
+                    self.next_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From 67bd5307351f2cbaeab8d306d3be00b3add7fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 03/83] fix: keep dependencies of commands that greedy
 commutation does not track

Operations other than known gates, and classical or state order
dependencies, were ignored: gates were moved past them, giving circuits
with a different behaviour or cycles, and operations without qubit inputs
made the pass panic.
---
 tket/src/passes/commutation.rs | 83 +++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..73f1765 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -26,6 +26,10 @@ struct ComCommand {
     // We'll need something more complex if `follow_linear_port` stops being a
     // direct map from input to output.
     inputs: Vec<CircuitUnit>,
+    /// The first slice that comes after all the commands this one depends on
+    /// through something other than its linear inputs (classical values or
+    /// state order edges).
+    first_slice: usize,
 }
 
 impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
@@ -33,6 +37,7 @@ impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
         ComCommand {
             node: com.node(),
             inputs: com.inputs().map(|(c, _, _)| c).collect(),
+            first_slice: 0,
         }
     }
 }
@@ -69,39 +74,60 @@ fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
 }
 
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
-    let mut slices = vec![];
-
-    let n_qbs = circ.qubit_count();
-    let mut qubit_free_slice = vec![0; n_qbs];
+    let hugr = circ.hugr();
+    let mut slices: Vec<Vec<Rc<ComCommand>>> = vec![];
+    let mut n_units = circ.linear_units().count();
+
+    // The first slice that comes after each of the nodes seen so far, and after
+    // everything they depend on.
+    let mut free_slices: HashMap<Node, usize> = HashMap::new();
+
+    for command in circ.commands() {
+        let node = command.node();
+
+        // Every dependency must stay in a previous slice. Only the ones carried
+        // by the linear inputs may be commuted through.
+        let mut free_slice = 0;
+        let mut first_slice = 0;
+        for port in hugr.node_inputs(node) {
+            let port_slice = hugr
+                .linked_outputs(node, port)
+                .filter_map(|(src, _)| free_slices.get(&src).copied())
+                .max()
+                .unwrap_or(0);
+            free_slice = free_slice.max(port_slice);
+            if !command.is_linear_port(port.into()) {
+                first_slice = first_slice.max(port_slice);
+            }
+        }
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
-        let free_slice = command
-            .qubits()
-            .map(|qb| qubit_free_slice[qb.index()])
-            .max()
-            .unwrap();
+        let command = ComCommand {
+            first_slice,
+            ..command.into()
+        };
+        let Some(max_unit) = command.qubits().map(|q| q.index()).max() else {
+            free_slices.insert(node, free_slice);
+            continue;
+        };
+        n_units = n_units.max(max_unit + 1);
+        free_slices.insert(node, free_slice + 1);
 
-        for q in command.qubits() {
-            qubit_free_slice[q.index()] = free_slice + 1;
-        }
         if free_slice >= slices.len() {
-            debug_assert!(free_slice == slices.len());
-            slices.push(vec![None; n_qbs]);
+            slices.resize_with(free_slice + 1, Vec::new);
         }
-        let command = Rc::new(command);
-        add_to_slice(&mut slices[free_slice], command);
+        slices[free_slice].push(Rc::new(command));
     }
 
     slices
-}
-
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
+        .into_iter()
+        .map(|commands| {
+            let mut slice = vec![None; n_units];
+            for command in commands {
+                add_to_slice(&mut slice, command);
+            }
+            slice
+        })
+        .collect()
 }
 
 /// Starting from starting_index, work back along slices to check for the
@@ -114,7 +140,7 @@ fn available_slice(
 ) -> Option<(usize, HashMap<Qb, Rc<ComCommand>>)> {
     let mut available = None;
     let mut prev_nodes: HashMap<Qb, Rc<ComCommand>> = HashMap::new();
-    for slice_index in (0..=starting_index).rev() {
+    for slice_index in (command.first_slice..=starting_index).rev() {
         // if all qubit slots are empty here the command can be moved here
         if command
             .qubits()
@@ -157,6 +183,9 @@ fn commutes_at_slice(
         let port = command.port_of_qb(q, Direction::Incoming)?;
 
         let op: TketOp = circ.hugr().get_optype(command.node()).cast()?;
+        // Operations without known commutation data are never moved nor moved
+        // past.
+        //
         // TODO: if not tket_op, might still have serialized commutation data we
         // can use.
         let pauli = commutation_on_port(&op.qubit_commutation(), port)?;
-- 
2.43.0


From 89832c1509e618d91ce158186f93609eea863b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 04/83] fix: count the operation that opens a chunk towards the
 chunk's cost

Every chunk but the first could exceed the requested bound by one
operation, and only the major component of lexicographic costs was compared.
---
 tket/src/passes/chunks.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..40e33b1 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -23,7 +23,7 @@ use rayon::slice::ParallelSliceMut;
 
 use crate::Circuit;
 
-use crate::circuit::cost::{CircuitCost, CostDelta};
+use crate::circuit::cost::CircuitCost;
 
 /// An identifier for the connection between chunks.
 ///
@@ -253,7 +253,7 @@ impl CircuitChunks {
     ///
     /// The circuit is split into chunks of at most `max_size` gates.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |_| 1)
     }
 
     /// Split a circuit into chunks.
@@ -284,9 +284,10 @@ impl CircuitChunks {
         let mut running_cost = C::default();
         let mut current_group = 0;
         for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
-            if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
+            let node_cost = op_cost(hugr.get_optype(node));
+            let new_cost = running_cost.clone() + node_cost.clone();
+            if new_cost > max_cost {
+                running_cost = node_cost;
                 current_group += 1;
             } else {
                 running_cost = new_cost;
-- 
2.43.0


From b72f90aa7b1fa3614ec45abe42a2dd1f18106706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 05/83] fix: reconnect every copy of a wire that enters a chunk
 more than once

---
 tket/src/passes/chunks.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 40e33b1..15bf034 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,11 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // Multiple inputs may be copies of the same original wire.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +181,11 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // Multiple inputs may be copies of the same original wire.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From e700a37682963952378512683115f9199a3c7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 06/83] fix: keep nested regions, constants and the name when
 splitting a circuit into chunks

Containers lost their contents, a constant separated from its load made
the split panic, and the reassembled function lost its name.
---
 tket/src/passes/chunks.rs | 178 +++++++++++++++++++++++++-------------
 1 file changed, 118 insertions(+), 60 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 15bf034..bab49de 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,18 +2,15 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::ops::{Index, IndexMut};
 
 use derive_more::From;
 use hugr::builder::{Container, FunctionBuilder};
 use hugr::hugr::hugrmut::HugrMut;
-use hugr::hugr::views::sibling_subgraph::TopoConvexChecker;
-use hugr::hugr::views::SiblingSubgraph;
 use hugr::hugr::{HugrError, NodeMetadataMap};
-use hugr::ops::handle::DataflowParentID;
-use hugr::ops::OpType;
+use hugr::ops::{OpTrait, OpType};
 use hugr::types::Signature;
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
@@ -48,47 +45,86 @@ pub struct Chunk {
 impl Chunk {
     /// Extract a chunk from a circuit.
     ///
-    /// The chunk is extracted from the input wires to the output wires.
-    pub(self) fn extract(
-        circ: &Circuit,
-        nodes: impl IntoIterator<Item = Node>,
-        checker: &TopoConvexChecker<'_, Hugr>,
-    ) -> Self {
-        let subgraph = SiblingSubgraph::try_from_nodes_with_checker(
-            nodes.into_iter().collect_vec(),
-            circ.hugr(),
-            checker,
-        )
-        .expect("Failed to define the chunk subgraph");
-        let extracted = subgraph.extract_subgraph(circ.hugr(), "Chunk").into();
-        // Transform the subgraph's input/output sets into wires that can be
-        // matched between different chunks.
-        //
-        // This requires finding the `Outgoing` port corresponding to each
-        // subgraph input.
-        let inputs = subgraph
-            .incoming_ports()
-            .iter()
-            .map(|wires| {
-                let (inp_node, inp_port) = wires[0];
-                let (out_node, out_port) = circ
-                    .hugr()
-                    .linked_outputs(inp_node, inp_port)
-                    .exactly_one()
-                    .ok()
-                    .unwrap();
-                Wire::new(out_node, out_port).into()
-            })
-            .collect();
-        let outputs = subgraph
-            .outgoing_ports()
-            .iter()
-            .map(|&(node, port)| Wire::new(node, port).into())
-            .collect();
+    /// The chunk is extracted from the input wires to the output wires. It
+    /// includes the regions nested in its nodes, and a copy of the constants
+    /// that they load.
+    pub(self) fn extract(circ: &Circuit, nodes: impl IntoIterator<Item = Node>) -> Self {
+        let hugr = circ.hugr();
+        let nodes = nodes.into_iter().collect_vec();
+        let node_set: HashSet<Node> = nodes.iter().copied().collect();
+
+        // The value wires that cross the boundary of the chunk.
+        let mut inputs: Vec<(Wire, Vec<(Node, IncomingPort)>)> = Vec::new();
+        let mut input_pos: HashMap<Wire, usize> = HashMap::new();
+        let mut input_types = Vec::new();
+        let mut outputs: Vec<(Node, OutgoingPort)> = Vec::new();
+        let mut output_types = Vec::new();
+        let mut constants: Vec<Node> = Vec::new();
+        for &node in &nodes {
+            let static_port = hugr.get_optype(node).static_input_port();
+            if let Some((source, _)) = static_port.and_then(|p| hugr.single_linked_output(node, p))
+            {
+                if hugr.get_optype(source).is_const() && !node_set.contains(&source) {
+                    constants.push(source);
+                }
+            }
+            for (port, typ) in hugr.in_value_types(node) {
+                let Some((source, source_port)) = hugr.single_linked_output(node, port) else {
+                    continue;
+                };
+                if node_set.contains(&source) {
+                    continue;
+                }
+                let wire = Wire::new(source, source_port);
+                let pos = *input_pos.entry(wire).or_insert_with(|| {
+                    inputs.push((wire, Vec::new()));
+                    input_types.push(typ);
+                    inputs.len() - 1
+                });
+                inputs[pos].1.push((node, port));
+            }
+            for (port, typ) in hugr.out_value_types(node) {
+                if hugr
+                    .linked_inputs(node, port)
+                    .any(|(target, _)| !node_set.contains(&target))
+                {
+                    outputs.push((node, port));
+                    output_types.push(typ);
+                }
+            }
+        }
+
+        let signature = Signature::new(input_types, output_types);
+        let mut builder = FunctionBuilder::new("Chunk", signature).unwrap();
+        // Take the unfinished Hugr from the builder, to avoid unnecessary
+        // validation checks that require connecting the inputs and outputs.
+        let mut extracted = mem::take(builder.hugr_mut());
+        let root = extracted.entrypoint();
+        let [inp, out] = extracted.get_io(root).unwrap();
+        constants.sort_unstable();
+        constants.dedup();
+        let node_map = copy_nodes(
+            &mut extracted,
+            root,
+            hugr,
+            nodes.into_iter().chain(constants),
+        );
+        for (inp_port, (_, targets)) in inputs.iter().enumerate() {
+            for (node, port) in targets {
+                extracted.connect(inp, inp_port, node_map[node], *port);
+            }
+        }
+        for (out_port, (node, port)) in outputs.iter().enumerate() {
+            extracted.connect(node_map[node], *port, out, out_port);
+        }
+
         Self {
-            circ: extracted,
-            inputs,
-            outputs,
+            circ: extracted.into(),
+            inputs: inputs.into_iter().map(|(wire, _)| wire.into()).collect(),
+            outputs: outputs
+                .into_iter()
+                .map(|(node, port)| Wire::new(node, port).into())
+                .collect(),
         }
     }
 
@@ -107,10 +143,11 @@ impl Chunk {
 
         let [chunk_inp, chunk_out] = chunk.get_io(chunk_root).unwrap();
         // Insert the chunk circuit into the original circuit.
-        let subgraph =
-            SiblingSubgraph::<Node>::try_new_dataflow_subgraph::<_, DataflowParentID>(&chunk)
-                .unwrap_or_else(|e| panic!("The chunk circuit is no longer a dataflow graph: {e}"));
-        let node_map = circ.insert_subgraph(root, &chunk, &subgraph);
+        let nodes = chunk
+            .children(chunk_root)
+            .filter(|&node| node != chunk_inp && node != chunk_out)
+            .collect_vec();
+        let node_map = copy_nodes(circ, root, chunk, nodes);
 
         let mut input_map = HashMap::with_capacity(self.inputs.len());
         let mut output_map = HashMap::with_capacity(self.outputs.len());
@@ -209,6 +246,26 @@ impl Chunk {
     }
 }
 
+/// Copy sibling nodes, including all their descendants, into another hugr.
+fn copy_nodes(
+    target: &mut impl HugrMut<Node = Node>,
+    root: Node,
+    source: &Hugr,
+    nodes: impl IntoIterator<Item = Node>,
+) -> HashMap<Node, Node> {
+    let nodes = nodes.into_iter().collect_vec();
+    target
+        .insert_view_forest(
+            source,
+            nodes.iter().flat_map(|&node| source.descendants(node)),
+            nodes.iter().map(|&node| (node, root)),
+        )
+        .expect("The nodes are distinct siblings")
+        .node_map
+        .into_iter()
+        .collect()
+}
+
 /// A map from the original input/output [`ChunkConnection`]s to an inserted chunk's inputs and outputs.
 #[derive(Debug, Clone)]
 struct ChunkInsertResult {
@@ -240,6 +297,9 @@ enum ConnectionTarget {
 /// [`CircuitChunks::reassemble`].
 #[derive(Debug, Clone)]
 pub struct CircuitChunks {
+    /// The original circuit's name.
+    name: String,
+
     /// The original circuit's signature.
     signature: Signature,
 
@@ -288,10 +348,14 @@ impl CircuitChunks {
             .collect();
 
         let mut chunks = Vec::new();
-        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let mut running_cost = C::default();
         let mut current_group = 0;
-        for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
+        // Constants are copied along with the commands that load them.
+        let nodes = circ
+            .commands()
+            .map(|cmd| cmd.node())
+            .filter(|&node| !hugr.get_optype(node).is_const());
+        for (_, commands) in &nodes.chunk_by(|&node| {
             let node_cost = op_cost(hugr.get_optype(node));
             let new_cost = running_cost.clone() + node_cost.clone();
             if new_cost > max_cost {
@@ -302,9 +366,10 @@ impl CircuitChunks {
             }
             current_group
         }) {
-            chunks.push(Chunk::extract(circ, commands, &convex_checker));
+            chunks.push(Chunk::extract(circ, commands));
         }
         Self {
+            name: circ.name().unwrap_or_default().to_string(),
             signature: signature.into_owned(),
             root_meta: Some(root_meta),
             input_connections,
@@ -315,14 +380,7 @@ impl CircuitChunks {
 
     /// Reassemble the chunks into a circuit.
     pub fn reassemble(self) -> Result<Circuit, HugrError> {
-        let name = self
-            .root_meta
-            .as_ref()
-            .and_then(|map| map.get("name"))
-            .and_then(|s| s.as_str())
-            .unwrap_or("");
-
-        let mut builder = FunctionBuilder::new(name, self.signature).unwrap();
+        let mut builder = FunctionBuilder::new(self.name, self.signature).unwrap();
         // Take the unfinished Hugr from the builder, to avoid unnecessary
         // validation checks that require connecting the inputs an outputs.
         let mut reassembled = mem::take(builder.hugr_mut());
-- 
2.43.0


From 3d6672a93217f85d64c5c0bf6a3a8262a237cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 07/83] fix: keep the program's functions when constant folding
 in QSystemPass

---
 tket-qsystem/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..e211dfe 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -20,8 +20,10 @@ use hugr::{
         RemoveDeadFuncsPass,
     },
     hugr::{hugrmut::HugrMut, HugrError},
-    Hugr, HugrView, Node,
+    ops::Value,
+    Hugr, HugrView, IncomingPort, Node,
 };
+use itertools::Itertools as _;
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
 use tket::TketOp;
@@ -131,7 +133,20 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            // The root is the module, so the functions have to be marked as
+            // entry points: otherwise nothing is known to need them and they
+            // are removed, and their inputs are taken to be unreachable.
+            let funcs = hugr
+                .children(hugr.module_root())
+                .filter(|&n| hugr.get_optype(n).is_func_defn())
+                .collect_vec();
+            let no_inputs: [(IncomingPort, Value); 0] = [];
+            funcs
+                .into_iter()
+                .fold(self.constant_fold(), |pass, func| {
+                    pass.with_inputs(func, no_inputs.clone())
+                })
+                .run(hugr)?;
         }
         if self.force_order {
             self.force_order(hugr)?;
-- 
2.43.0


From 4e2cc8885eacb0b7a1bba699a621585eca41ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 08/83] fix: replace tket.bool in constant borrow arrays

---
 tket-qsystem/src/replace_bools.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tket-qsystem/src/replace_bools.rs b/tket-qsystem/src/replace_bools.rs
index 0187a3c..0da277f 100644
--- a/tket-qsystem/src/replace_bools.rs
+++ b/tket-qsystem/src/replace_bools.rs
@@ -3,6 +3,7 @@
 mod static_array;
 
 use derive_more::{Display, Error, From};
+use hugr::algorithms::replace_types::handlers::generic_array_const;
 use hugr::algorithms::replace_types::{NodeTemplate, ReplaceTypesError, ReplacementOptions};
 use hugr::algorithms::{
     ensure_no_nonlocal_edges, non_local::FindNonLocalEdgesError, ComposablePass, ReplaceTypes,
@@ -19,7 +20,9 @@ use hugr::std_extensions::arithmetic::{
 };
 use hugr::std_extensions::collections::{
     array::{self, array_type, GenericArrayOpDef, ARRAY_CLONE_OP_ID, ARRAY_DISCARD_OP_ID},
-    borrow_array::{self, borrow_array_type, BArrayUnsafeOpDef, BorrowArray},
+    borrow_array::{
+        self, borrow_array_type, borrow_array_type_def, BArrayUnsafeOpDef, BorrowArray,
+    },
 };
 use hugr::std_extensions::logic::LogicOp;
 use hugr::types::{SumType, Term, Type};
@@ -335,6 +338,9 @@ fn lowerer() -> ReplaceTypes {
         },
     );
 
+    // `ReplaceTypes` handles the other kinds of constant arrays by default.
+    lw.replace_consts_parametrized(borrow_array_type_def(), generic_array_const::<BorrowArray>);
+
     // Replace all tket.bool ops.
     let read_op = BoolOp::read.to_extension_op().unwrap();
     lw.replace_op(&read_op, read_op_dest());
-- 
2.43.0


From c73978ca8b04c337caffc2237ddf3270b596f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 09/83] fix: unpack arrays of empty containers and tuples with
 optional qubits in barriers

---
 tket/src/passes/unpack_container.rs | 63 +++++++++++++++++++----------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..a608d33 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -259,7 +259,7 @@ impl UnpackContainerBuilder {
 
             let result: Vec<_> = elems
                 .into_iter()
-                .map(|wire| self.unpack_container(func_b, elem_ty, wire))
+                .map(|wire| self.unpack_array_elem(func_b, elem_ty, wire))
                 .collect::<Result<Vec<_>, _>>()?
                 .concat();
             Ok(result)
@@ -271,6 +271,38 @@ impl UnpackContainerBuilder {
             .collect())
     }
 
+    /// Unpack an array element.
+    ///
+    /// Options are only unwrapped when they are the elements of an array, see
+    /// [`TypeUnpacker`].
+    fn unpack_array_elem(
+        &self,
+        builder: &mut impl Dataflow,
+        elem_ty: &Type,
+        wire: Wire,
+    ) -> Result<Vec<Wire>, BuildError> {
+        let target_ty = self.type_analyzer.element_type();
+        if is_opt_of(elem_ty, target_ty) {
+            return Ok(vec![self.unpack_option(builder, wire, target_ty)?]);
+        }
+        self.unpack_container(builder, elem_ty, wire)
+    }
+
+    /// Repack an array element. Inverse of `unpack_array_elem`.
+    fn repack_array_elem(
+        &self,
+        builder: &mut impl Dataflow,
+        elem_ty: &Type,
+        unpacked_wires: Vec<Wire>,
+    ) -> Result<Wire, BuildError> {
+        let target_ty = self.type_analyzer.element_type();
+        if is_opt_of(elem_ty, target_ty) {
+            debug_assert!(unpacked_wires.len() == 1);
+            return self.repack_option(builder, unpacked_wires[0], target_ty);
+        }
+        self.repack_container(builder, elem_ty, unpacked_wires)
+    }
+
     /// Helper function for array arguments
     fn array_args<AK: ArrayKind>(&self, size: u64, elem_ty: &Type) -> Option<[TypeArg; 3]> {
         let row = self
@@ -308,12 +340,14 @@ impl UnpackContainerBuilder {
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
             let input = func_b.input();
-            // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let mut wires = input.outputs();
+            // Elements may unpack to no wires at all, so count the elements
+            // rather than the wires.
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
+                    self.repack_array_elem(func_b, elem_ty, elem_wires)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
@@ -456,15 +490,6 @@ impl UnpackContainerBuilder {
             return Ok(vec![container_wire]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, &hugr::extension::prelude::qb_t()) {
-            return Ok(vec![self.unpack_option(
-                builder,
-                container_wire,
-                elem_ty,
-            )?]);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $unpack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
@@ -507,12 +532,6 @@ impl UnpackContainerBuilder {
             return Ok(unpacked_wires[0]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, elem_ty) {
-            debug_assert!(unpacked_wires.len() == 1);
-            return self.repack_option(builder, unpacked_wires[0], elem_ty);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $repack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
-- 
2.43.0


From 57f83e5216af25d4abaa23b5852d3e3afc75d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 10/83] fix: rewrite tuple packs with unused values, several
 uses or order edges

---
 tket/src/passes/tuple_unpack.rs | 78 ++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 31 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..cfae127 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{Direction, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -69,9 +69,15 @@ fn make_rewrite<T: HugrView<Node = Node>>(
         return None;
     }
 
+    // Operations with order edges are kept, since the rewrite would drop the edges.
+    if has_order_edges(circ.hugr(), tuple_node) {
+        return None;
+    }
+
     let unpack_nodes = links
         .iter()
         .filter(|&&neigh| is_unpack_tuple(circ.hugr().get_optype(neigh)))
+        .filter(|&&neigh| !has_order_edges(circ.hugr(), neigh))
         .copied()
         .collect_vec();
 
@@ -80,63 +86,73 @@ fn make_rewrite<T: HugrView<Node = Node>>(
     }
 
     // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
+    let has_other_links = links.len() > unpack_nodes.len();
     Some(remove_pack_unpack(
         circ,
         &tuple_types,
         tuple_node,
         unpack_nodes,
-        num_other_outputs,
+        has_other_links,
     ))
 }
 
+/// Returns true if the node has any order edge.
+fn has_order_edges(hugr: &impl HugrView<Node = Node>, node: Node) -> bool {
+    let optype = hugr.get_optype(node);
+    [Direction::Incoming, Direction::Outgoing]
+        .into_iter()
+        .filter_map(|dir| optype.other_port(dir))
+        .any(|port| hugr.is_linked(node, port))
+}
+
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// keeping the tuple if it has any other use.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-    num_other_outputs: usize,
+    has_other_links: bool,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
+    let hugr = circ.hugr();
+
+    // The boundary of the subgraph. Outputs that are not used have no place in it.
+    let incoming = (0..tuple_types.len())
+        .map(|i| vec![(pack_node, IncomingPort::from(i))])
+        .collect_vec();
+    let unpacked = unpack_nodes
+        .iter()
+        .flat_map(|&node| (0..tuple_types.len()).map(move |i| (node, OutgoingPort::from(i))))
+        .filter(|&(node, port)| hugr.is_linked(node, port))
+        .collect_vec();
+    let mut outgoing = unpacked.clone();
+    if has_other_links {
+        outgoing.push((pack_node, OutgoingPort::from(0)));
+    }
 
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
-    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
-    let subcirc_signature = subgraph.signature(circ.hugr());
-
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
+    // The only input of the unpack operations is the tuple, so the nodes are always convex.
+    let subgraph = SiblingSubgraph::new_unchecked(incoming, outgoing, vec![], nodes);
+    let subcirc_signature = subgraph.signature(hugr);
 
     let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
 
     // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
+    let inputs = replacement.input_wires().collect_vec();
+    let mut outputs = unpacked
+        .iter()
+        .map(|(_, port)| inputs[port.index()])
+        .collect_vec();
 
     // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
+    if has_other_links {
         let op = MakeTuple::new(tuple_types.to_vec().into());
         let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
+            .add_dataflow_op(op, inputs)
             .unwrap()
             .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
+        outputs.push(tuple);
     }
 
     let replacement = replacement
@@ -146,7 +162,7 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
         });
 
     subgraph
-        .create_simple_replacement(circ.hugr(), replacement)
+        .create_simple_replacement(hugr, replacement)
         .unwrap_or_else(|e| {
             panic!("Failed to create rewrite for removing tuple pack/unpack operations. {e}")
         })
-- 
2.43.0


From fd8da84012b5b4c770ec000fc0eaa96e8c42351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 11/83] fix: do not panic on borrow array indices that are not
 known constants

---
 tket/src/passes/borrow_squash.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0f770dc..c7a5b61 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -357,7 +357,8 @@ fn find_const<H: HugrView>(hugr: &H, n: H::Node, inp: IncomingPort) -> Option<u6
             return Some(c.value_u());
         }
     }
-    panic!("Unexpected index {:?}", const_op.value)
+    // Some other constant, e.g. an external symbol: the index is not known here.
+    None
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1ea6f46a55a70ee793ae578942a2a432f200f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 12/83] fix: keep order edges around elided borrow array
 operations

---
 tket/src/passes/borrow_squash.rs | 37 +++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index c7a5b61..a44507c 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -9,7 +9,7 @@ use hugr::ops::{OpTag, OpTrait, Value};
 use hugr::std_extensions::arithmetic::int_types::ConstInt;
 use hugr::std_extensions::collections::borrow_array::{BArrayUnsafeOpDef, BORROW_ARRAY_TYPENAME};
 use hugr::types::{EdgeKind, Type};
-use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Wire};
+use hugr::{Direction, HugrView, IncomingPort, Node, OutgoingPort, Wire};
 
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet, VecDeque};
@@ -258,6 +258,7 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     let mut elided: Vec<_> = rb_elisions
         .into_iter()
         .map(|(ret, bor)| {
+            bypass_order_edges(hugr, ret.0, bor.0);
             // Pass Return-ed value directly through to users of Borrow-ed value
             let src = hugr.single_linked_output(ret.0, ret.1).expect("input");
             for tgt in hugr.linked_inputs(bor.0, bor.1).collect::<Vec<_>>() {
@@ -283,6 +284,40 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     elided
 }
 
+/// Add order edges that keep whatever was ordered by way of order edges of
+/// the return node `ret` and the borrow node `bor` that follows it.
+fn bypass_order_edges<H: HugrMut<Node = Node>>(hugr: &mut H, ret: Node, bor: Node) {
+    let parent = hugr.get_parent(ret);
+    // Neighbours in the same region, and whether the link is an order edge.
+    let neighbours = |hugr: &H, node: Node, dir: Direction| {
+        let order_port = hugr.get_optype(node).other_port(dir);
+        hugr.node_ports(node, dir)
+            .flat_map(|p| {
+                hugr.linked_ports(node, p)
+                    .map(move |(n, _)| (n, order_port == Some(p)))
+            })
+            .filter(|&(n, _)| n != ret && n != bor && hugr.get_parent(n) == parent)
+            .collect::<Vec<_>>()
+    };
+    for (first, last) in [(ret, ret), (ret, bor), (bor, bor)] {
+        for (pred, pred_order) in neighbours(hugr, first, Direction::Incoming) {
+            for (succ, succ_order) in neighbours(hugr, last, Direction::Outgoing) {
+                if !pred_order && !succ_order {
+                    continue;
+                }
+                let out = hugr.get_optype(pred).other_output_port();
+                let inp = hugr.get_optype(succ).other_input_port();
+                let (Some(out), Some(inp)) = (out, inp) else {
+                    continue;
+                };
+                if !hugr.linked_inputs(pred, out).any(|(n, _)| n == succ) {
+                    hugr.connect(pred, out, succ, inp);
+                }
+            }
+        }
+    }
+}
+
 fn next_array_op(
     hugr: &impl HugrView<Node = Node>,
     candidates: &mut impl Extend<Wire>,
-- 
2.43.0


From 900aa1295672ccf0c95ba729734bd20b73c75afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 13/83] fix: remove an import that splitting circuits no longer
 needs

---
 tket/src/passes/chunks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index bab49de..55d31c9 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -10,7 +10,7 @@ use derive_more::From;
 use hugr::builder::{Container, FunctionBuilder};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::hugr::{HugrError, NodeMetadataMap};
-use hugr::ops::{OpTrait, OpType};
+use hugr::ops::OpType;
 use hugr::types::Signature;
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
-- 
2.43.0


From 4965a6013fa666018b9d10e85919ade2e659af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 14/83] fix: controlled Z and CZ with the right relative phase

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..813f76e 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // CZ(c,t) = H(t); CX(c,t); H(t)
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From 1815bc418eb028645f3b7a04efba6373140a4f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 15/83] fix: keep the order of the controls of a controlled
 Toffoli

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 813f76e..72e7836 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -454,7 +454,8 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    // The controls come off the stack in reverse order.
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From bd74c9f9ffcf4d8776aea4b7578460d758308de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 16/83] fix: order the control arrays of stacked control
 modifiers from the outermost

---
 tket/src/modifier/modifier_resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..5fd07ae 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,7 +704,8 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            // The controls of the outermost modifier come first.
+            for ctrls in self.modifiers.accum_ctrl.iter().rev() {
                 let n = *ctrls as u64;
                 input.to_mut().insert(0, array_type(n, qb_t()));
                 output.to_mut().insert(0, array_type(n, qb_t()));
-- 
2.43.0


From 9d9bdf4ae3fbe0b562b5e5a39812ddc2d8ea5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 17/83] fix: wire the reversed quantum ports of nodes that also
 have classical ports

---
 tket/src/modifier/modifier_resolver.rs        | 111 +++++++-----------
 .../modifier/modifier_resolver/call_modify.rs |   2 +-
 .../modifier/modifier_resolver/dfg_modify.rs  |   2 +-
 3 files changed, 42 insertions(+), 73 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 5fd07ae..3cff32c 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -839,82 +839,51 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         (old_in, old_out): (N, N),
         (new_in, new_out): (Node, Node),
-        (mut inputs, mut outputs): (
+        (inputs, outputs): (
             impl Iterator<Item = &'a Type>,
             impl Iterator<Item = &'a Type>,
         ),
         (input_offset, output_offset, new_offset): (usize, usize, usize),
     ) -> Result<(), ModifierResolverErrors<N>> {
-        let mut old_in_wire = (old_in, IncomingPort::from(input_offset)).into();
-        let mut old_out_wire = (old_out, OutgoingPort::from(output_offset)).into();
-        let mut new_in_wire = (new_in, IncomingPort::from(input_offset + new_offset)).into();
-        let mut new_out_wire = (new_out, OutgoingPort::from(output_offset + new_offset)).into();
-        let mut in_ty = inputs.next();
-        let mut out_ty = outputs.next();
-
-        loop {
-            // Wire inputs until the first quantum type
-            while let Some(ty) = in_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_in_wire, new_in_wire)?;
-                old_in_wire = old_in_wire.shift(1);
-                new_in_wire = new_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-
-            // Wire outputs until the first quantum type
-            while let Some(ty) = out_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_out_wire, new_out_wire)?;
-                old_out_wire = old_out_wire.shift(1);
-                new_out_wire = new_out_wire.shift(1);
-                out_ty = outputs.next();
-            }
-
-            // If both are quantum types, wire them in the opposite direction until the next non-quantum type
-            while let Some(ty) = in_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_in = if !self.modifiers.dagger {
-                    let new_in = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_in
-                } else {
-                    let new_in = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_in
-                };
-                self.map_insert(old_in_wire, new_in)?;
-                old_in_wire = old_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-            while let Some(ty) = out_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_out = if !self.modifiers.dagger {
-                    let new_out = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_out
-                } else {
-                    let new_out = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_out
-                };
-                self.map_insert(old_out_wire, new_out)?;
-                old_out_wire = old_out_wire.shift(1);
-                out_ty = outputs.next();
-            }
+        let is_quantum = |ty: &Type| self.qubit_finder.contains_element_type(ty);
+        let in_quantum = inputs.map(is_quantum).collect_vec();
+        let out_quantum = outputs.map(is_quantum).collect_vec();
+        // Positions of the quantum ports: the k-th quantum input is the reverse of
+        // the k-th quantum output, wherever classical ports are placed between them.
+        let quantum_ins = in_quantum.iter().positions(|q| *q).collect_vec();
+        let quantum_outs = out_quantum.iter().positions(|q| *q).collect_vec();
+        if self.modifiers.dagger && quantum_ins.len() != quantum_outs.len() {
+            return Err(ModifierResolverErrors::unreachable(format!(
+                "Cannot take the dagger of a node with {} quantum inputs and {} quantum outputs",
+                quantum_ins.len(),
+                quantum_outs.len()
+            )));
+        }
 
-            // Break if ended
-            if in_ty.is_none() && out_ty.is_none() {
-                break;
-            }
+        let old_in_wire = |i| (old_in, IncomingPort::from(input_offset + i)).into();
+        let old_out_wire = |i| (old_out, OutgoingPort::from(output_offset + i)).into();
+        let new_in_wire = |i| (new_in, IncomingPort::from(input_offset + new_offset + i)).into();
+        let new_out_wire = |i| (new_out, OutgoingPort::from(output_offset + new_offset + i)).into();
+
+        let mut quantum = 0;
+        for (i, is_quantum) in in_quantum.iter().enumerate() {
+            let new_wire = if *is_quantum && self.modifiers.dagger {
+                quantum += 1;
+                new_out_wire(quantum_outs[quantum - 1])
+            } else {
+                new_in_wire(i)
+            };
+            self.map_insert(old_in_wire(i), new_wire)?;
+        }
+        let mut quantum = 0;
+        for (i, is_quantum) in out_quantum.iter().enumerate() {
+            let new_wire = if *is_quantum && self.modifiers.dagger {
+                quantum += 1;
+                new_in_wire(quantum_ins[quantum - 1])
+            } else {
+                new_out_wire(i)
+            };
+            self.map_insert(old_out_wire(i), new_wire)?;
         }
 
         Ok(())
@@ -1049,7 +1018,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..9df664c 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
+        let signature = call.signature();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..ba4a1ab 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -456,7 +456,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From 6550c08f2ba8288c6139b02aa04f36cbf26a072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 18/83] fix: call the original function from its controlled
 wrapper

---
 .../modifier/modifier_resolver/dfg_modify.rs  | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index ba4a1ab..9e0967e 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -376,33 +376,32 @@ impl<N: HugrNode> ModifierResolver<N> {
             )));
         };
 
-        let mut poly_sig = fn_defn.signature().clone();
-        self.modify_signature(poly_sig.body_mut(), false);
-        let instantiate = poly_sig
-            .instantiate(type_args)
+        let poly_sig = fn_defn.signature().clone();
+        let call = Call::try_new(poly_sig, type_args.to_owned())
             .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
+        let call_port = call.called_function_port();
+        let call_sig = call.signature().into_owned();
+        let mut wrapper_sig = call_sig.clone();
+        self.modify_signature(&mut wrapper_sig, false);
 
         let offset = self.modifiers.accum_ctrl.len();
 
         // make a wrapper function with a single Call node
         let mut builder =
-            FunctionBuilder::new(format!("__modified__{}", fn_defn.func_name()), instantiate)?;
+            FunctionBuilder::new(format!("__modified__{}", fn_defn.func_name()), wrapper_sig)?;
         let [in_node, out_node] = builder.io();
-        let call = Call::try_new(poly_sig, type_args.to_owned())
-            .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
-        let call_port = call.called_function_port();
         let call_node = builder.add_child_node(call);
 
         // connect wires
         for i in 0..offset {
             builder.hugr_mut().connect(in_node, i, out_node, i);
         }
-        for i in 0..builder.hugr().num_inputs(call_node) {
+        for i in 0..call_sig.input_count() {
             builder
                 .hugr_mut()
                 .connect(in_node, i + offset, call_node, i);
         }
-        for i in 0..builder.hugr().num_outputs(call_node) {
+        for i in 0..call_sig.output_count() {
             builder
                 .hugr_mut()
                 .connect(call_node, i, out_node, i + offset);
-- 
2.43.0


From 274cee157a779772d8115eea275d142f0bed8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 19/83] fix: report loops and array operations without an
 adjoint as errors

---
 tket/src/modifier/modifier_resolver/array_modify.rs | 7 ++++++-
 tket/src/modifier/modifier_resolver/dfg_modify.rs   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/array_modify.rs b/tket/src/modifier/modifier_resolver/array_modify.rs
index 69b70d0..950cf5c 100644
--- a/tket/src/modifier/modifier_resolver/array_modify.rs
+++ b/tket/src/modifier/modifier_resolver/array_modify.rs
@@ -74,7 +74,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 swap => swap,
                 new_array => unpack,
                 unpack => new_array,
-                _ => unimplemented!("Dagger for {op_def:?} is not implemented"),
+                _ => {
+                    return Err(ModifierResolverErrors::Unimplemented(
+                        crate::extension::modifier::Modifier::DaggerModifier,
+                        op.into(),
+                    ))
+                }
             };
             let new_op = new_op_def.to_concrete(op.elem_ty, op.size);
             let node = new_dfg.add_child_node(new_op);
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 9e0967e..78972eb 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -485,7 +485,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         // TODO: Handle the case when TailLoop is generated from `Power` modifier.
         // Currently, it is not implemented.
         if self.modifiers.dagger {
-            unimplemented!("Dagger for TailLoop is not supported yet.");
+            let optype = h.get_optype(n);
+            return Err(ModifierResolverErrors::unresolvable(
+                n,
+                "Dagger for TailLoop is not supported yet.".to_string(),
+                optype.clone(),
+            ));
         }
 
         // Build a new TailLoop with modified body.
-- 
2.43.0


From 7fadd52327ea9bcfe95192299f2abf2cd7c01628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 20/83] fix: put the controls of a controlled loop where they
 are wired

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 78972eb..2c53db4 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -494,11 +494,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let control_types: TypeRow = vec![qb_t(); self.control_num()].into();
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
-            tail_loop
-                .rest
-                .extend(iter::repeat_n(&qb_t(), self.control_num())),
+            control_types.extend(tail_loop.rest.iter()),
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-- 
2.43.0


From e375d5234c80961c38c54542187957666a57965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 21/83] fix: keep every call of a modified function body, also
 beside nested regions

---
 tket/src/modifier/modifier_resolver.rs        | 13 +++++---
 .../modifier/modifier_resolver/call_modify.rs |  6 ++--
 .../modifier/modifier_resolver/dfg_modify.rs  | 32 ++++++++++++-------
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 3cff32c..fde9837 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -313,8 +313,10 @@ pub struct ModifierResolver<N = Node> {
     /// The worklist of nodes to be processed.
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
-    /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    /// Static edges to be added after insertion of subgraph,
+    /// from functions in the original graph to nodes of the graph being built.
+    /// A function may be called many times.
+    call_map: Vec<(N, Node, IncomingPort)>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -333,7 +335,7 @@ impl<N> ModifierResolver<N> {
             corresp_map: HashMap::default(),
             controls: Vec::default(),
             worklist: VecDeque::default(),
-            call_map: HashMap::default(),
+            call_map: Vec::default(),
             qubit_finder: TypeUnpacker::for_qubits(),
         }
     }
@@ -450,7 +452,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut Vec<(N, Node, IncomingPort)> {
         &mut self.call_map
     }
 
@@ -1001,13 +1003,14 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         let mut signature = cfg.signature.clone();
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 9df664c..de0bfd5 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .push((callee.0, new, call.called_function_port()));
             return Ok(());
         };
 
@@ -48,7 +48,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .push((new_callee, new_call_node, new_call_fn_port));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +202,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .push((modified_fn, new_load, IncomingPort::from(0)));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2c53db4..e39c7a5 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -343,7 +343,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let call_map = mem::replace(self.call_map(), old_call_map);
         let insertion_result = h.insert_from_view(h.module_root(), new_fn.hugr());
         let new_call_map = update_call_map(&call_map, &insertion_result.node_map);
-        for (old_in, (new_n, new_port)) in new_call_map.into_iter() {
+        for (old_in, new_n, new_port) in new_call_map.into_iter() {
             h.connect(old_in, 0, new_n, new_port);
         }
 
@@ -416,16 +416,21 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    ///
+    /// The call map holds the calls made in the sub DFG, `outer_calls` those made
+    /// in the parent so far.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        outer_calls: Vec<(N, Node, IncomingPort)>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
         let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        *self.call_map() = outer_calls;
+        self.call_map().extend(new_call_map);
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -440,9 +445,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = dfg.signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut builder = DFGBuilder::new(signature.clone()).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -494,6 +500,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let outer_calls = mem::take(self.call_map());
         let control_types: TypeRow = vec![qb_t(); self.control_num()].into();
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
@@ -501,7 +508,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -544,6 +551,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let offset = self.control_num();
 
         // Build a new Conditional with modified body.
+        let outer_calls = mem::take(self.call_map());
         let control_types: TypeRow = iter::repeat_n(qb_t(), offset).collect::<Vec<_>>().into();
         let mut builder = ConditionalBuilder::new(
             conditional.sum_rows.clone(),
@@ -601,7 +609,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -626,16 +634,16 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 }
 
-/// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+/// Composition of a call map with a map of the called nodes.
+fn update_call_map<A: Clone, B, C: Clone, D: Clone>(
+    f: &[(A, B, C)],
+    g: &HashMap<B, D>,
+) -> Vec<(A, D, C)>
 where
-    A: Clone + Eq + std::hash::Hash,
-    B: Clone + Eq + std::hash::Hash,
-    C: Clone,
-    D: Clone,
+    B: Eq + std::hash::Hash,
 {
     f.iter()
-        .filter_map(|(a, (b, c))| g.get(b).map(|d| (a.clone(), (d.clone(), c.clone()))))
+        .filter_map(|(a, b, c)| g.get(b).map(|d| (a.clone(), d.clone(), c.clone())))
         .collect()
 }
 
-- 
2.43.0


From 583c31bb0fef7f3d47a8e7a4f5043e16780db01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 22/83] fix: constants of linear type do not carry linear units

---
 tket/src/circuit/units.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/tket/src/circuit/units.rs b/tket/src/circuit/units.rs
index f843f4d..b3b6565 100644
--- a/tket/src/circuit/units.rs
+++ b/tket/src/circuit/units.rs
@@ -20,7 +20,7 @@ use std::marker::PhantomData;
 use hugr::core::HugrNode;
 use hugr::types::{EdgeKind, Type, TypeRow};
 use hugr::{CircuitUnit, HugrView, IncomingPort, OutgoingPort};
-use hugr::{Direction, Node, Port, Wire};
+use hugr::{Direction, Node, Port, PortIndex, Wire};
 
 use crate::utils::type_is_linear;
 
@@ -65,6 +65,11 @@ pub struct Units<P, N = Node, UL = DefaultUnitLabeller> {
     node: N,
     /// The types of the boundary.
     types: TypeRow,
+    /// The number of value ports in `types`.
+    ///
+    /// The static ports after them never carry a linear unit, whatever their
+    /// type.
+    value_count: usize,
     /// The current index in the type row.
     pos: usize,
     /// The number of linear units yielded so far.
@@ -132,9 +137,11 @@ where
         direction: Direction,
         unit_labeller: UL,
     ) -> Self {
+        let (types, value_count) = Self::init_types(circuit, node, direction);
         Self {
             node,
-            types: Self::init_types(circuit, node, direction),
+            types,
+            value_count,
             pos: 0,
             linear_count: 0,
             unit_labeller,
@@ -142,7 +149,8 @@ where
         }
     }
 
-    /// Initialize the boundary types.
+    /// Initialize the boundary types. Returns them along with the number of
+    /// value ports.
     ///
     /// We use a [`TypeRow`] to avoid allocating for simple boundaries, but if
     /// any static port is present we create a new owned [`TypeRow`] with them included.
@@ -155,7 +163,7 @@ where
         circuit: &Circuit<T>,
         node: T::Node,
         direction: Direction,
-    ) -> TypeRow {
+    ) -> (TypeRow, usize) {
         let hugr = circuit.hugr();
         let optype = hugr.get_optype(node);
         let sig = hugr.signature(node).unwrap_or_default().into_owned();
@@ -163,13 +171,14 @@ where
             Direction::Outgoing => sig.output,
             Direction::Incoming => sig.input,
         };
+        let value_count = types.len();
         if let Some(EdgeKind::Const(static_type)) = optype.static_port_kind(direction) {
             types.to_mut().push(static_type);
         };
         if let Some(EdgeKind::Const(other)) = optype.other_port_kind(direction) {
             types.to_mut().push(other);
         }
-        types
+        (types, value_count)
     }
 
     /// Construct an output value to yield.
@@ -178,7 +187,7 @@ where
     /// Non-linear ports are assigned [`CircuitUnit::Wire`]s via [`UnitLabeller::assign_wire`].
     #[inline]
     fn make_value(&self, typ: &Type, port: P) -> Option<(CircuitUnit<N>, P, Type)> {
-        let unit = if type_is_linear(typ) {
+        let unit = if self.is_linear(typ, port) {
             let linear_unit =
                 self.unit_labeller
                     .assign_linear(self.node, port.into(), self.linear_count - 1);
@@ -190,6 +199,12 @@ where
         Some((unit, port, typ.clone()))
     }
 
+    /// Returns whether the port carries a linear unit.
+    #[inline]
+    fn is_linear(&self, typ: &Type, port: P) -> bool {
+        port.into().index() < self.value_count && type_is_linear(typ)
+    }
+
     /// Advances the iterator and returns the next value.
     fn next_generic(&mut self) -> Option<(CircuitUnit<N>, P, Type)>
     where
@@ -199,7 +214,7 @@ where
             let typ = self.types.get(self.pos)?;
             let port = P::from(self.pos);
             self.pos += 1;
-            if type_is_linear(typ) {
+            if self.is_linear(typ, port) {
                 self.linear_count += 1;
             }
             if let Some(val) = self.make_value(typ, port) {
-- 
2.43.0


From c628b3b626221451eca8c816d3c052e9dc4a5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 23/83] fix: a malformed TKET1 operation argument is an error,
 not a panic

---
 tket/src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index 5505035..f503238 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -79,7 +79,8 @@ impl CustomSignatureFunc for Tk1Signature {
             // This should have already been checked.
             panic!("Wrong number of arguments");
         };
-        let op: OpaqueTk1Op = serde_json::from_str(arg).unwrap(); // TODO Errors!
+        let op: OpaqueTk1Op =
+            serde_json::from_str(arg).map_err(|_| SignatureError::InvalidTypeArgs)?;
         let poly_func: PolyFuncType = op.signature().into();
         Ok(poly_func.into())
     }
-- 
2.43.0


From 9705433fd3510a1bac380f60e9ac0c65dfdd0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 24/83] fix: hash the extension, tag, type arguments and
 constant value of an operation

---
 tket/src/circuit/hash.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 5112670..1dd288a 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -91,7 +91,7 @@ fn hashable_op(op: &OpType) -> impl Hash {
             // TODO: Require hashing for TypeParams?
             format!(
                 "{}[{}]",
-                op.def().name(),
+                op.qualified_id(),
                 serde_json::to_string(op.args()).unwrap()
             )
         }
@@ -102,6 +102,11 @@ fn hashable_op(op: &OpType) -> impl Hash {
                 serde_json::to_string(op.args()).unwrap()
             )
         }
+        // The name of a constant does not always show its value.
+        OpType::Const(c) => format!("{op}:{}", serde_json::to_string(c.value()).unwrap()),
+        OpType::Tag(t) => format!("{op}:{}", t.tag),
+        OpType::Call(c) => format!("{op}{}", serde_json::to_string(&c.type_args).unwrap()),
+        OpType::LoadFunction(l) => format!("{op}{}", serde_json::to_string(&l.type_args).unwrap()),
         _ => op.to_string(),
     }
 }
-- 
2.43.0


From dad65bc1d9533be032ccd83a852dd0e24f978528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 25/83] fix: hash constants and functions defined outside the
 hashed region

---
 tket/src/circuit/hash.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 1dd288a..793c85d 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -107,6 +107,8 @@ fn hashable_op(op: &OpType) -> impl Hash {
         OpType::Tag(t) => format!("{op}:{}", t.tag),
         OpType::Call(c) => format!("{op}{}", serde_json::to_string(&c.type_args).unwrap()),
         OpType::LoadFunction(l) => format!("{op}{}", serde_json::to_string(&l.type_args).unwrap()),
+        OpType::FuncDefn(f) => format!("{op}:{}", f.func_name()),
+        OpType::FuncDecl(f) => format!("{op}:{}", f.func_name()),
         _ => op.to_string(),
     }
 }
@@ -141,7 +143,10 @@ fn hash_node(
         let input_hash = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
-                let pred_node_hash = state.node_hash(pred_node);
+                // Static inputs (constants, functions) may be defined outside the region.
+                let pred_node_hash = state
+                    .node_hash(pred_node)
+                    .unwrap_or_else(|| fxhash::hash64(&hashable_op(circ.get_optype(pred_node))));
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
             .fold(0, |total, hash| hash ^ total);
-- 
2.43.0


From 7e136f77ec8aa05b7ac72b9ff167d1d489797755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 26/83] fix: equal order predecessors do not cancel in the
 circuit hash

---
 tket/src/circuit/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 793c85d..11637d1 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -149,7 +149,7 @@ fn hash_node(
                     .unwrap_or_else(|| fxhash::hash64(&hashable_op(circ.get_optype(pred_node))));
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
-            .fold(0, |total, hash| hash ^ total);
+            .fold(0u64, |total, hash| total.wrapping_add(hash));
         input_hash.hash(&mut hasher);
     }
     Ok(hasher.finish())
-- 
2.43.0


From a4b892e33639c6c3b02c81e3f8a38a828345a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 27/83] fix: hash circuits with conditionals and CFGs

---
 tket/src/circuit/hash.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 11637d1..1cd0095 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -130,7 +130,7 @@ fn hash_node(
 
     // Hash the node children
     if circ.children(node).next().is_some() {
-        circ.circuit_hash(node)?.hash(&mut hasher);
+        hash_children(circ, node)?.hash(&mut hasher);
     }
 
     // Hash the node operation
@@ -155,6 +155,41 @@ fn hash_node(
     Ok(hasher.finish())
 }
 
+/// Compute the hash of the contents of a container node.
+///
+/// The cases of a conditional are hashed in order, and the blocks of a CFG in
+/// the order in which they are first reached from the entry block.
+fn hash_children(circ: &impl HugrView<Node = Node>, node: Node) -> Result<u64, HashError> {
+    let mut hasher = FxHasher64::default();
+    match circ.get_optype(node) {
+        OpType::Conditional(_) => {
+            for case in circ.children(node) {
+                circ.circuit_hash(case)?.hash(&mut hasher);
+            }
+        }
+        OpType::CFG(_) => {
+            let mut blocks: Vec<Node> = circ.children(node).take(1).collect();
+            let mut next = 0;
+            while let Some(&block) = blocks.get(next) {
+                next += 1;
+                hashable_op(circ.get_optype(block)).hash(&mut hasher);
+                if circ.get_io(block).is_some() {
+                    circ.circuit_hash(block)?.hash(&mut hasher);
+                }
+                for successor in circ.output_neighbours(block) {
+                    let index = blocks.iter().position(|&b| b == successor);
+                    index.unwrap_or(blocks.len()).hash(&mut hasher);
+                    if index.is_none() {
+                        blocks.push(successor);
+                    }
+                }
+            }
+        }
+        _ => return circ.circuit_hash(node),
+    }
+    Ok(hasher.finish())
+}
+
 /// Errors that can occur while hashing a hugr.
 #[derive(Debug, Display, Clone, PartialEq, Eq, Error)]
 #[non_exhaustive]
-- 
2.43.0


From 337238d632ceaa93423b38239915147dfd12742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 28/83] fix: count nodes and operations consistently in rewrite
 deltas

CircuitRewrite::node_count_delta subtracted the nodes of the replaced
subgraph, constants included, from the operations of the replacement, and
the greedy strategy reported that as the change of num_operations.
---
 tket/src/circuit.rs          | 38 ++++++++++++++++++++++--------------
 tket/src/rewrite.rs          |  4 +++-
 tket/src/rewrite/strategy.rs | 15 ++++++++++----
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/tket/src/circuit.rs b/tket/src/circuit.rs
index 6baf42d..77595b1 100644
--- a/tket/src/circuit.rs
+++ b/tket/src/circuit.rs
@@ -193,21 +193,7 @@ impl<T: HugrView> Circuit<T> {
     where
         Self: Sized,
     {
-        let mut count = 0;
-        let mut roots = vec![self.hugr().module_root()];
-        while let Some(node) = roots.pop() {
-            for child in self.hugr().children(node) {
-                let optype = self.hugr().get_optype(child);
-                if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
-                    && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
-                {
-                    count += 1;
-                } else if self.hugr().first_child(node).is_some() {
-                    roots.push(child);
-                }
-            }
-        }
-        count
+        count_operations(self.hugr(), self.hugr().children(self.hugr().module_root()))
     }
 
     /// Count the number of qubits in the circuit.
@@ -401,6 +387,28 @@ fn check_hugr<H: HugrView>(hugr: &H) -> Result<(), CircuitError<H::Node>> {
     }
 }
 
+/// Count the operations among the given nodes and their descendants.
+///
+/// See [`Circuit::num_operations`].
+pub(crate) fn count_operations<H: HugrView>(
+    hugr: &H,
+    nodes: impl IntoIterator<Item = H::Node>,
+) -> usize {
+    let mut count = 0;
+    let mut stack: Vec<H::Node> = nodes.into_iter().collect();
+    while let Some(node) = stack.pop() {
+        let optype = hugr.get_optype(node);
+        if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
+            && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
+        {
+            count += 1;
+        } else {
+            stack.extend(hugr.children(node));
+        }
+    }
+    count
+}
+
 /// Remove an empty wire in a dataflow HUGR.
 ///
 /// The wire to be removed is identified by the index of the outgoing port
diff --git a/tket/src/rewrite.rs b/tket/src/rewrite.rs
index fa8b4bf..545a19c 100644
--- a/tket/src/rewrite.rs
+++ b/tket/src/rewrite.rs
@@ -44,7 +44,9 @@ impl CircuitRewrite {
     /// The difference between the new number of nodes minus the old. A positive
     /// number is an increase in node count, a negative number is a decrease.
     pub fn node_count_delta(&self) -> isize {
-        let new_count = self.replacement().num_operations() as isize;
+        let replacement = self.replacement();
+        // Do not count the input and output nodes.
+        let new_count = replacement.hugr().children(replacement.parent()).count() as isize - 2;
         let old_count = self.subgraph().node_count() as isize;
         new_count - old_count
     }
diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index c0ab394..f0b69f5 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -29,6 +29,7 @@ use hugr::{HugrView, Node};
 use itertools::Itertools;
 
 use crate::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
+use crate::circuit::count_operations;
 use crate::{op_matches, Circuit, TketOp};
 
 use super::trace::RewriteTrace;
@@ -120,12 +121,18 @@ impl RewriteStrategy for GreedyRewriteStrategy {
     ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
         let rewrites = rewrites
             .into_iter()
-            .sorted_by_key(|rw| rw.node_count_delta())
-            .take_while(|rw| rw.node_count_delta() < 0);
+            .map(|rw| {
+                let new_count = rw.replacement().num_operations() as isize;
+                let old_nodes = rw.subgraph().nodes().iter().copied();
+                let old_count = count_operations(circ.hugr(), old_nodes) as isize;
+                (rw, new_count - old_count)
+            })
+            .sorted_by_key(|&(_, delta)| delta)
+            .take_while(|&(_, delta)| delta < 0);
         let mut changed_nodes = HashSet::new();
         let mut cost_delta = 0;
         let mut circ = circ.clone();
-        for rewrite in rewrites {
+        for (rewrite, delta) in rewrites {
             if rewrite
                 .subgraph()
                 .nodes()
@@ -135,7 +142,7 @@ impl RewriteStrategy for GreedyRewriteStrategy {
                 continue;
             }
             changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += rewrite.node_count_delta();
+            cost_delta += delta;
             rewrite
                 .apply(&mut circ)
                 .expect("Could not perform rewrite in greedy strategy");
-- 
2.43.0


From 41a9599dc854947364020231645d6d4fac32cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 29/83] fix: greedy rewrite strategy no longer composes
 rewrites into a cyclic circuit

Rewrites with disjoint subgraphs may depend on each other in a cycle once
both are applied, even though each of them is fine alone.
---
 tket/src/rewrite/strategy.rs | 69 ++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index f0b69f5..b688bf6 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -26,7 +26,9 @@ use std::{collections::HashSet, fmt::Debug};
 use derive_more::From;
 use hugr::ops::OpType;
 use hugr::{HugrView, Node};
+use hugr_core::hugr::internal::HugrInternals;
 use itertools::Itertools;
+use petgraph::visit::{NodeCount, Topo, Walker};
 
 use crate::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
 use crate::circuit::count_operations;
@@ -128,26 +130,16 @@ impl RewriteStrategy for GreedyRewriteStrategy {
                 (rw, new_count - old_count)
             })
             .sorted_by_key(|&(_, delta)| delta)
-            .take_while(|&(_, delta)| delta < 0);
-        let mut changed_nodes = HashSet::new();
-        let mut cost_delta = 0;
-        let mut circ = circ.clone();
-        for (rewrite, delta) in rewrites {
-            if rewrite
-                .subgraph()
-                .nodes()
-                .iter()
-                .any(|n| changed_nodes.contains(n))
-            {
-                continue;
-            }
-            changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += delta;
-            rewrite
-                .apply(&mut circ)
-                .expect("Could not perform rewrite in greedy strategy");
+            .take_while(|&(_, delta)| delta < 0)
+            .collect_vec();
+
+        // Non-overlapping rewrites may still create a cycle when composed. This
+        // is rare, so only check after each rewrite if it did happen.
+        let (mut new_circ, mut cost_delta) = apply_non_overlapping(&rewrites, circ, false);
+        if !is_acyclic(&new_circ) {
+            (new_circ, cost_delta) = apply_non_overlapping(&rewrites, circ, true);
         }
-        iter::once((circ, cost_delta).into())
+        iter::once((new_circ, cost_delta).into())
     }
 
     fn circuit_cost(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> Self::Cost {
@@ -159,6 +151,45 @@ impl RewriteStrategy for GreedyRewriteStrategy {
     }
 }
 
+/// Apply in order the rewrites that do not overlap with a previous one.
+///
+/// If `skip_cycles` is set, skip the rewrites that would make the circuit cyclic.
+fn apply_non_overlapping(
+    rewrites: &[(CircuitRewrite, isize)],
+    circ: &Circuit,
+    skip_cycles: bool,
+) -> (Circuit, isize) {
+    let mut changed_nodes = HashSet::new();
+    let mut cost_delta = 0;
+    let mut circ = circ.clone();
+    for (rewrite, delta) in rewrites {
+        let nodes = rewrite.subgraph().nodes();
+        if nodes.iter().any(|n| changed_nodes.contains(n)) {
+            continue;
+        }
+        let previous = skip_cycles.then(|| circ.clone());
+        rewrite
+            .clone()
+            .apply(&mut circ)
+            .expect("Could not perform rewrite in greedy strategy");
+        if let Some(previous) = previous {
+            if !is_acyclic(&circ) {
+                circ = previous;
+                continue;
+            }
+        }
+        changed_nodes.extend(nodes.iter().copied());
+        cost_delta += delta;
+    }
+    (circ, cost_delta)
+}
+
+/// Returns whether there are no cycles in the circuit's region.
+fn is_acyclic(circ: &Circuit) -> bool {
+    let (region, _) = circ.hugr().region_portgraph(circ.parent());
+    Topo::new(&region).iter(&region).count() == region.node_count()
+}
+
 /// Exhaustive strategies based on cost functions and thresholds.
 ///
 /// Every possible rewrite is applied to a copy of the input circuit. In
-- 
2.43.0


From c68e7c9f4a112b49e714435bfbaba9b319f867c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 30/83] fix: pattern matcher misses matches when patterns end
 at different places

The automaton takes edge properties with the same offset to be exclusive, but an
input edge holds whenever an internal edge at the same port does. Only one of
them was followed, so matches of the other pattern were not found.
---
 tket/src/portmatching.rs         | 13 +++++++++++--
 tket/src/portmatching/matcher.rs |  6 +++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/tket/src/portmatching.rs b/tket/src/portmatching.rs
index 7dcf448..d90843c 100644
--- a/tket/src/portmatching.rs
+++ b/tket/src/portmatching.rs
@@ -65,7 +65,7 @@ pub use pattern::CircuitPattern;
 use derive_more::{Display, Error};
 use hugr::{
     ops::{OpTag, OpTrait},
-    Node, Port,
+    Node, Port, PortIndex,
 };
 use matcher::MatchOp;
 
@@ -145,6 +145,9 @@ impl PEdge {
     }
 }
 
+/// Offset of the first input edge, see [`PEdge::offset_id`].
+const INPUT_EDGE_OFFSET: usize = i16::MAX as usize;
+
 impl portmatching::EdgeProperty for PEdge {
     type OffsetID = Port;
 
@@ -163,10 +166,16 @@ impl portmatching::EdgeProperty for PEdge {
         }
     }
 
+    /// The offset of the edge at its source node.
+    ///
+    /// At most one property per offset can hold at any given node. An input
+    /// edge only requires that there is some wire at `src`, so it may hold
+    /// together with an internal edge at the same port. Input edges hence have
+    /// offsets of their own, that are not used by any port.
     fn offset_id(&self) -> Self::OffsetID {
         match *self {
             Self::InternalEdge { src, .. } => src,
-            Self::InputEdge { src, .. } => src,
+            Self::InputEdge { src } => Port::new(src.direction(), INPUT_EDGE_OFFSET - src.index()),
         }
     }
 }
diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8be0c35..f7887e7 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -18,7 +18,7 @@ use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
 use itertools::Itertools;
 use portmatching::{
     automaton::{LineBuilder, ScopeAutomaton},
-    EdgeProperty, PatternID,
+    PatternID,
 };
 use smol_str::SmolStr;
 
@@ -426,10 +426,10 @@ impl From<InvalidSubgraph> for InvalidPatternMatch {
 }
 
 fn compatible_offsets(e1: &PEdge, e2: &PEdge) -> bool {
-    let PEdge::InternalEdge { dst: dst1, .. } = e1 else {
+    let (PEdge::InternalEdge { dst: dst1, .. }, PEdge::InternalEdge { src: src2, .. }) = (e1, e2)
+    else {
         return false;
     };
-    let src2 = e2.offset_id();
     dst1.direction() != src2.direction() && dst1.index() == src2.index()
 }
 
-- 
2.43.0


From 0768aa914985be95eb2777f6ec61c5cf102582c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 31/83] fix: find_matches panics on patterns with unused inputs

There is no boundary port to take the wire from, so every match of such a
pattern was an invalid subgraph. Reject them when building the pattern.
---
 tket/src/portmatching/pattern.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index 3f378fa..370193a 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -67,7 +67,7 @@ impl CircuitPattern {
         let inp_ports = hugr.signature(inp).unwrap().output_ports();
         let out_ports = hugr.signature(out).unwrap().input_ports();
         let inputs = inp_ports
-            .map(|p| hugr.linked_ports(inp, p).collect())
+            .map(|p| hugr.linked_ports(inp, p).collect_vec())
             .collect_vec();
         let outputs = out_ports
             .map(|p| {
@@ -89,6 +89,9 @@ impl CircuitPattern {
                 to_port,
             });
         }
+        if let Some(port) = inputs.iter().position(|ports| ports.is_empty()) {
+            return Err(InvalidPattern::UnusedInput { port });
+        }
 
         // This is a consequence of the test above.
         debug_assert!(outputs.iter().all(|(n, _)| *n != inp));
@@ -155,6 +158,13 @@ pub enum InvalidPattern {
         /// The target port
         to_port: Port,
     },
+    /// Patterns cannot include unused inputs, as there is no way to tell which
+    /// wire matches them.
+    #[display("The input {port} of the pattern is not used")]
+    UnusedInput {
+        /// The offset of the input
+        port: usize,
+    },
 }
 
 impl From<NoRootFound> for InvalidPattern {
-- 
2.43.0


From ac3841b4353949b8cf170961dff70ddd6bbf1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 32/83] fix: matches of patterns without boundary cover the
 whole region

A subgraph with an empty boundary contains all nodes of the region, and edges
that are not part of the pattern may lead out of the match.
---
 tket/src/portmatching/matcher.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index f7887e7..8d37e72 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -159,7 +159,28 @@ impl PatternMatch {
             .iter()
             .map(|(n, p)| (map[n], p.as_outgoing().unwrap()))
             .collect_vec();
-        Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)
+        let nodes = map.into_values().sorted().collect_vec();
+        let has_boundary = !inputs.is_empty() || !outputs.is_empty();
+        let subgraph = if has_boundary {
+            SiblingSubgraph::try_new_with_checker(inputs, outputs, circ.hugr(), checker)?
+        } else {
+            // An empty boundary does not determine the matched nodes.
+            SiblingSubgraph::try_from_nodes_with_checker(nodes.clone(), circ.hugr(), checker)?
+        };
+        let signature = subgraph.signature(circ.hugr());
+        let sig_is_empty = signature.input().is_empty() && signature.output().is_empty();
+        let mut subgraph_nodes = subgraph.nodes().to_vec();
+        subgraph_nodes.sort();
+        if subgraph_nodes != nodes || has_boundary == sig_is_empty {
+            // The matched nodes are linked to others by edges that are not in
+            // the pattern.
+            return Err(InvalidPatternMatch::NotConvex);
+        }
+        Ok(Self {
+            subgraph,
+            pattern,
+            root,
+        })
     }
 
     /// Create a pattern match from the subcircuit boundaries.
@@ -411,8 +432,10 @@ impl From<InvalidSubgraph> for InvalidPatternMatch {
     fn from(value: InvalidSubgraph) -> Self {
         match value {
             // A non-convex subgraph might show itself as a disconnected boundary
-            // in the subgraph
+            // in the subgraph, or as an edge across the boundary that is not in
+            // the pattern.
             InvalidSubgraph::NotConvex
+            | InvalidSubgraph::UnsupportedEdgeKind(_, _)
             | InvalidSubgraph::InvalidBoundary(
                 InvalidSubgraphBoundary::DisconnectedBoundaryPort(_, _),
             ) => InvalidPatternMatch::NotConvex,
-- 
2.43.0


From a204e577613da74988f334853efed6a0e9ac69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 33/83] fix: optimisers with huge queue sizes overflow the
 queue's capacity

The queue preallocated its maximum size, and used the allocated capacity
as the limit for the number of best states to track.
---
 tket/src/optimiser/pqueue.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tket/src/optimiser/pqueue.rs b/tket/src/optimiser/pqueue.rs
index 08bb8d0..207f438 100644
--- a/tket/src/optimiser/pqueue.rs
+++ b/tket/src/optimiser/pqueue.rs
@@ -21,6 +21,8 @@ pub(super) struct StatePQueue<S, P: Ord> {
     max_size: usize,
     /// The all-time best states discovered.
     all_time_best: Option<DoublePriorityQueue<u64, P>>,
+    /// The maximum number of states to keep in `all_time_best`.
+    n_best: usize,
 }
 
 /// An entry in the priority queue.
@@ -34,14 +36,17 @@ pub(super) struct Entry<S, P, H> {
 }
 
 impl<S: Clone, P: Clone + Ord> StatePQueue<S, P> {
-    /// Create a new HugrPQ with a cost function and some initial capacity.
+    /// Create a new queue, holding at most `max_size` states.
+    ///
+    /// If `n_best` is set, also track the `n_best` all-time best states.
     pub fn new(max_size: usize, n_best: Option<usize>) -> Self {
         Self {
-            queue: DoublePriorityQueue::with_capacity(max_size),
+            queue: DoublePriorityQueue::new(),
             hash_lookup: Default::default(),
             seen_hashes: Default::default(),
             max_size,
-            all_time_best: n_best.map(|n| DoublePriorityQueue::with_capacity(n)),
+            all_time_best: n_best.map(|_| DoublePriorityQueue::new()),
+            n_best: n_best.unwrap_or_default(),
         }
     }
 
@@ -99,7 +104,7 @@ impl<S: Clone, P: Clone + Ord> StatePQueue<S, P> {
         let Some(all_time_best) = self.all_time_best.as_ref() else {
             return;
         };
-        if all_time_best.len() == all_time_best.capacity() {
+        if all_time_best.len() >= self.n_best {
             if Some(&cost) < all_time_best.peek_max().map(|(_, cost)| cost) {
                 self.pop_max_all_time_best();
             } else {
-- 
2.43.0


From b68865e4a6c5a272188df03fdd65b6c55339ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 34/83] fix: optimisers with an empty queue panic or never
 return

A queue of size zero rejected the initial state.
---
 tket/src/optimiser/backtracking.rs  | 6 ++++--
 tket/src/optimiser/pqueue_worker.rs | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tket/src/optimiser/backtracking.rs b/tket/src/optimiser/backtracking.rs
index 644e500..f4aab48 100644
--- a/tket/src/optimiser/backtracking.rs
+++ b/tket/src/optimiser/backtracking.rs
@@ -77,8 +77,10 @@ impl Optimiser for BacktrackingOptimiser {
         let mut best_cost = best_state.cost(&context)?;
         logger.log_best(&best_cost, None);
 
-        // Priority queue of states to be processed
-        let mut pq = StatePQueue::new(self.queue_size, options.track_n_best);
+        // Priority queue of states to be processed.
+        //
+        // It needs to fit at least the initial state.
+        let mut pq = StatePQueue::new(self.queue_size.max(1), options.track_n_best);
         pq.push(start_state, &context)?;
 
         let mut visited_count = 0;
diff --git a/tket/src/optimiser/pqueue_worker.rs b/tket/src/optimiser/pqueue_worker.rs
index 2261c19..de6f528 100644
--- a/tket/src/optimiser/pqueue_worker.rs
+++ b/tket/src/optimiser/pqueue_worker.rs
@@ -143,7 +143,9 @@ where
         queue_capacity: usize,
     ) -> Self {
         // The priority queue, local to this thread.
-        let pq = StatePQueue::new(queue_capacity, None);
+        //
+        // It needs to fit at least the initial state.
+        let pq = StatePQueue::new(queue_capacity.max(1), None);
         // The minimum cost we've seen.
         let min_cost = None;
         // The number of states we've seen (for logging).
-- 
2.43.0


From 63df12ea0edb5a6ee076feec1ae960a6032c9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 35/83] fix: multithreaded badger never returns once the search
 space is exhausted

---
 tket/src/optimiser/badger.rs        |  3 +-
 tket/src/optimiser/pqueue_worker.rs | 59 ++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/tket/src/optimiser/badger.rs b/tket/src/optimiser/badger.rs
index d465bed..e13fa65 100644
--- a/tket/src/optimiser/badger.rs
+++ b/tket/src/optimiser/badger.rs
@@ -306,8 +306,7 @@ where
                             logger.log_progress(processed_count, Some(queue_length), seen_count);
                         }
                         Err(crossbeam_channel::RecvError) => {
-                            logger.log("The priority channel panicked. Stopping Badger optimisation.");
-                            let _ = pq.close();
+                            // The priority channel closed, as there is nothing left to explore.
                             break;
                         }
                     }
diff --git a/tket/src/optimiser/pqueue_worker.rs b/tket/src/optimiser/pqueue_worker.rs
index de6f528..9cecce0 100644
--- a/tket/src/optimiser/pqueue_worker.rs
+++ b/tket/src/optimiser/pqueue_worker.rs
@@ -17,14 +17,23 @@ use crate::optimiser::pqueue::{Entry, StatePQueue};
 /// hash and cost.
 pub type Work<S, P> = Entry<S, P, u64>;
 
+/// A message for the priority queue.
+///
+/// Either a batch of new states, or `None` to signal the queue to stop.
+type Push<S, P> = Option<Vec<Work<S, P>>>;
+
 /// A priority queue [`StatePQueue`] running in a dedicated thread.
 ///
 /// When initiated, provides channels that other threads and workers can use to
 /// add and remove states from the queue.
+///
+/// The queue must be initialised with a batch of states. After that, it expects
+/// exactly one batch in return for each state that gets popped, and stops once
+/// there are no states left in the queue nor being processed.
 #[derive(Debug, Clone)]
 pub struct StatePQWorker<S, P: Ord> {
     /// Channel to add states to the queue.
-    push: Receiver<Vec<Work<S, P>>>,
+    push: Receiver<Push<S, P>>,
     /// Channel to pop states from the queue.
     pop: Sender<Work<S, P>>,
     /// Outbound channel to log to main thread.
@@ -38,6 +47,8 @@ pub struct StatePQWorker<S, P: Ord> {
     min_cost: Option<P>,
     /// The number of states we've processed.
     state_cnt: usize,
+    /// The number of popped states for which we haven't received the results.
+    pending_cnt: usize,
     /// The maximum cost in the queue. Shared with the workers so they can cull
     /// the states they generate.
     max_cost: Arc<RwLock<Option<P>>>,
@@ -60,7 +71,7 @@ pub enum LogMessage<S, P> {
 #[derive(Clone)]
 pub struct StatePQueueChannels<S, P> {
     /// A channel to add batches of states to the queue.
-    push: Sender<Vec<Work<S, P>>>,
+    push: Sender<Push<S, P>>,
     /// A channel to remove the best candidate state from the queue.
     pop: Receiver<Work<S, P>>,
     /// A maximum accepted cost for the queue. States with higher costs will
@@ -74,16 +85,16 @@ impl<S, P: CircuitCost> StatePQueueChannels<S, P> {
     /// Signal the priority channel to stop.
     ///
     /// This will in turn signal the workers to stop.
-    pub fn close(&self) -> Result<(), SendError<Vec<Work<S, P>>>> {
-        self.push.send(Vec::new())
+    pub fn close(&self) -> Result<(), SendError<Push<S, P>>> {
+        self.push.send(None)
     }
 
     /// Send a lot of states to the priority channel.
-    pub fn send(&self, work: Vec<Work<S, P>>) -> Result<(), SendError<Vec<Work<S, P>>>> {
-        if work.is_empty() {
-            return Ok(());
-        }
-        self.push.send(work)
+    ///
+    /// Workers must call this once for each received state, even if they
+    /// produced no new states.
+    pub fn send(&self, work: Vec<Work<S, P>>) -> Result<(), SendError<Push<S, P>>> {
+        self.push.send(Some(work))
     }
 
     /// Receive a state from the priority channel.
@@ -136,7 +147,7 @@ where
     }
 
     fn new(
-        push: Receiver<Vec<Work<S, P>>>,
+        push: Receiver<Push<S, P>>,
         pop: Sender<Work<S, P>>,
         log: Sender<LogMessage<S, P>>,
         max_cost: Arc<RwLock<Option<P>>>,
@@ -160,6 +171,7 @@ where
             pq,
             min_cost,
             state_cnt,
+            pending_cnt: 0,
             max_cost,
             local_max_cost: None,
         }
@@ -173,26 +185,24 @@ where
             .spawn(move || {
                 'main: loop {
                     while self.pq.is_empty() {
-                        let Ok(new_circs) = self.push.recv() else {
-                            // Something went wrong
-                            break 'main;
-                        };
-                        if new_circs.is_empty() {
-                            // The main thread signalled us to stop.
+                        if self.state_cnt > 0 && self.pending_cnt == 0 {
+                            // There is nothing left to explore.
                             break 'main;
                         }
+                        let Ok(Some(new_circs)) = self.push.recv() else {
+                            // Something went wrong, or the main thread
+                            // signalled us to stop.
+                            break 'main;
+                        };
                         self.enqueue_circs(new_circs);
                     }
                     select! {
                         recv(self.push) -> result => {
-                            let Ok(new_circs) = result else {
-                                // Something went wrong
+                            let Ok(Some(new_circs)) = result else {
+                                // Something went wrong, or the main thread
+                                // signalled us to stop.
                                 break 'main;
                             };
-                            if new_circs.is_empty() {
-                                // The main thread signalled us to stop.
-                                break 'main;
-                            }
                             self.enqueue_circs(new_circs);
                         }
                         send(self.pop, self.pq.pop().unwrap()) -> result => {
@@ -200,6 +210,7 @@ where
                                 // Something went wrong.
                                 break 'main;
                             }
+                            self.pending_cnt += 1;
                             self.update_max_cost();
                         }
                     }
@@ -232,8 +243,10 @@ where
         }
         self.update_max_cost();
 
-        // This is the result from processing a state. Add it to the count.
+        // This is the result from processing a state (or the initial batch).
+        // Add it to the count.
         self.state_cnt += 1;
+        self.pending_cnt = self.pending_cnt.saturating_sub(1);
         if Instant::now() - self.last_progress_log > std::time::Duration::from_millis(100) {
             self.log
                 .send(LogMessage::StateCount {
-- 
2.43.0


From 91e8160dcc0438637ca583d4e7c83f2b98b3b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 36/83] fix: Python global phase class looks up an operation
 that does not exist

---
 tket-exts/src/tket_exts/tket/global_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket-exts/src/tket_exts/tket/global_phase.py b/tket-exts/src/tket_exts/tket/global_phase.py
index 41c0503..9b49bc2 100644
--- a/tket-exts/src/tket_exts/tket/global_phase.py
+++ b/tket-exts/src/tket_exts/tket/global_phase.py
@@ -29,4 +29,4 @@ class GlobalPhaseExtension(TketExtension):
     @functools.cached_property
     def global_phase(self) -> ExtOp:
         """Applies a global phase to the circuit."""
-        return self().get_op("GlobalPhase").instantiate()
+        return self().get_op("global_phase").instantiate()
-- 
2.43.0


From 95a4ef240eb41db96a3d097b89f43a2d7a3e619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 37/83] fix: use fresh bit registers for command outputs unless
 told to reuse

The default of EmitCommandOptions is documented to only use fresh bit
IDs, but the encoder wrote the outputs over the input bits, which other
wires may still use.
---
 tket/src/serialize/pytket/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..bcbcbf7 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -1052,7 +1052,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
-- 
2.43.0


From 3f9506703418ecc26f6dc922035167625703d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 38/83] fix: do not hand out used pytket registers for new
 qubits and bits

The value tracker recycled the registers of a wire once that wire was
explored, although other wires could still refer to the same bit, and a
register used in a command does not hold a fresh value. Only the bits of
region inputs that nothing reads are recycled now.
---
 .../serialize/pytket/encoder/value_tracker.rs | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..169c6e7 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -278,7 +278,17 @@ impl<N: HugrNode> ValueTracker<N> {
                 wire_values.push(TrackedValue::Param(param));
             }
 
-            tracker.register_wire(wire, wire_values, circ)?;
+            tracker.register_wire(wire, wire_values.iter().copied(), circ)?;
+
+            // Nothing reads the input bits that are left unconnected, so their
+            // registers can be used for other values.
+            if !circ.hugr().is_linked(inp_node, port) {
+                for value in wire_values {
+                    if let TrackedValue::Bit(bit) = value {
+                        tracker.unused_bits.insert(bit);
+                    }
+                }
+            }
         }
 
         Ok(tracker)
@@ -357,7 +367,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
         if unexplored_neighbours == 0 {
             // We can unregister the wire immediately, since it has no unexplored
-            // neighbours. This will free up the qubit and bit registers associated with it.
+            // neighbours.
             self.unregister_wire(wire)
                 .expect("Wire should be registered in the tracker");
         }
@@ -399,26 +409,18 @@ impl<N: HugrNode> ValueTracker<N> {
         Some(&values[..])
     }
 
-    /// Unregister a wire, freeing up the qubit and bit registers associated with it.
+    /// Unregister a wire.
+    ///
+    /// The qubit and bit registers of the wire are not made available to
+    /// [`ValueTracker::new_qubit`] and [`ValueTracker::new_bit`]: other wires may
+    /// still refer to the same registers, and a register that was already used in
+    /// a command does not hold a fresh value.
     ///
     /// Panics if the wire is not registered.
     fn unregister_wire(&mut self, wire: Wire<N>) -> Option<Vec<TrackedValue>> {
         let wire = self.wires.remove(&wire).unwrap();
         let values = wire.values?;
 
-        // Free up the qubit and bit registers associated with the wire.
-        for value in &values {
-            match value {
-                TrackedValue::Qubit(qb) => {
-                    self.unused_qubits.insert(*qb);
-                }
-                TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
-                }
-                TrackedValue::Param(_) => {}
-            }
-        }
-
         Some(values)
     }
 
-- 
2.43.0


From 840d67fdc3fb7b7135f57a213d60080d8df6b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 39/83] fix: encode the order of the output qubits as the
 implicit permutation

The permutation was always the identity, so a circuit that returns its
qubits in another order was encoded as one that does not.
---
 .../serialize/pytket/encoder/value_tracker.rs | 30 +++++++------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 169c6e7..cbca055 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -10,7 +10,7 @@
 //! Extensions can define which elements they map to
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use hugr::core::HugrNode;
 use hugr::ops::OpParent;
@@ -595,14 +595,8 @@ pub(super) fn compute_final_permutation(
     mut actual_outputs: Vec<RegisterUnit>,
     all_inputs: &[RegisterUnit],
 ) -> Vec<circuit_json::ImplicitPermutation> {
-    let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -614,20 +608,16 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
-    let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+    // The `i`th register at the output of the circuit holds the value that
+    // pytket should output in the `i`th declared register.
+    actual_outputs
+        .into_iter()
+        .zip(all_inputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
-        .collect_vec();
-
-    permutation
+        .collect_vec()
 }
-- 
2.43.0


From e73ef3c310b92e83313799a6f99fc2b458aee2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 40/83] fix: connect opaque pytket wires to the inserted nodes

The targets of a wire with an unsupported type were nodes of the payload
HUGR, and got connected without mapping them to the nodes inserted in
the decoded HUGR.
---
 tket/src/serialize/pytket/decoder/subgraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..50fdc75 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -368,6 +368,9 @@ impl<'h> PytketDecoderContext<'h> {
                 FoundWire::Register(wire_data) => wire_data.wire(),
                 FoundWire::Parameter(param) => param.wire(),
                 FoundWire::Unsupported { id } => {
+                    let targets = targets
+                        .into_iter()
+                        .map(|(node, port)| (insertion_result.node_map[&node], port));
                     self.wire_tracker.connect_unsupported_wire_targets(
                         id,
                         targets,
-- 
2.43.0


From 099afc05e292db23623436f07a031bae82c172f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 41/83] fix: report missing pytket registers instead of
 panicking

Decoding indexed the first qubit or bit argument of a command without
checking that there is one.
---
 tket/src/serialize/pytket/decoder/wires.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..ba409ed 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -725,8 +725,10 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() => self.initialize_qubit_wire(builder, qubit_args[0].clone())?,
-            _ if ty == &bool_t() || ty == &bool_type() => {
+            _ if ty == &qb_t() && !qubit_args.is_empty() => {
+                self.initialize_qubit_wire(builder, qubit_args[0].clone())?
+            }
+            _ if (ty == &bool_t() || ty == &bool_type()) && !bit_args.is_empty() => {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
             _ => {
-- 
2.43.0


From 9acd1d684b1f67b3983233625d2664c8f0896138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 42/83] fix: track converted pytket wires with the type they
 have

A bit converted between bool types was recorded with the type it had
before the conversion, so its next user was connected to a wire of the
wrong type.
---
 tket/src/serialize/pytket/decoder/wires.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index ba409ed..bbbec4d 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -780,8 +780,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
-- 
2.43.0


From 1ff8eda7d08ec960da0c632077da4c830c0fa9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 43/83] fix: keep the order of output bits and parameters in
 reassembled circuits

The decoder connected the output bits of a region to the bit registers
in the order they were declared, whatever value the original region
returned. Record the output registers of the encoded regions and use
them, and the output parameters, in reassemble and reassemble_inplace.
---
 tket/src/serialize/pytket.rs                  |  2 +-
 tket/src/serialize/pytket/circuit.rs          | 15 +++++++++---
 tket/src/serialize/pytket/decoder.rs          | 24 +++++++++++++++++--
 tket/src/serialize/pytket/encoder.rs          |  1 +
 .../serialize/pytket/encoder/value_tracker.rs |  3 +++
 tket/src/serialize/pytket/extension/core.rs   |  2 +-
 6 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..7542ea9 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -134,7 +134,7 @@ impl TKETDecode for SerialCircuit {
     ) -> Result<Node, Self::DecodeError> {
         let mut decoder = PytketDecoderContext::new(self, hugr, target, options, None)?;
         decoder.run_decoder(&self.commands, None)?;
-        Ok(decoder.finish(&[])?.node())
+        Ok(decoder.finish(&[], &[])?.node())
     }
 
     fn encode(circuit: &Circuit, options: EncodeOptions) -> Result<Self, Self::EncodeError> {
diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..f9977d7 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -14,6 +14,7 @@ use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
 use tket_json_rs::circuit_json::{Command as PytketCommand, SerialCircuit};
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use crate::serialize::pytket::decoder::PytketDecoderContext;
 use crate::serialize::pytket::opaque::SubgraphId;
@@ -69,6 +70,11 @@ pub(super) struct EncodedCircuitInfo {
     // TODO: The decoder does not currently connect these, everything that
     // _produces_ a parameter gets included in unsupported subgraphs instead.
     pub output_params: Vec<String>,
+    /// List of bit registers holding the bits in the hugr output, in order.
+    ///
+    /// The pytket circuit only defines an order for the registers themselves,
+    /// which is not necessarily the order of the values in the hugr output.
+    pub output_bits: Vec<RegisterUnit>,
 }
 
 /// Nodes and edges from the original region that could not be encoded into the
@@ -195,7 +201,9 @@ impl EncodedCircuit<Node> {
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
             )?;
-            let decoded_node = decoder.finish(&encoded.output_params)?.node();
+            let decoded_node = decoder
+                .finish(&encoded.output_params, &encoded.output_bits)?
+                .node();
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -352,7 +360,8 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
             }
             .wrap());
         }
-        let serial_circuit = &self[region];
+        let encoded = &self.circuits[&region];
+        let serial_circuit = &encoded.serial_circuit;
 
         if self.len() > 1 {
             unimplemented!(
@@ -366,7 +375,7 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
         decoder.run_decoder(&serial_circuit.commands, None)?;
-        decoder.finish(&[])?;
+        decoder.finish(&encoded.output_params, &encoded.output_bits)?;
         Ok(hugr)
     }
 
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..7f5d91c 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -28,6 +28,7 @@ use itertools::Itertools;
 use serde_json::json;
 use tket_json_rs::circuit_json;
 use tket_json_rs::circuit_json::SerialCircuit;
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use super::{
     PytketDecodeError, METADATA_B_REGISTERS, METADATA_INPUT_PARAMETERS, METADATA_PHASE,
@@ -302,14 +303,33 @@ impl<'h> PytketDecoderContext<'h> {
     ///
     /// - `output_params`: A list of output parameter expressions to associate
     ///   with the region's outputs.
-    pub(super) fn finish(mut self, output_params: &[String]) -> Result<Node, PytketDecodeError> {
+    /// - `output_bits`: The bit registers to use for the region's outputs, in
+    ///   order. The remaining outputs use the other registers of the circuit, in
+    ///   the order they were declared.
+    pub(super) fn finish(
+        mut self,
+        output_params: &[String],
+        output_bits: &[RegisterUnit],
+    ) -> Result<Node, PytketDecodeError> {
         // Order the final wires according to the serial circuit register order.
         let known_qubits = self
             .wire_tracker
             .known_pytket_qubits()
             .cloned()
             .collect_vec();
-        let known_bits = self.wire_tracker.known_pytket_bits().cloned().collect_vec();
+        let known_bits = {
+            let mut bits = output_bits
+                .iter()
+                .map(|reg| self.wire_tracker.tracked_bit_for_register(reg).cloned())
+                .collect::<Result<Vec<_>, _>>()?;
+            bits.extend(
+                self.wire_tracker
+                    .known_pytket_bits()
+                    .filter(|bit| !output_bits.contains(bit.pytket_register()))
+                    .cloned(),
+            );
+            bits
+        };
         let mut qubits = known_qubits.as_slice();
         let mut bits = known_bits.as_slice();
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index bcbcbf7..e077346 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -263,6 +263,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             serial_circuit: ser,
             input_params: tracker_result.input_params,
             output_params: tracker_result.params,
+            output_bits: tracker_result.bit_outputs,
             additional_nodes_and_wires: AdditionalNodesAndWires {
                 extra_subgraph,
                 extra_subgraph_params,
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index cbca055..0ee52f4 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -187,6 +187,8 @@ pub struct ValueTrackerResult {
     pub bits: Vec<RegisterUnit>,
     /// The final list of parameter expressions at the output.
     pub params: Vec<String>,
+    /// The bit registers in the order they appear at the output.
+    pub bit_outputs: Vec<RegisterUnit>,
     /// The implicit permutation of the qubit registers.
     pub qubit_permutation: Vec<circuit_json::ImplicitPermutation>,
     /// A list of parameter variables seen at the input node of the region.
@@ -490,6 +492,7 @@ impl<N: HugrNode> ValueTracker<N> {
             qubits: self.qubits,
             bits: self.bits,
             params: param_outputs,
+            bit_outputs,
             qubit_permutation,
             input_params: self.input_params,
             straight_through_wires,
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..822f8d0 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -86,7 +86,7 @@ impl PytketDecoder for CoreDecoder {
                     decoder.opaque_subgraphs,
                 )?;
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
-                let internal = nested_decoder.finish(&[])?.node();
+                let internal = nested_decoder.finish(&[], &[])?.node();
 
                 decoder
                     .wire_up_node(internal, qubits, qubits, bits, bits, params)
-- 
2.43.0


From a67638314f39fe467d9a925ad29d5739b34338e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 44/83] fix: encode the output position of boolean operations

The output of the classical expression was declared to be its first
input bit, but the command writes to the bits after the inputs, where the
decoder looks for them too.
---
 tket/src/serialize/pytket/extension/bool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..240eeec 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,8 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        // The output bits follow the input bits in the arguments list.
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
-- 
2.43.0


From 65430b2b3ccdce2eae98b5c56be636833c94afec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 45/83] fix: let pytket commands read the same bit more than
 once

The decoder marked the input bits of every operation as consumed, so a
circuit that reads a bit in two commands was rejected. Only bits carried
by linear wires are consumed.
---
 tket/src/serialize/pytket/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 7f5d91c..57706a1 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -725,9 +725,13 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
+        // Reading a bit does not change it, but linear wires are consumed.
+        for wire in input_wires.iter_values().filter(|w| !w.ty().copyable()) {
+            let bits = wire.bits(self).collect_vec();
+            for bit in bits {
+                self.wire_tracker.mark_bit_outdated(bit);
+            }
+        }
 
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
-- 
2.43.0


From 2da714a4e08e630f7c262f79d6374865c4c66e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 46/83] fix: use the encoded input parameter names when
 reassembling a circuit

The parameters of a standalone circuit were associated with the inputs
in the order they are first used in the commands.
---
 tket/src/serialize/pytket/circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index f9977d7..ea6d284 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -369,6 +369,11 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
             );
         };
 
+        let options = match options.input_params.is_empty() {
+            true => options.with_input_params(encoded.input_params.iter().cloned()),
+            false => options,
+        };
+
         let mut hugr = Hugr::new();
         let target = DecodeInsertionTarget::Function { fn_name };
 
-- 
2.43.0


From 8c6258d4c85053e74842da88a025bab586f1ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 47/83] fix: write the output bits of opaque pytket subgraphs
 to fresh registers

The outputs of an opaque subgraph replaced its first input bits, although
other commands and outputs may still read them. The outputs now follow
the inputs in the arguments, and reading a bit no longer consumes it.
---
 tket/src/serialize/pytket/decoder/subgraph.rs | 54 ++++++++++++++++---
 tket/src/serialize/pytket/encoder.rs          |  5 +-
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 50fdc75..814941c 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -11,6 +11,7 @@ use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 
+use crate::serialize::pytket::decoder::wires::WireData;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, FoundWire, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
@@ -41,17 +42,40 @@ impl<'h> PytketDecoderContext<'h> {
             } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
         }?;
 
-        // Mark the used qubits and bits as outdated.
+        // Mark the used qubits as outdated.
         qubits.iter().for_each(|q| {
             self.wire_tracker.mark_qubit_outdated(q.clone());
         });
-        bits.iter().for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
 
         Ok(status)
     }
 
+    /// Returns the bit arguments of an opaque subgraph that are written by it.
+    ///
+    /// These are the arguments that follow the bits read by the subgraph's inputs.
+    fn subgraph_output_bits<'a, 'ty>(
+        &self,
+        input_types: impl Iterator<Item = &'ty Type>,
+        bits: &'a [TrackedBit],
+    ) -> &'a [TrackedBit] {
+        let input_bits: usize = input_types
+            .filter_map(|ty| self.config().type_to_pytket(ty))
+            .map(|count| count.bits)
+            .sum();
+        bits.get(input_bits..).unwrap_or_default()
+    }
+
+    /// Mark the bits in a wire consumed by a subgraph as outdated, if the wire
+    /// cannot be copied.
+    fn consume_linear_bits(&mut self, wire: &WireData) {
+        if wire.ty().copyable() {
+            return;
+        }
+        for bit in wire.bits(self).collect_vec() {
+            self.wire_tracker.mark_bit_outdated(bit);
+        }
+    }
+
     /// Move the subgraph nodes referenced by an
     /// [`OpaqueSubgraphPayload::External`] into the region being decoded.
     pub(in crate::serialize::pytket) fn insert_external_subgraph(
@@ -81,7 +105,14 @@ impl<'h> PytketDecoderContext<'h> {
             subgraph, qubits, bits, params, old_parent, new_parent,
         )?;
 
-        self.rewire_external_subgraph_outputs(subgraph, qubits, bits, old_parent, new_parent)?;
+        let output_bits = self.subgraph_output_bits(subgraph.signature().input().iter(), bits);
+        self.rewire_external_subgraph_outputs(
+            subgraph,
+            qubits,
+            output_bits,
+            old_parent,
+            new_parent,
+        )?;
 
         Ok(DecodeStatus::Success)
     }
@@ -119,7 +150,10 @@ impl<'h> PytketDecoderContext<'h> {
             )?;
 
             let wire = match found_wire {
-                FoundWire::Register(wire_data) => wire_data.wire(),
+                FoundWire::Register(wire_data) => {
+                    self.consume_linear_bits(&wire_data);
+                    wire_data.wire()
+                }
                 FoundWire::Parameter(param) => param.wire(),
                 FoundWire::Unsupported { .. } => {
                     // Input port with an unsupported type.
@@ -324,9 +358,10 @@ impl<'h> PytketDecoderContext<'h> {
             &insertion_result,
         )?;
 
+        let output_bits = self.subgraph_output_bits(payload_inputs.iter().map(|(ty, _)| ty), bits);
         self.wire_inline_subgraph_outputs(
             qubits,
-            bits,
+            output_bits,
             payload_outputs,
             to_insert_outputs,
             &insertion_result,
@@ -365,7 +400,10 @@ impl<'h> PytketDecoderContext<'h> {
             )?;
 
             let wire = match found_wire {
-                FoundWire::Register(wire_data) => wire_data.wire(),
+                FoundWire::Register(wire_data) => {
+                    self.consume_linear_bits(&wire_data);
+                    wire_data.wire()
+                }
                 FoundWire::Parameter(param) => param.wire(),
                 FoundWire::Unsupported { id } => {
                     let targets = targets
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index e077346..36afa6d 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -624,9 +624,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // back to the encoded subcircuit's function name.
         let mut out_param_count = 0;
         let input_qubits = op_values.qubits.clone();
-        let input_bits = op_values.bits.clone();
         let mut out_qubits = input_qubits.as_slice();
-        let mut out_bits = input_bits.as_slice();
+        // Input bits may have other users, so the outputs always use fresh bits.
+        // These follow the input bits in the command's arguments.
+        let mut out_bits: &[TrackedBit] = &[];
 
         for ((out_node, out_port), ty) in subgraph
             .outgoing_ports()
-- 
2.43.0


From 64610ca48f4994070e4e47a985b114b0f140396d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 48/83] fix: keep the edges inside an opaque subgraph when
 reassembling

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 814941c..fdcd430 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -219,8 +219,19 @@ impl<'h> PytketDecoderContext<'h> {
                 // This port declares new outputs to be tracked by the decoder.
                 // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
 
-                // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
+                // Make sure to disconnect the old wire from the rest of the
+                // region. Edges inside the subgraph are kept.
+                for (tgt, tgt_port) in self
+                    .builder
+                    .hugr()
+                    .linked_inputs(*src, *src_port)
+                    .collect_vec()
+                {
+                    let is_local = self.builder.hugr().get_parent(tgt) == Some(old_parent);
+                    if is_local {
+                        self.builder.hugr_mut().disconnect(tgt, tgt_port);
+                    }
+                }
 
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
-- 
2.43.0


From 729834c3123215fec5cd986c478065ef0a05ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:37 +0000
Subject: [PATCH 49/83] fix: connect the parameters computed by opaque pytket
 subgraphs

---
 tket/src/serialize/pytket/decoder.rs          | 24 +++++++++++--------
 tket/src/serialize/pytket/decoder/subgraph.rs | 22 ++++++++++++++++-
 tket/src/serialize/pytket/decoder/wires.rs    | 21 ++++++++++++++++
 tket/src/serialize/pytket/encoder.rs          | 12 ++++------
 tket/src/serialize/pytket/opaque/payload.rs   |  6 +++++
 5 files changed, 67 insertions(+), 18 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 57706a1..68b1a7f 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -357,6 +357,10 @@ impl<'h> PytketDecoderContext<'h> {
             // (It's a wire from an unsupported operation, or was a connected
             // straight through wire)
             if self.builder.hugr().is_linked(output_node, port) {
+                if [float64_type(), rotation_type()].contains(ty) {
+                    // The parameter was computed by an unsupported operation.
+                    params = params.get(1..).unwrap_or_default();
+                }
                 continue;
             }
 
@@ -402,16 +406,16 @@ impl<'h> PytketDecoderContext<'h> {
                     param.with_type(param_ty, &mut self.builder).wire()
                 }
                 FoundWire::Unsupported { .. } => {
-                    // Disconnected port with an unsupported type. We just skip
-                    // it, since it must have been disconnected in the original
-                    // hugr too.
-                    debug_assert!(self
-                        .builder
-                        .hugr()
-                        .get_optype(output_node)
-                        .port_kind(port)
-                        .is_none_or(|kind| !kind.is_value()));
-                    continue;
+                    // The pytket circuit does not define the value of outputs
+                    // with unsupported types.
+                    return Err(PytketDecodeErrorInner::InvalidOutputSignature {
+                        expected_types: expected_output_types
+                            .iter()
+                            .map(ToString::to_string)
+                            .collect(),
+                    }
+                    .wrap()
+                    .hugr_op("Output"));
                 }
             };
             self.builder
diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index fdcd430..cde22b6 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -154,7 +154,21 @@ impl<'h> PytketDecoderContext<'h> {
                     self.consume_linear_bits(&wire_data);
                     wire_data.wire()
                 }
-                FoundWire::Parameter(param) => param.wire(),
+                FoundWire::Parameter(param) => {
+                    // If the parameter is computed by another opaque subgraph,
+                    // the port is still connected to it.
+                    let is_connected = self
+                        .builder
+                        .hugr()
+                        .single_linked_output(*tgt_node, *tgt_port)
+                        .is_some_and(|(neigh, _)| {
+                            self.builder.hugr().get_parent(neigh) == Some(new_parent)
+                        });
+                    if is_connected {
+                        continue;
+                    }
+                    param.wire()
+                }
                 FoundWire::Unsupported { .. } => {
                     // Input port with an unsupported type.
                     let Some((neigh, neigh_port)) = self
@@ -250,6 +264,10 @@ impl<'h> PytketDecoderContext<'h> {
                     wire_bits.unwrap().iter().cloned(),
                 )?;
             } else {
+                let edge_id = EncodedEdgeID::new(wire);
+                self.wire_tracker
+                    .register_subgraph_parameter(edge_id, ty, wire);
+
                 // This is an unsupported wire. If it was connected to the old
                 // region's output, rewire it to the new region's output.
                 // Otherwise leave it connected.
@@ -482,6 +500,8 @@ impl<'h> PytketDecoderContext<'h> {
                     )?;
                 }
                 None => {
+                    self.wire_tracker
+                        .register_subgraph_parameter(*edge_id, ty, wire);
                     // This is an unsupported wire, so we let the wire tracker manage the connections.
                     self.wire_tracker.connect_unsupported_wire_source(
                         *edge_id,
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index bbbec4d..ffce111 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1058,6 +1058,27 @@ impl WireTracker {
         Ok(())
     }
 
+    /// Track a parameter computed by an opaque subgraph.
+    ///
+    /// Later commands may refer to it using the edge's
+    /// [`EncodedEdgeID::parameter_name`]. Does nothing if `ty` is not the type of a
+    /// parameter.
+    pub(super) fn register_subgraph_parameter(
+        &mut self,
+        id: EncodedEdgeID,
+        ty: &Type,
+        wire: Wire,
+    ) {
+        let loaded = if ty == &rotation_type() {
+            LoadedParameter::rotation(wire)
+        } else if ty == &float64_type() {
+            LoadedParameter::float_half_turns(wire)
+        } else {
+            return;
+        };
+        self.parameters.insert(id.parameter_name(), loaded);
+    }
+
     /// Track a parameter input to the region for which we don't have a variable name yet.
     pub(super) fn register_unused_parameter_input(&mut self, loaded: LoadedParameter) {
         self.unused_parameter_inputs.push_back(loaded);
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 36afa6d..2cd25d8 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{EncodedEdgeID, OpaqueSubgraph, OpaqueSubgraphPayload};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -620,9 +620,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // Update the values in the node's outputs, and extend `op_values` with
         // any new output values.
         //
-        // Output parameters are mapped to a fresh variable, that can be tracked
-        // back to the encoded subcircuit's function name.
-        let mut out_param_count = 0;
+        // Output parameters are mapped to a fresh variable named after the wire,
+        // which the decoder can trace back to the subgraph's output.
         let input_qubits = op_values.qubits.clone();
         let mut out_qubits = input_qubits.as_slice();
         // Input bits may have other users, so the outputs always use fresh bits.
@@ -646,9 +645,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 &mut out_bits,
                 &input_param_exprs,
                 |p| {
-                    let range = out_param_count..out_param_count + p.expected_count;
-                    out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    let edge = EncodedEdgeID::new(Wire::new(*out_node, *out_port));
+                    vec![edge.parameter_name(); p.expected_count]
                 },
             )?;
             op_values.append(new_outputs);
diff --git a/tket/src/serialize/pytket/opaque/payload.rs b/tket/src/serialize/pytket/opaque/payload.rs
index 5794f33..45daad2 100644
--- a/tket/src/serialize/pytket/opaque/payload.rs
+++ b/tket/src/serialize/pytket/opaque/payload.rs
@@ -60,6 +60,12 @@ impl EncodedEdgeID {
         let hash = fxhash::hash64(&wire);
         Self(hash)
     }
+
+    /// Name of the pytket variable used to reference a parameter computed by an
+    /// opaque subgraph and carried by this edge.
+    pub(in crate::serialize::pytket) fn parameter_name(&self) -> String {
+        format!("opaque_{:016x}", self.0)
+    }
 }
 
 /// Payload for a pytket barrier metadata that indicates the barrier represents
-- 
2.43.0


From 545c3e6ed5849f81c59562d0c5c333e1adcd7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 50/83] fix: keep the identity of pytket qubits and bits
 initialised on first use

---
 tket/src/serialize/pytket/decoder/wires.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index ffce111..4baa7be 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1152,7 +1152,16 @@ impl WireTracker {
             .add_dataflow_op(TketOp::QAlloc, [])
             .unwrap()
             .out_wire(0);
-        self.track_wire(wire, qubit.ty(), [qubit], [])?;
+        // This is still the same tracked element. Any references to it must see
+        // that it has been initialized.
+        self.qubit_wires[&qubit.id()].push(wire);
+        let wire_data = WireData {
+            wire,
+            ty: qubit.ty(),
+            qubits: vec![qubit.id()],
+            bits: vec![],
+        };
+        self.wires.insert(wire, wire_data);
         Ok(wire)
     }
 
@@ -1166,7 +1175,14 @@ impl WireTracker {
         bit: TrackedBit,
     ) -> Result<Wire, PytketDecodeError> {
         let wire = builder.add_load_const(Value::false_val());
-        self.track_wire(wire, bit.ty(), [], [bit])?;
+        self.bit_wires[&bit.id()].push(wire);
+        let wire_data = WireData {
+            wire,
+            ty: bit.ty(),
+            qubits: vec![],
+            bits: vec![bit.id()],
+        };
+        self.wires.insert(wire, wire_data);
         Ok(wire)
     }
 }
-- 
2.43.0


From 7cd8e34ec5a37c80eafbbcada934303d18249398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 51/83] fix: do not replace pytket registers with fresh ones
 when their type does not match

---
 tket/src/serialize/pytket/decoder/wires.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 4baa7be..6c10817 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -725,10 +725,21 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() && !qubit_args.is_empty() => {
+            //
+            // Registers that already have a value, but not with the required
+            // type, are never overwritten with a fresh one.
+            _ if ty == &qb_t()
+                && qubit_args
+                    .first()
+                    .is_some_and(|q| self.qubit_wires[&q.id()].is_empty()) =>
+            {
                 self.initialize_qubit_wire(builder, qubit_args[0].clone())?
             }
-            _ if (ty == &bool_t() || ty == &bool_type()) && !bit_args.is_empty() => {
+            _ if (ty == &bool_t() || ty == &bool_type())
+                && bit_args
+                    .first()
+                    .is_some_and(|b| self.bit_wires[&b.id()].is_empty()) =>
+            {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
             _ => {
-- 
2.43.0


From ba5d4ea4333f7c209d18ac0aa4b680bc40db634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 52/83] fix: do not use region inputs as pytket registers for
 false constants

---
 .../serialize/pytket/config/encoder_config.rs |  2 +-
 .../serialize/pytket/encoder/value_tracker.rs | 25 +++++++++++++++++++
 tket/src/serialize/pytket/extension/bool.rs   |  2 +-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..6952828 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -121,7 +121,7 @@ impl<H: HugrView> PytketEncoderConfig<H> {
             match value {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
-                        let new_bit = encoder.values.new_bit();
+                        let new_bit = encoder.values.new_false_bit();
                         if value == &Value::true_val() {
                             let op = set_bits_op(&[true]);
                             encoder.emit_command(op, &[], &[new_bit], None);
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 0ee52f4..b5f5356 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -62,6 +62,10 @@ pub struct ValueTracker<N> {
     /// We draw names from here when a new bit name is needed, before
     /// resorting to the `bit_reg_generator`.
     unused_bits: BTreeSet<TrackedBit>,
+    /// Number of bits in `bits` that hold values from the region's input.
+    ///
+    /// These are always the first ones.
+    num_input_bits: usize,
 
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
@@ -224,6 +228,7 @@ impl<N: HugrNode> ValueTracker<N> {
             wires: BTreeMap::new(),
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
+            num_input_bits: 0,
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -271,6 +276,7 @@ impl<N: HugrNode> ValueTracker<N> {
             }
             for _ in 0..count.bits {
                 let bit = tracker.new_bit();
+                tracker.num_input_bits += 1;
                 wire_values.push(TrackedValue::Bit(bit));
             }
             for _ in 0..count.params {
@@ -318,6 +324,25 @@ impl<N: HugrNode> ValueTracker<N> {
         })
     }
 
+    /// Create a new bit register name, for a bit that is initially `false`.
+    ///
+    /// In contrast to [`ValueTracker::new_bit`], this never reuses registers
+    /// holding a value from the region's input.
+    pub fn new_false_bit(&mut self) -> TrackedBit {
+        let first_non_input = TrackedBit(self.num_input_bits);
+        let unused = self.unused_bits.range(first_non_input..).next().copied();
+        match unused {
+            Some(bit) => {
+                self.unused_bits.remove(&bit);
+                bit
+            }
+            None => {
+                self.bits.push(self.bit_reg_generator.next());
+                TrackedBit(self.bits.len() - 1)
+            }
+        }
+    }
+
     /// Register a new parameter string expression.
     ///
     /// Returns a unique identifier for the expression.
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 240eeec..71b1b26 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -82,7 +82,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
             return Ok(None);
         };
 
-        let new_bit = encoder.values.new_bit();
+        let new_bit = encoder.values.new_false_bit();
         if const_b.value() {
             let op = set_bits_op(&[true]);
             encoder.emit_command(op, &[], &[new_bit], None);
-- 
2.43.0


From b6647f77144996d1f7c4d80aad88dcd6f4ea730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 53/83] fix: encode all the bits of tuple constants to pytket

---
 tket/src/serialize/pytket/config/encoder_config.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index 6952828..0ab5627 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -126,12 +126,14 @@ impl<H: HugrView> PytketEncoderConfig<H> {
                             let op = set_bits_op(&[true]);
                             encoder.emit_command(op, &[], &[new_bit], None);
                         }
-                        return Ok(Some(TrackedValues::new_bits([new_bit])));
-                    }
-                    if sum.sum_type.as_tuple().is_some() {
-                        for v in sum.values.iter() {
-                            queue.push_back(v);
+                        values.append(TrackedValues::new_bits([new_bit]));
+                    } else if sum.sum_type.as_tuple().is_some() {
+                        // Visit the tuple elements in order, before any other value.
+                        for v in sum.values.iter().rev() {
+                            queue.push_front(v);
                         }
+                    } else {
+                        return Ok(None);
                     }
                 }
                 Value::Extension { e: opaque } => {
-- 
2.43.0


From 6b9abb53cb456d8ddf52800234c85452b8e42757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 54/83] fix: order the parameters of leftover nodes as the
 pytket decoder expects

---
 tket/src/serialize/pytket/encoder.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 2cd25d8..c479c93 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -20,7 +20,7 @@ use std::collections::{BTreeSet, HashMap};
 use std::ops::RangeTo;
 use std::sync::{Arc, RwLock};
 
-use hugr::{Direction, HugrView, OutgoingPort, Wire};
+use hugr::{Direction, HugrView, IncomingPort, OutgoingPort, Wire};
 use itertools::Itertools;
 use tket_json_rs::circuit_json::{self, SerialCircuit};
 use unsupported_tracker::UnsupportedTracker;
@@ -225,7 +225,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ) -> Result<(EncodedCircuitInfo, OpaqueSubgraphs<H::Node>), PytketEncodeError<H::Node>> {
         // Add any remaining unsupported nodes
         let mut extra_subgraph: Option<BTreeSet<H::Node>> = None;
-        let mut extra_subgraph_params = Vec::new();
+        let mut extra_params: HashMap<(H::Node, IncomingPort), Vec<String>> = HashMap::new();
         while !self.unsupported.is_empty() {
             let node = self.unsupported.iter().next().unwrap();
             let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
@@ -237,14 +237,24 @@ impl<H: HugrView> PytketEncoderContext<H> {
                     extra_subgraph
                         .get_or_insert_default()
                         .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
+                    let mut params = params.into_iter();
+                    let input_types = opaque_subgraphs.signature().input().iter();
+                    for (port, ty) in opaque_subgraphs.incoming_ports().iter().zip(input_types) {
+                        let count = self.config().type_to_pytket(ty).unwrap_or_default().params;
+                        extra_params.insert(*port, params.by_ref().take(count).collect());
+                    }
                 }
                 Err(e) => return Err(e),
             }
         }
+        let mut extra_subgraph_params = Vec::new();
         let extra_subgraph = extra_subgraph
             .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
                 let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
+                // The decoder expects the parameters in the order of the input ports.
+                for port in subgraph.incoming_ports() {
+                    extra_subgraph_params.extend(extra_params.remove(port).unwrap_or_default());
+                }
                 Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
             })
             .transpose()?;
-- 
2.43.0


From fd12250046dd72322dd7f52eb594173745f006c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 55/83] fix: report operations that cannot be part of a
 stand-alone pytket circuit

---
 tket/src/serialize/pytket/circuit.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index ea6d284..546dee3 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -417,6 +417,17 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         }
 
         for encoded in self.circuits.values_mut() {
+            // Nodes that are not attached to a command are not part of the
+            // pytket circuit.
+            if let Some(id) = encoded.additional_nodes_and_wires.extra_subgraph {
+                let nodes = self.opaque_subgraphs.get(id).map(|s| s.nodes().clone());
+                return Err(
+                    crate::serialize::pytket::PytketEncodeOpError::UnsupportedStandaloneSubgraph {
+                        nodes: nodes.into_iter().flatten().collect(),
+                    }
+                    .into(),
+                );
+            }
             make_commands_standalone(
                 &mut encoded.serial_circuit.commands,
                 &self.opaque_subgraphs,
-- 
2.43.0


From 327f8078ca8e76df374d49a776c570620e3e8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 56/83] fix: keep operations on futures that cannot be encoded
 to pytket

---
 tket-qsystem/src/pytket/futures.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tket-qsystem/src/pytket/futures.rs b/tket-qsystem/src/pytket/futures.rs
index b687493..7a8cf79 100644
--- a/tket-qsystem/src/pytket/futures.rs
+++ b/tket-qsystem/src/pytket/futures.rs
@@ -39,6 +39,13 @@ impl<H: HugrView> PytketEmitter<H> for FutureEmitter {
             return Ok(EncodeStatus::Unsupported);
         };
 
+        // Futures of types that cannot be encoded are not tracked by the encoder.
+        let signature = circ.hugr().signature(node).unwrap_or_default();
+        let is_tracked = |ty| encoder.config().type_to_pytket(ty).is_some();
+        if !signature.input_types().iter().all(is_tracked) {
+            return Ok(EncodeStatus::Unsupported);
+        }
+
         match rot_op {
             FutureOpDef::Read => {
                 // Transparent map
-- 
2.43.0


From 613113b38a871089c1da4539ec2c6a9261d3f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 57/83] fix: report linear values discarded by decoded pytket
 circuits

---
 tket/src/serialize/pytket/decoder.rs       |  2 ++
 tket/src/serialize/pytket/decoder/wires.rs | 26 ++++++++++++++++------
 tket/src/serialize/pytket/error.rs         |  6 +++++
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 68b1a7f..09e7614 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -425,6 +425,8 @@ impl<'h> PytketDecoderContext<'h> {
 
         // Qubits not in the output need to be freed.
         self.add_implicit_qfree_operations(qubits);
+        self.wire_tracker
+            .check_linear_wires_are_used(self.builder.hugr())?;
 
         // Store the name for the input parameter wires
         let input_params = self.wire_tracker.finish();
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 6c10817..f49bb5e 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -9,7 +9,7 @@ use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::Value;
 use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
 use hugr::types::Type;
-use hugr::{Hugr, IncomingPort, Node, Wire};
+use hugr::{Hugr, HugrView, IncomingPort, Node, Wire};
 use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
 use tket_json_rs::circuit_json::ImplicitPermutation;
@@ -472,6 +472,23 @@ impl WireTracker {
             .map(|(_, &elem_id)| self.get_bit(elem_id))
     }
 
+    /// Check that no tracked wire with a linear type has been left unconnected.
+    ///
+    /// Should be called after all unused qubits have been freed.
+    pub(super) fn check_linear_wires_are_used(&self, hugr: &Hugr) -> Result<(), PytketDecodeError> {
+        let unused = self
+            .wires
+            .iter()
+            .find(|(w, data)| !data.ty().copyable() && !hugr.is_linked(w.node(), w.source()));
+        match unused {
+            Some((_, data)) => Err(PytketDecodeErrorInner::UnusedLinearValue {
+                ty: data.ty().to_string(),
+            }
+            .wrap()),
+            None => Ok(()),
+        }
+    }
+
     /// Track a new pytket qubit register.
     ///
     /// If the pytket register was already in the tracker,
@@ -1074,12 +1091,7 @@ impl WireTracker {
     /// Later commands may refer to it using the edge's
     /// [`EncodedEdgeID::parameter_name`]. Does nothing if `ty` is not the type of a
     /// parameter.
-    pub(super) fn register_subgraph_parameter(
-        &mut self,
-        id: EncodedEdgeID,
-        ty: &Type,
-        wire: Wire,
-    ) {
+    pub(super) fn register_subgraph_parameter(&mut self, id: EncodedEdgeID, ty: &Type, wire: Wire) {
         let loaded = if ty == &rotation_type() {
             LoadedParameter::rotation(wire)
         } else if ty == &float64_type() {
diff --git a/tket/src/serialize/pytket/error.rs b/tket/src/serialize/pytket/error.rs
index 26d1fc3..bb4f57b 100644
--- a/tket/src/serialize/pytket/error.rs
+++ b/tket/src/serialize/pytket/error.rs
@@ -245,6 +245,12 @@ pub enum PytketDecodeErrorInner {
         /// The expected types of the input wires.
         expected_types: Vec<String>,
     },
+    /// The pytket circuit discards a value of a linear type.
+    #[display("The pytket circuit discards a value of linear type {ty}")]
+    UnusedLinearValue {
+        /// The type of the discarded value.
+        ty: String,
+    },
     /// A pytket operation had some input registers that couldn't be mapped to hugr wires.
     //
     // Some of this errors will be avoided in the future once we are able to decompose complex types automatically.
-- 
2.43.0


From 04064cbe0344100f7157e6ee748e6b6839b16493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 58/83] fix: give each pytket region input its own register

---
 tket/src/serialize/pytket/encoder/value_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index b5f5356..378dffd 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -248,6 +248,7 @@ impl<N: HugrNode> ValueTracker<N> {
         );
 
         // Register the circuit's inputs with the tracker.
+        let mut unread_bits = Vec::new();
         let region_optype = circ.hugr().get_optype(region);
         let signature = region_optype.inner_function_type().ok_or_else(|| {
             let optype = circ.hugr().get_optype(region).to_string();
@@ -293,11 +294,12 @@ impl<N: HugrNode> ValueTracker<N> {
             if !circ.hugr().is_linked(inp_node, port) {
                 for value in wire_values {
                     if let TrackedValue::Bit(bit) = value {
-                        tracker.unused_bits.insert(bit);
+                        unread_bits.push(bit);
                     }
                 }
             }
         }
+        tracker.unused_bits.extend(unread_bits);
 
         Ok(tracker)
     }
-- 
2.43.0


From 95cbe8c4baf67e09571d936551689f04391212d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 59/83] fix: parenthesise qsystem angles converted to
 half-turns

---
 tket-qsystem/src/pytket/qsystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..849b04d 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -88,7 +88,7 @@ impl QSystemEmitter {
             for param in inputs.params.to_mut() {
                 *param = match param.strip_suffix(") * (pi)") {
                     Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                    _ => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
-- 
2.43.0


From 968a18ac7ce93360e5041d7c9e280f71cd6debbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 60/83] fix: keep constants used in nested regions when
 encoding to pytket

---
 tket/src/serialize/pytket/encoder.rs | 36 +++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index c479c93..a3aac82 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -899,10 +899,13 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 //
                 // Otherwise, if we're loading an unsupported type, this node
                 // should be part of an unsupported subgraph.
+                //
+                // Constants used inside nested regions have to stay in the HUGR.
                 if self
                     .config()
                     .type_to_pytket(constant.constant_type())
                     .is_some()
+                    && !loads_nonlocal_constant(node, circ)
                 {
                     self.emit_transparent_node(node, circ, |ps| ps.input_params.to_owned())?;
                     return Ok(EncodeStatus::Success);
@@ -910,7 +913,12 @@ impl<H: HugrView> PytketEncoderContext<H> {
             }
             OpType::Const(op) => {
                 let config = Arc::clone(&self.config);
-                if self.config().type_to_pytket(&op.get_type()).is_some() {
+                let loads_are_supported = circ
+                    .hugr()
+                    .output_neighbours(node)
+                    .filter(|&load| circ.hugr().get_parent(load) == circ.hugr().get_parent(node))
+                    .all(|load| !has_nonlocal_uses(load, circ));
+                if loads_are_supported && self.config().type_to_pytket(&op.get_type()).is_some() {
                     if let Some(values) = config.const_to_pytket(&op.value, self)? {
                         let wire = Wire::new(node, 0);
                         self.values.register_wire(wire, values.into_iter(), circ)?;
@@ -1497,6 +1505,32 @@ pub fn make_tk1_classical_expression(
     op
 }
 
+/// Returns `true` if a constant loaded by the node is used in a nested region.
+///
+/// Constants in the same region are either encoded together with all the nodes
+/// that load them, or not at all.
+fn loads_nonlocal_constant<H: HugrView>(node: H::Node, circ: &Circuit<H>) -> bool {
+    let hugr = circ.hugr();
+    let parent = hugr.get_parent(node);
+    has_nonlocal_uses(node, circ)
+        || hugr
+            .static_source(node)
+            .filter(|&constant| hugr.get_parent(constant) == parent)
+            .into_iter()
+            .flat_map(|constant| hugr.output_neighbours(constant))
+            .filter(|&load| hugr.get_parent(load) == parent)
+            .any(|load| has_nonlocal_uses(load, circ))
+}
+
+/// Returns `true` if any value produced by the node is used in a nested region.
+fn has_nonlocal_uses<H: HugrView>(node: H::Node, circ: &Circuit<H>) -> bool {
+    let hugr = circ.hugr();
+    let parent = hugr.get_parent(node);
+    hugr.out_value_types(node)
+        .flat_map(|(port, _)| hugr.linked_inputs(node, port))
+        .any(|(target, _)| hugr.get_parent(target) != parent)
+}
+
 // TODO: Replace with array's `split_off` method once MSRV is ≥1.87
 fn split_off<'a, T>(slice: &mut &'a [T], range: RangeTo<usize>) -> Option<&'a [T]> {
     let split_index = range.end;
-- 
2.43.0


From a553ea30671e73ca34c8b22e503dd360ee6a1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 61/83] fix: report undefined and discarded opaque values of
 decoded pytket circuits

---
 tket/src/serialize/pytket/decoder.rs       |  2 +-
 tket/src/serialize/pytket/decoder/wires.rs | 43 ++++++++++++++++++----
 tket/src/serialize/pytket/error.rs         |  8 ++++
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 09e7614..21b1f7d 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -426,7 +426,7 @@ impl<'h> PytketDecoderContext<'h> {
         // Qubits not in the output need to be freed.
         self.add_implicit_qfree_operations(qubits);
         self.wire_tracker
-            .check_linear_wires_are_used(self.builder.hugr())?;
+            .check_wires_are_connected(self.builder.hugr(), self.builder.io()[0])?;
 
         // Store the name for the input parameter wires
         let input_params = self.wire_tracker.finish();
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index f49bb5e..7e6ba1b 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -8,7 +8,7 @@ use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::Value;
 use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
-use hugr::types::Type;
+use hugr::types::{EdgeKind, Type};
 use hugr::{Hugr, HugrView, IncomingPort, Node, Wire};
 use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
@@ -472,19 +472,46 @@ impl WireTracker {
             .map(|(_, &elem_id)| self.get_bit(elem_id))
     }
 
-    /// Check that no tracked wire with a linear type has been left unconnected.
+    /// Check that all the values used by opaque subgraphs were defined, and that
+    /// no wire with a linear type has been left unconnected.
     ///
     /// Should be called after all unused qubits have been freed.
-    pub(super) fn check_linear_wires_are_used(&self, hugr: &Hugr) -> Result<(), PytketDecodeError> {
+    pub(super) fn check_wires_are_connected(
+        &self,
+        hugr: &Hugr,
+        input_node: Node,
+    ) -> Result<(), PytketDecodeError> {
+        let mut opaque_wires = Vec::with_capacity(self.unsupported_wires.len());
+        for (id, state) in &self.unsupported_wires {
+            match state {
+                UnsupportedWireState::Associated(wire) => opaque_wires.push(*wire),
+                UnsupportedWireState::Pending(_) => {
+                    return Err(
+                        PytketDecodeErrorInner::UndefinedOpaqueWire { id: id.to_string() }.wrap(),
+                    );
+                }
+            }
+        }
+
+        let input_wires = hugr
+            .node_outputs(input_node)
+            .map(|port| Wire::new(input_node, port));
         let unused = self
             .wires
-            .iter()
-            .find(|(w, data)| !data.ty().copyable() && !hugr.is_linked(w.node(), w.source()));
+            .keys()
+            .copied()
+            .chain(opaque_wires)
+            .chain(input_wires)
+            .filter(|w| !hugr.is_linked(w.node(), w.source()))
+            .filter_map(|w| match hugr.get_optype(w.node()).port_kind(w.source())? {
+                EdgeKind::Value(ty) => Some(ty),
+                _ => None,
+            })
+            .find(|ty| !ty.copyable());
         match unused {
-            Some((_, data)) => Err(PytketDecodeErrorInner::UnusedLinearValue {
-                ty: data.ty().to_string(),
+            Some(ty) => {
+                Err(PytketDecodeErrorInner::UnusedLinearValue { ty: ty.to_string() }.wrap())
             }
-            .wrap()),
             None => Ok(()),
         }
     }
diff --git a/tket/src/serialize/pytket/error.rs b/tket/src/serialize/pytket/error.rs
index bb4f57b..097318b 100644
--- a/tket/src/serialize/pytket/error.rs
+++ b/tket/src/serialize/pytket/error.rs
@@ -251,6 +251,14 @@ pub enum PytketDecodeErrorInner {
         /// The type of the discarded value.
         ty: String,
     },
+    /// An opaque subgraph uses a value that is not defined in the pytket circuit.
+    #[display(
+        "An opaque subgraph uses the value {id}, which is not defined in the pytket circuit"
+    )]
+    UndefinedOpaqueWire {
+        /// The identifier of the value.
+        id: String,
+    },
     /// A pytket operation had some input registers that couldn't be mapped to hugr wires.
     //
     // Some of this errors will be avoided in the future once we are able to decompose complex types automatically.
-- 
2.43.0


From 4d5ac30b87fb54e2a19dcd72d07990ede8eb2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 62/83] fix: report opaque subgraphs that are not convex
 instead of panicking

---
 tket/src/serialize/pytket/opaque/subgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/opaque/subgraph.rs b/tket/src/serialize/pytket/opaque/subgraph.rs
index a001088..6369792 100644
--- a/tket/src/serialize/pytket/opaque/subgraph.rs
+++ b/tket/src/serialize/pytket/opaque/subgraph.rs
@@ -174,7 +174,7 @@ impl<N: HugrNode> OpaqueSubgraph<N> {
         hugr: &impl HugrView<Node = N>,
     ) -> Result<Hugr, InvalidSubgraph<N>> {
         let nodes = self.nodes().iter().cloned().collect_vec();
-        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr).unwrap();
+        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr)?;
         Ok(subgraph.extract_subgraph(hugr, ""))
     }
 }
-- 
2.43.0


From 8fdfc3e1d02951f70ede153b23000637ce489f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 63/83] fix: parse powers and negations in pytket parameters as
 python does

---
 .../serialize/pytket/decoder/param/param.pest | 20 ++++++++--------
 .../serialize/pytket/decoder/param/parser.rs  | 23 ++++++++++++-------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..b200478 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -10,12 +10,11 @@ ident = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_" )* }
 /// Alias for `ident`.
 variable = _{ ident }
 
-/// Explicit numeric constants.
+/// Explicit (unsigned) numeric constants.
 ///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -32,8 +31,11 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
-/// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+/// Unary negation.
+///
+/// As in python, it binds tighter than products but looser than powers: `-x**2`
+/// is `-(x**2)`. The rust parser defines its precedence.
+negate = { "-" }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
@@ -42,10 +44,10 @@ unary_minus = { "-" ~ term }
 /// If we used `term` directly, the expression `5-2` could be interpreted as `5 * (-2)`.
 implicit_multiply = { num ~ ("(" ~ expr ~ ")" | function_call | variable) }
 
-/// Expressions are sequences of terms and infix operators
-expr = { term ~ (infix_operator ~ term)* }
-/// A standalone term, with no infix operators at the root.
-term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | unary_minus | function_call | variable }
+/// Expressions are sequences of possibly negated terms and infix operators
+expr = { negate* ~ term ~ (infix_operator ~ negate* ~ term)* }
+/// A standalone term, with no operators at the root.
+term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | function_call | variable }
 
 /// Main entry point of the parser. Ensures we always parse the whole input.
 parameter = _{ SOI ~ expr ~ EOI }
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..caabd33 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -66,7 +66,9 @@ pub fn parse_pytket_param(param: &str) -> PytketParam<'_> {
 struct ParamParser;
 
 lazy_static::lazy_static! {
-    /// Precedence parser used to define the order of infix operations.
+    /// Precedence parser used to define the order of infix and prefix operations.
+    ///
+    /// The precedence and associativity are the same as in python.
     ///
     /// Based on the calculator example from `pest`.
     /// https://pest.rs/book/examples/calculator.html
@@ -79,18 +81,28 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            .op(Op::prefix(negate))
+            .op(Op::infix(power, Right))
     };
 }
 
 /// Parse a match of the [`Rule::expr`] rule.
 ///
-/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix operations.
+/// This takes a sequence of rule matches alternating (possibly negated)
+/// [`Rule::term`]s and infix operations.
 fn parse_infix_ops(pairs: Pairs<'_, Rule>) -> PytketParam<'_> {
     use ParameterType::*;
 
     PRATT_PARSER
         .map_primary(|primary| parse_term(primary))
+        .map_prefix(|_negate, arg| match arg {
+            PytketParam::Constant(c) => PytketParam::Constant(-c),
+            arg => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![arg],
+                param_ty: FloatHalfTurns,
+            },
+        })
         .map_infix(|lhs, op, rhs| {
             let (op, param_ty) = match op.as_rule() {
                 Rule::add => (RotationOp::radd.into(), Rotation),
@@ -126,11 +138,6 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
-        },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
             name: pair.as_str(),
-- 
2.43.0


From c5392fbdddd849b0a3bb8e3c6e76c1a19ee7a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 64/83] fix: keep pytket parameters that have no hugr
 counterpart as sympy expressions

---
 .../serialize/pytket/decoder/param/parser.rs  | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index caabd33..738e337 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -152,6 +152,10 @@ fn parse_number(pair: Pair<'_, Rule>) -> PytketParam<'_> {
     let half_turns = num
         .parse::<f64>()
         .unwrap_or_else(|_| panic!("`num` rule matched invalid number \"{num}\""));
+    if !half_turns.is_finite() {
+        // The number is too large to be represented as a constant.
+        return PytketParam::Sympy(num);
+    }
     PytketParam::Constant(half_turns)
 }
 
@@ -163,17 +167,21 @@ fn parse_function_call(pair: Pair<'_, Rule>) -> PytketParam<'_> {
         .next()
         .expect("Function call must have a name")
         .as_str();
-    let op = match name {
-        "max" => FloatOps::fmax.into(),
-        "min" => FloatOps::fmin.into(),
-        "abs" => FloatOps::fabs.into(),
-        "floor" => FloatOps::ffloor.into(),
-        "ceil" => FloatOps::fceil.into(),
-        "round" => FloatOps::fround.into(),
+    let (op, num_args) = match name {
+        "max" => (FloatOps::fmax.into(), 2),
+        "min" => (FloatOps::fmin.into(), 2),
+        "abs" => (FloatOps::fabs.into(), 1),
+        "floor" => (FloatOps::ffloor.into(), 1),
+        "ceil" => (FloatOps::fceil.into(), 1),
+        "round" => (FloatOps::fround.into(), 1),
         // Unrecognized function name.
         // Treat it as an opaque sympy expression.
         _ => return PytketParam::Sympy(pair_str),
     };
+    if args.len() != num_args {
+        // The hugr operations take a fixed number of arguments.
+        return PytketParam::Sympy(pair_str);
+    }
 
     let args = args.map(|arg| parse_term(arg)).collect::<Vec<_>>();
     PytketParam::Operation {
-- 
2.43.0


From b279d6c6cfbc034f40276369d57ae9860055e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 65/83] fix: only decode classical expressions that are a
 single operation on its bits

---
 tket/src/serialize/pytket/extension/bool.rs | 51 +++++++++++----------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 71b1b26..a8ac98c 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -128,31 +128,6 @@ impl PytketDecoder for BoolEmitter {
             return Ok(DecodeStatus::Unsupported);
         };
 
-        // We only decode classical expressions if their operands are the input
-        // bits in 0..n order, and the output comes immediately after.
-        //
-        // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
-            match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                _ => continue,
-            }
-        }
-
         let (op, num_inputs) = match clexpr.expr.op {
             ClOp::BitEq => (BoolOp::eq, 2),
             ClOp::BitNot => (BoolOp::not, 1),
@@ -162,6 +137,32 @@ impl PytketDecoder for BoolEmitter {
             _ => return Ok(DecodeStatus::Unsupported),
         };
 
+        // We only decode classical expressions if their operands are the input
+        // bits in 0..n order, and the output comes immediately after.
+        //
+        // This can be easily relaxed if needed.
+        let reads_bit = |arg: &ClArgument, pos: u32| match arg {
+            ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index })) => clexpr
+                .bit_posn
+                .iter()
+                .any(|(i, bit)| i == index && *bit == pos),
+            ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index })) => clexpr
+                .reg_posn
+                .iter()
+                .any(|reg| reg.index == *index && reg.bits.0 == [pos]),
+            // Constants and nested expressions.
+            _ => false,
+        };
+        if clexpr.expr.args.len() != num_inputs
+            || bits.len() != num_inputs + 1
+            || clexpr.output_posn.0 != [num_inputs as u32]
+            || !(0u32..)
+                .zip(&clexpr.expr.args)
+                .all(|(pos, arg)| reads_bit(arg, pos))
+        {
+            return Ok(DecodeStatus::Unsupported);
+        }
+
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-- 
2.43.0


From bfccb7af0e790630af95ffb764f52d8a2b462ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 66/83] fix: keep the bits of decoded pytket barriers

---
 tket/src/serialize/pytket/extension/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0cb75e1 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -158,7 +158,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From 2504590629f027772ac59b66c098e0c749b21196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 67/83] fix: encode opaque pytket operations in place on their
 bits and with their current parameters

---
 tket/src/serialize/pytket/encoder.rs          | 67 +++++++++++++++++++
 .../serialize/pytket/encoder/value_tracker.rs |  9 +++
 tket/src/serialize/pytket/extension/tk1.rs    | 25 ++++---
 3 files changed, 92 insertions(+), 9 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index a3aac82..07b3561 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -499,6 +499,73 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(())
     }
 
+    /// Helper to emit a pytket operation that updates its bits in place.
+    ///
+    /// Bits are copied to a fresh register first if their value is still needed
+    /// by another wire.
+    ///
+    /// ## Arguments
+    ///
+    /// - `node`: The HUGR node for which to emit the command. It must have the
+    ///   same number of qubit and bit inputs and outputs.
+    /// - `circ`: The circuit containing the node.
+    /// - `make_operation`: A function that returns the pytket operation given
+    ///   the number of qubits, bits, and the list of input parameter expressions.
+    pub(super) fn emit_inplace_node_command(
+        &mut self,
+        node: H::Node,
+        circ: &Circuit<H>,
+        make_operation: impl FnOnce(MakeOperationArgs<'_>) -> tket_json_rs::circuit_json::Operation,
+    ) -> Result<(), PytketEncodeError<H::Node>> {
+        let inputs = self.get_input_values(node, circ)?;
+        let params: Vec<String> = inputs
+            .params
+            .into_iter()
+            .map(|p| self.values.param_expression(p).to_owned())
+            .collect();
+
+        let mut bits: Vec<TrackedBit> = Vec::with_capacity(inputs.bits.len());
+        for bit in inputs.bits {
+            if !bits.contains(&bit) && !self.values.is_bit_in_use(bit) {
+                bits.push(bit);
+                continue;
+            }
+            let copy = self.values.new_bit();
+            let copy_op = make_tk1_classical_operation(
+                tket_json_rs::OpType::CopyBits,
+                2,
+                tket_json_rs::circuit_json::Classical::CopyBits { n_i: 1 },
+            );
+            self.emit_command(copy_op, &[], &[bit, copy], None);
+            bits.push(copy);
+        }
+
+        self.register_node_outputs(
+            node,
+            circ,
+            &inputs.qubits,
+            &bits,
+            &params,
+            EmitCommandOptions::new().reuse_all_bits(),
+            |_| true,
+        )?;
+
+        // Preserve the pytket opgroup, if it got stored in the metadata.
+        let opgroup: Option<String> = circ
+            .hugr()
+            .get_metadata(node, METADATA_OPGROUP)
+            .and_then(serde_json::Value::as_str)
+            .map(ToString::to_string);
+
+        let op = make_operation(MakeOperationArgs {
+            num_qubits: inputs.qubits.len(),
+            num_bits: bits.len(),
+            params: Cow::Borrowed(&params),
+        });
+        self.emit_command(op, &inputs.qubits, &bits, opgroup);
+        Ok(())
+    }
+
     /// Helper to emit a node that transparently forwards its inputs to its
     /// outputs, resulting in no pytket operation.
     ///
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 378dffd..5bc56f7 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -438,6 +438,15 @@ impl<N: HugrNode> ValueTracker<N> {
         Some(&values[..])
     }
 
+    /// Returns `true` if any wire that has not been fully explored yet refers to
+    /// the bit.
+    pub(super) fn is_bit_in_use(&self, bit: TrackedBit) -> bool {
+        self.wires
+            .values()
+            .filter_map(|wire| wire.values.as_ref())
+            .any(|values| values.contains(&TrackedValue::Bit(bit)))
+    }
+
     /// Unregister a wire.
     ///
     /// The qubit and bit registers of the wire are not made available to
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index 2cd84f6..c9d082e 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -5,7 +5,7 @@ use crate::extension::{TKET1_EXTENSION, TKET1_EXTENSION_ID, TKET1_OP_NAME};
 use crate::serialize::pytket::decoder::{
     LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
-use crate::serialize::pytket::encoder::{EmitCommandOptions, EncodeStatus};
+use crate::serialize::pytket::encoder::EncodeStatus;
 use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError, PytketEncoderContext};
 use crate::Circuit;
 
@@ -49,14 +49,21 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
         };
         let op: OpaqueTk1Op = serde_json::from_str(arg).map_err(PytketEncodeError::custom)?;
 
-        // Most operations map directly to a pytket one.
-        encoder.emit_node_command(
-            node,
-            circ,
-            EmitCommandOptions::new(),
-            // Emit the pre-defined pytket operation stored in the metadata.
-            move |_| op.serialised_op,
-        )?;
+        // Most operations map directly to a pytket one, acting in place on its
+        // qubits and bits.
+        encoder.emit_inplace_node_command(node, circ, move |args| {
+            // Emit the pre-defined pytket operation stored in the metadata, with
+            // the parameters given by the inputs of the node.
+            let mut pytket_op = op.serialised_op;
+            let params = pytket_op.params.iter_mut().flatten();
+            for (param, input) in params.zip(&op.param_inputs) {
+                let value = input.and_then(|port| args.params.get(port.index()));
+                if let Some(value) = value {
+                    param.clone_from(value);
+                }
+            }
+            pytket_op
+        })?;
 
         Ok(EncodeStatus::Success)
     }
-- 
2.43.0


From e4199c15e5bb3257778c833a46a878ddef2e2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 68/83] fix: handle partial and invalid qubit permutations of
 pytket circuits

---
 tket/src/serialize/pytket/decoder.rs       |  2 +-
 tket/src/serialize/pytket/decoder/wires.rs | 36 +++++++++++++++-------
 tket/src/serialize/pytket/extension/tk1.rs |  2 +-
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 21b1f7d..efb0434 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -286,7 +286,7 @@ impl<'h> PytketDecoderContext<'h> {
             wire_tracker.track_bit(b.pytket_register_arc(), Some(b.reg_hash()))?;
         }
 
-        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation);
+        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation)?;
 
         Ok(wire_tracker)
     }
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 7e6ba1b..ba10081 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1,6 +1,6 @@
 //! Structures to keep track of pytket [`ElementId`][tket_json_rs::register::ElementId]s and
 //! their correspondence to wires in the hugr being defined.
-use std::collections::{BTreeMap, VecDeque};
+use std::collections::VecDeque;
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
@@ -416,20 +416,34 @@ impl WireTracker {
     ///
     /// This is used to reorder the qubit registers at the output, according to
     /// pytket's implicit permutation.
-    pub(super) fn compute_output_permutation(&mut self, permutation: &Vec<ImplicitPermutation>) {
-        let mut reordered: BTreeMap<usize, usize> = BTreeMap::new();
-
-        let position = |id: &tket_json_rs::register::Qubit| {
-            let hash = RegisterHash::from(id);
-            self.latest_qubit_tracker.get_index_of(&hash).unwrap()
+    ///
+    /// Qubits that are not mentioned in the permutation are not moved.
+    ///
+    /// # Errors
+    ///
+    /// - If the permutation contains an unknown qubit register.
+    /// - If two registers are mapped to the same output.
+    pub(super) fn compute_output_permutation(
+        &mut self,
+        permutation: &[ImplicitPermutation],
+    ) -> Result<(), PytketDecodeError> {
+        let position = |qubit: &tket_json_rs::register::Qubit| {
+            self.latest_qubit_tracker
+                .get_index_of(&RegisterHash::from(qubit))
+                .ok_or_else(|| PytketDecodeError::unknown_qubit_reg(&qubit.id))
         };
 
+        let mut reordered = (0..self.latest_qubit_tracker.len()).collect_vec();
         for ImplicitPermutation(input, output) in permutation {
-            let input_pos = position(input);
-            let output_pos = position(output);
-            reordered.insert(output_pos, input_pos);
+            reordered[position(output)?] = position(input)?;
         }
-        self.output_qubit_permutation = reordered.values().copied().collect();
+        if !reordered.iter().all_unique() {
+            return Err(PytketDecodeError::custom(
+                "The implicit permutation maps the same qubit to multiple outputs.",
+            ));
+        }
+        self.output_qubit_permutation = reordered;
+        Ok(())
     }
 
     /// Returns a reference to the tracked qubit at the given index.
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index c9d082e..e91355e 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -15,7 +15,7 @@ use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::extension::ExtensionId;
 use hugr::ops::{ExtensionOp, OpTrait, OpType};
 use hugr::types::{Signature, TypeArg};
-use hugr::{HugrView, IncomingPort};
+use hugr::{HugrView, IncomingPort, PortIndex};
 use itertools::Itertools;
 use tket_json_rs::circuit_json;
 
-- 
2.43.0


From b4661f95a238df08666f02f527ac0a0c7e493990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 69/83] fix: keep the payload of barriers that already contain
 an inline subgraph

---
 tket/src/serialize/pytket/opaque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/opaque.rs b/tket/src/serialize/pytket/opaque.rs
index 0006831..844e444 100644
--- a/tket/src/serialize/pytket/opaque.rs
+++ b/tket/src/serialize/pytket/opaque.rs
@@ -129,11 +129,11 @@ impl<N: HugrNode> OpaqueSubgraphs<N> {
         if command.op.op_type != tket_json_rs::OpType::Barrier {
             return Ok(());
         }
-        let Some(payload) = command.op.data.take() else {
+        let Some(payload) = command.op.data.as_ref() else {
             return Ok(());
         };
 
-        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(&payload) else {
+        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(payload) else {
             // Not an External Payload, nothing to do.
             return Ok(());
         };
-- 
2.43.0


From d65f6fc6c98d3b45b43a4871680637b441d3b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 70/83] fix: convexity, output and input order of copyable
 expressions

---
 tket/src/subcircuit/expression.rs | 43 +++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index d84d83a..e7a0758 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -93,7 +93,7 @@ impl<N: HugrNode> CopyableExpr<N> {
             admissible_node(node, &nodes_to_exclude, circuit.hugr(), &circuit_nodes)
         });
 
-        if circuit.any_reachable_from(outputs.iter().copied(), inputs.iter().copied()) {
+        if !is_convex(&nodes, &inputs, circuit) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -134,6 +134,9 @@ impl<N: HugrNode> CopyableExpr<N> {
     ) -> ExprArgs<N> {
         let mut args = ExprArgs::default();
 
+        // The value of the expression is always the first output.
+        args.outputs.insert(output);
+
         // Queues and set useful during traversal.
         let mut curr_nodes = PriorityQueue::new();
         let prio = |node: N| circuit.get_position(node).expect("known node has position");
@@ -248,6 +251,40 @@ impl<N> Default for ExprArgs<N> {
     }
 }
 
+/// Whether no path that leaves `nodes` comes back to them, within `circuit`.
+fn is_convex<N: HugrNode>(
+    nodes: &[N],
+    inputs: &IndexSet<(N, IncomingPort)>,
+    circuit: &ResourceScope<impl HugrView<Node = N>>,
+) -> bool {
+    let hugr = circuit.hugr();
+    let nodes: BTreeSet<N> = nodes.iter().copied().collect();
+
+    let is_internal_wire = |&(node, port): &(N, IncomingPort)| {
+        hugr.single_linked_output(node, port)
+            .is_some_and(|(prev_node, _)| nodes.contains(&prev_node))
+    };
+    if inputs.iter().any(is_internal_wire) {
+        return false;
+    }
+
+    let mut visited = BTreeSet::new();
+    let mut to_visit: Vec<N> = nodes
+        .iter()
+        .flat_map(|&node| hugr.output_neighbours(node))
+        .filter(|node| !nodes.contains(node))
+        .collect();
+    while let Some(node) = to_visit.pop() {
+        if nodes.contains(&node) {
+            return false;
+        }
+        if circuit.get_position(node).is_some() && visited.insert(node) {
+            to_visit.extend(hugr.output_neighbours(node));
+        }
+    }
+    true
+}
+
 /// Group function calls by the function they call.
 fn group_function_calls<N: HugrNode>(
     function_calls: Vec<(N, IncomingPort)>,
@@ -284,7 +321,9 @@ fn sort_inputs<N: HugrNode>(
                 let (prev_node, _) = hugr
                     .single_linked_output(node, port)
                     .expect("valid dataflow wire");
-                Either::Right(nodes_to_exclude.get_index_of(&prev_node))
+                // Other inputs come last.
+                let pos = nodes_to_exclude.get_index_of(&prev_node);
+                Either::Right(pos.unwrap_or(usize::MAX))
             }
         })
         .map(|np| vec![np])
-- 
2.43.0


From 9508fdea5aa2f175253ef8e9739e84027c4270c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 71/83] fix: do not miss order edges in
 ResourceScope::any_reachable_from

---
 tket/src/resource/scope.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tket/src/resource/scope.rs b/tket/src/resource/scope.rs
index f421ff6..3374bfc 100644
--- a/tket/src/resource/scope.rs
+++ b/tket/src/resource/scope.rs
@@ -286,9 +286,6 @@ impl<H: HugrView> ResourceScope<H> {
         ends: impl IntoIterator<Item = (H::Node, IncomingPort)>,
     ) -> bool {
         let end_nodes = BTreeSet::from_iter(ends.into_iter().map(|(n, _)| n));
-        let Some(max_end) = end_nodes.iter().filter_map(|&n| self.get_position(n)).max() else {
-            return false;
-        };
         let mut visited_nodes = BTreeSet::new();
 
         let mut curr_nodes = VecDeque::from_iter(
@@ -299,7 +296,9 @@ impl<H: HugrView> ResourceScope<H> {
         );
 
         while let Some(node) = curr_nodes.pop_front() {
-            if self.get_position(node).is_none_or(|p| p > max_end) || !visited_nodes.insert(node) {
+            // Note that positions do not increase along order edges, so they cannot
+            // be used to stop the search early.
+            if self.get_position(node).is_none() || !visited_nodes.insert(node) {
                 continue;
             }
             if end_nodes.contains(&node) {
-- 
2.43.0


From 782b0558aa7a1f7c571428ab0cafe0dea7013d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:30 +0000
Subject: [PATCH 72/83] hooks: expose intervals under cfg(verif_hooks)

---
 tket/src/subcircuit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tket/src/subcircuit.rs b/tket/src/subcircuit.rs
index f29f3db..46aac46 100644
--- a/tket/src/subcircuit.rs
+++ b/tket/src/subcircuit.rs
@@ -1,7 +1,13 @@
 //! Placeholder file until subcircuit is merged, see
 //! [https://github.com/CQCL/tket2/pull/1054](https://github.com/CQCL/tket2/pull/1054)
 
+#![allow(unexpected_cfgs)]
+
 mod expression;
 pub use expression::CopyableExpr;
 
 mod interval;
+
+// Lets external monitors observe the intervals.
+#[cfg(verif_hooks)]
+pub use interval::{Interval, InvalidInterval};
-- 
2.43.0


From 1bf1355b2c2ade081545fe63ec0b0c4ede4496c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:35 +0000
Subject: [PATCH 73/83] fix: reject operations off the resource path when
 extending an interval

---
 tket/src/subcircuit/interval.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tket/src/subcircuit/interval.rs b/tket/src/subcircuit/interval.rs
index 1e36e79..ec9b678 100644
--- a/tket/src/subcircuit/interval.rs
+++ b/tket/src/subcircuit/interval.rs
@@ -262,9 +262,14 @@ impl<N: HugrNode> Interval<N> {
         };
 
         match self.position_in_interval(pos, scope) {
-            // pos is already within the interval
+            // pos is already within the interval, but other resources share the
+            // same positions
             Ordering::Equal => {
-                return Ok(None);
+                let resource_id = self.resource_id(scope);
+                return match Self::new_singleton(resource_id, node, scope) {
+                    Some(_) => Ok(None),
+                    None => Err(InvalidInterval::NotOnResourcePath(node)),
+                };
             }
             // pos is before the interval
             Ordering::Less => {
-- 
2.43.0


From 08410dc2c96046e829a5195765f549f6cc99009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 74/83] fix: only load functions by name from function
 definitions

---
 tket/src/serialize.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize.rs b/tket/src/serialize.rs
index e8f7913..125e414 100644
--- a/tket/src/serialize.rs
+++ b/tket/src/serialize.rs
@@ -244,20 +244,20 @@ fn find_function(mut hugr: Hugr, function_name: &str) -> Result<Circuit, Circuit
     }
 
     // Find the function definition.
-    fn func_name(op: &OpType) -> &str {
+    fn func_name(op: &OpType) -> Option<&str> {
         match op {
-            OpType::FuncDefn(decl) => decl.func_name(),
-            _ => "",
+            OpType::FuncDefn(decl) => Some(decl.func_name()),
+            _ => None,
         }
     }
 
     let Some(function) = hugr
         .children(module)
-        .find(|&n| func_name(hugr.get_optype(n)) == function_name)
+        .find(|&n| func_name(hugr.get_optype(n)) == Some(function_name))
     else {
         let available_functions = hugr
             .children(module)
-            .map(|n| func_name(hugr.get_optype(n)).to_string())
+            .filter_map(|n| func_name(hugr.get_optype(n)).map(str::to_string))
             .collect();
         return Err(CircuitLoadError::FunctionNotFound {
             function: function_name.to_string(),
-- 
2.43.0


From 37ec3d5e98747e5930581c6ecb9096919c73003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 75/83] fix: register the modifier and global phase extensions

---
 tket/src/extension.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index f503238..fdd6544 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -62,7 +62,9 @@ pub(crate) static ref REGISTRY: ExtensionRegistry = ExtensionRegistry::new(
     bool::BOOL_EXTENSION.to_owned(),
     debug::DEBUG_EXTENSION.to_owned(),
     guppy::GUPPY_EXTENSION.to_owned(),
-    rotation::ROTATION_EXTENSION.to_owned()
+    rotation::ROTATION_EXTENSION.to_owned(),
+    modifier::MODIFIER_EXTENSION.to_owned(),
+    global_phase::GLOBAL_PHASE_EXTENSION.to_owned()
 ]));
 
 }
-- 
2.43.0


From 76c75ef27ee60ef48d98b4a3c526140f77ef78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 76/83] fix: return an error for malformed circuit equivalence
 class files

---
 tket/src/optimiser/badger/eq_circ_class.rs |  9 ++-
 tket/src/optimiser/badger/qtz_circuit.rs   | 84 +++++++++++++++-------
 2 files changed, 63 insertions(+), 30 deletions(-)

diff --git a/tket/src/optimiser/badger/eq_circ_class.rs b/tket/src/optimiser/badger/eq_circ_class.rs
index f404f66..1fd602f 100644
--- a/tket/src/optimiser/badger/eq_circ_class.rs
+++ b/tket/src/optimiser/badger/eq_circ_class.rs
@@ -1,6 +1,7 @@
 use std::io;
 use std::path::Path;
 
+use derive_more::{Display, Error};
 use hugr::envelope::serde_with::AsStringEnvelope;
 use hugr::Hugr;
 use itertools::Itertools;
@@ -10,8 +11,10 @@ use crate::circuit::Circuit;
 
 use super::qtz_circuit::load_ecc_set;
 
-#[derive(Debug, Clone)]
+#[derive(Debug, Clone, Display, Error)]
 pub enum EqCircClassError {
+    /// There were no circuits in the class.
+    #[display("An equivalence class must contain at least one circuit")]
     NoRepresentative,
 }
 
@@ -94,9 +97,9 @@ impl EqCircClass {
 pub fn load_eccs_json_file(path: impl AsRef<Path>) -> io::Result<Vec<EqCircClass>> {
     let all_circs = load_ecc_set(path)?;
 
-    Ok(all_circs
+    all_circs
         .into_values()
         .map(EqCircClass::from_circuits)
         .collect::<Result<Vec<_>, _>>()
-        .unwrap())
+        .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
 }
diff --git a/tket/src/optimiser/badger/qtz_circuit.rs b/tket/src/optimiser/badger/qtz_circuit.rs
index 6533613..186e0c1 100644
--- a/tket/src/optimiser/badger/qtz_circuit.rs
+++ b/tket/src/optimiser/badger/qtz_circuit.rs
@@ -4,7 +4,7 @@ use std::path::Path;
 
 use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
 use hugr::extension::prelude::qb_t;
-use hugr::ops::OpType as Op;
+use hugr::ops::{OpTrait, OpType as Op};
 use hugr::types::{Signature, Type};
 use hugr::{CircuitUnit, Hugr};
 use itertools::Itertools;
@@ -39,12 +39,17 @@ struct RepCircData {
     circ: RepCirc,
 }
 
-fn map_op(opstr: &str) -> Op {
+/// Returns an error for a malformed ECC file.
+fn invalid_data(err: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, err)
+}
+
+fn map_op(opstr: &str) -> io::Result<Op> {
     if opstr == "add" {
-        return RotationOp::radd.into();
+        return Ok(RotationOp::radd.into());
     }
     // TODO, more
-    match opstr {
+    let op = match opstr {
         "h" => TketOp::H,
         "cx" => TketOp::CX,
         "t" => TketOp::T,
@@ -57,21 +62,27 @@ fn map_op(opstr: &str) -> Op {
         "sdg" => TketOp::Sdg,
         "vdg" => TketOp::Vdg,
         "rz" => TketOp::Rz,
-        x => panic!("unknown op {x}"),
-    }
-    .into()
+        x => return Err(invalid_data(format!("unknown op {x}"))),
+    };
+    Ok(op.into())
 }
 
-// TODO change to TryFrom
-impl From<RepCircData> for Circuit<Hugr> {
-    fn from(RepCircData { circ: rc, meta }: RepCircData) -> Self {
+impl RepCircData {
+    /// Build the circuit described by the data.
+    fn try_into_circuit(self) -> io::Result<Circuit<Hugr>> {
+        let RepCircData { circ: rc, meta } = self;
+        // The inputs of the circuit must fit in the ports of a node.
+        if meta.n_qb.saturating_add(meta.n_input_param) > u16::MAX as usize {
+            return Err(invalid_data("too many qubits and parameters in a circuit"));
+        }
+
         let qb_types: Vec<Type> = vec![qb_t(); meta.n_qb];
         let param_types: Vec<Type> = vec![rotation_type(); meta.n_input_param];
         let mut builder = DFGBuilder::new(Signature::new(
             [qb_types.clone(), param_types].concat(),
             qb_types,
         ))
-        .unwrap();
+        .map_err(invalid_data)?;
 
         // Current map between quartz qubit and parameter identifiers, and
         // circuit units. Since quartz defines output wires arbitrarily for each
@@ -95,11 +106,22 @@ impl From<RepCircData> for Circuit<Hugr> {
             outputs,
         } in rc.0
         {
-            let op = map_op(&opstr);
+            let op = map_op(&opstr)?;
 
             // Translate the quartz inputs into circuit units.
-            let inputs = inputs.iter().map(|inp| *input_units.get(inp).unwrap());
-            let hugr_outputs = circ.append_with_outputs(op, inputs).unwrap();
+            let inputs: Vec<CircuitUnit> = inputs
+                .iter()
+                .map(|inp| {
+                    let unit = input_units.get(inp).copied();
+                    unit.ok_or_else(|| invalid_data(format!("unknown input {inp} of {opstr}")))
+                })
+                .try_collect()?;
+            if inputs.len() != op.value_input_count() {
+                return Err(invalid_data(format!("wrong number of inputs for {opstr}")));
+            }
+            let hugr_outputs = circ
+                .append_with_outputs(op, inputs)
+                .map_err(|e| invalid_data(e.to_string()))?;
 
             for (idx, wire) in outputs.iter().zip(hugr_outputs) {
                 input_units.insert(idx.to_string(), CircuitUnit::Wire(wire));
@@ -107,10 +129,10 @@ impl From<RepCircData> for Circuit<Hugr> {
         }
 
         let circ_outputs = circ.finish();
-        builder
+        let hugr = builder
             .finish_hugr_with_outputs(circ_outputs)
-            .unwrap()
-            .into()
+            .map_err(invalid_data)?;
+        Ok(hugr.into())
     }
 }
 
@@ -118,17 +140,25 @@ pub(super) fn load_ecc_set(
     path: impl AsRef<Path>,
 ) -> io::Result<HashMap<String, Vec<Circuit<Hugr>>>> {
     let jsons = std::fs::read_to_string(path)?;
-    let (_, ecc_map): (Vec<()>, HashMap<String, Vec<RepCircData>>) =
-        serde_json::from_str(&jsons).unwrap();
-
-    Ok(ecc_map
-        .into_values()
-        .map(|datmap| {
-            let id = datmap[0].meta.id[0].clone();
-            let circs = datmap.into_iter().map(|rcd| rcd.into()).collect();
-            (id, circs)
+    let (_, ecc_map): (Vec<()>, HashMap<String, Vec<RepCircData>>) = serde_json::from_str(&jsons)?;
+
+    ecc_map
+        .into_iter()
+        .map(|(id, datmap)| {
+            let circs = datmap
+                .into_iter()
+                .map(RepCircData::try_into_circuit)
+                .try_collect()?;
+            Ok((id, circs))
         })
-        .collect())
+        .collect()
+}
+
+#[cfg(test)]
+impl From<RepCircData> for Circuit<Hugr> {
+    fn from(data: RepCircData) -> Self {
+        data.try_into_circuit().unwrap()
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From da0a93865488029ddb7746b09e7bb1b69fe25702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 77/83] fix: bound the nesting of parsed pytket expressions

---
 tket/src/serialize/pytket/decoder/param/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index 738e337..df3d342 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -47,9 +47,20 @@ pub enum PytketParam<'a> {
     },
 }
 
+/// The maximum number of operators and open parentheses in an expression.
+///
+/// This bounds the depth of the parsed AST. Larger expressions are not parsed,
+/// they could exhaust the stack.
+const MAX_EXPRESSION_DEPTH: usize = 256;
+
 /// Parse a TKET1 operation parameter, and return an AST representing the expression.
 #[inline]
 pub fn parse_pytket_param(param: &str) -> PytketParam<'_> {
+    let operators = param.bytes().filter(|b| b"(+-*/".contains(b)).count();
+    if operators > MAX_EXPRESSION_DEPTH {
+        // The parameter is too complex, so we just return it as an opaque sympy expression.
+        return PytketParam::Sympy(param);
+    }
     let Ok(mut parsed) = ParamParser::parse(Rule::parameter, param) else {
         // The parameter could not be parsed, so we just return it as an opaque sympy expression.
         return PytketParam::Sympy(param);
-- 
2.43.0


From af2d0662a7fba4d17e2f333c6a0d33bd6937a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 78/83] fix: return an error for pytket circuits with too many
 registers

---
 tket/src/serialize/pytket/decoder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index efb0434..684f85a 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -118,6 +118,8 @@ impl<'h> PytketDecoderContext<'h> {
             .config
             .unwrap_or_else(|| Arc::new(default_decoder_config()));
 
+        check_num_ports(serialcirc.qubits.len() + serialcirc.bits.len())?;
+
         // Compute the signature of the decoded region, if not provided, and
         // initialize the DFG builder.
         let signature = options.signature.clone().unwrap_or_else(|| {
@@ -539,6 +541,7 @@ impl<'h> PytketDecoderContext<'h> {
         config: &PytketDecoderConfig,
     ) -> Result<(), PytketDecodeError> {
         let circuit_json::Command { op, args, opgroup } = command;
+        check_num_ports(2 * args.len() + op.params.as_ref().map_or(0, Vec::len))?;
 
         // Find the latest [`TrackedQubit`] and [`TrackedBit`] for the command registers.
         let (qubits, bits) = self.wire_tracker.pytket_args_to_tracked_elems(args)?;
@@ -565,6 +568,18 @@ impl<'h> PytketDecoderContext<'h> {
     }
 }
 
+/// Check that a node with `num_ports` value ports can be added to a HUGR.
+fn check_num_ports(num_ports: usize) -> Result<(), PytketDecodeError> {
+    // Leave some space for the order ports.
+    const MAX_PORTS: usize = u16::MAX as usize - 2;
+    if num_ports > MAX_PORTS {
+        return Err(PytketDecodeError::custom(format!(
+            "The circuit has too many arguments to fit in a node. Found {num_ports} ports, but only {MAX_PORTS} are supported."
+        )));
+    }
+    Ok(())
+}
+
 /// Public API, used by the [`PytketDecoder`][super::extension::PytketDecoder] implementers.
 impl<'h> PytketDecoderContext<'h> {
     /// Returns a new set of [TrackedWires] for a list of [`TrackedQubit`]s,
-- 
2.43.0


From cfb5ccd49768407d79a25569c18a5537a3e076ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 79/83] fix: encode only supported module-level constants

---
 tket/src/serialize/pytket/encoder.rs | 46 +++++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 07b3561..dca462f 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -12,7 +12,7 @@ pub use value_tracker::{
     TrackedBit, TrackedParam, TrackedQubit, TrackedValue, TrackedValues, ValueTracker,
 };
 
-use hugr::ops::{OpTrait, OpType};
+use hugr::ops::{Const, OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
@@ -979,18 +979,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 }
             }
             OpType::Const(op) => {
-                let config = Arc::clone(&self.config);
-                let loads_are_supported = circ
-                    .hugr()
-                    .output_neighbours(node)
-                    .filter(|&load| circ.hugr().get_parent(load) == circ.hugr().get_parent(node))
-                    .all(|load| !has_nonlocal_uses(load, circ));
-                if loads_are_supported && self.config().type_to_pytket(&op.get_type()).is_some() {
-                    if let Some(values) = config.const_to_pytket(&op.value, self)? {
-                        let wire = Wire::new(node, 0);
-                        self.values.register_wire(wire, values.into_iter(), circ)?;
-                        return Ok(EncodeStatus::Success);
-                    }
+                if self.try_encode_constant(node, op, circ)? == EncodeStatus::Success {
+                    return Ok(EncodeStatus::Success);
                 }
             }
             // TODO: DFG and function call emissions are temporarily disabled,
@@ -1026,6 +1016,31 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(EncodeStatus::Unsupported)
     }
 
+    /// Encode a constant, and register the values of its static output.
+    ///
+    /// Returns [`EncodeStatus::Unsupported`] if the constant has no pytket encoding.
+    fn try_encode_constant(
+        &mut self,
+        node: H::Node,
+        op: &Const,
+        circ: &Circuit<H>,
+    ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        let config = Arc::clone(&self.config);
+        let loads_are_supported = circ
+            .hugr()
+            .output_neighbours(node)
+            .filter(|&load| circ.hugr().get_parent(load) == circ.hugr().get_parent(node))
+            .all(|load| !has_nonlocal_uses(load, circ));
+        if loads_are_supported && self.config().type_to_pytket(&op.get_type()).is_some() {
+            if let Some(values) = config.const_to_pytket(&op.value, self)? {
+                let wire = Wire::new(node, 0);
+                self.values.register_wire(wire, values.into_iter(), circ)?;
+                return Ok(EncodeStatus::Success);
+            }
+        }
+        Ok(EncodeStatus::Unsupported)
+    }
+
     /// The toposort traversal in `run_encoder` only explores nodes in the
     /// region.
     ///
@@ -1077,8 +1092,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
                     self.values
                         .register_wire::<TrackedValue>(wire, vec![], circ)?;
                 }
-                OpType::Const(_) => {
-                    if self.try_encode_node(neigh, circ)? == EncodeStatus::Unsupported {
+                OpType::Const(op) => {
+                    // Unsupported global constants are not part of the region.
+                    if self.try_encode_constant(neigh, op, circ)? == EncodeStatus::Unsupported {
                         return Ok(EncodeStatus::Unsupported);
                     }
                 }
-- 
2.43.0


From b15f42da927c7c89c93b99093ab4fd742e7b1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 80/83] fix: return errors for opaque subgraphs that do not
 match the hugr

---
 tket/src/serialize/pytket/circuit.rs          | 52 +++++++++++++++++-
 tket/src/serialize/pytket/decoder/subgraph.rs | 55 ++++++++++++++-----
 tket/src/serialize/pytket/decoder/wires.rs    |  9 ++-
 3 files changed, 96 insertions(+), 20 deletions(-)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 546dee3..3a63e62 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -9,7 +9,7 @@ use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::handle::NodeHandle;
 use hugr::ops::{OpParent, OpTag, OpTrait};
 use hugr::types::EdgeKind;
-use hugr::{Hugr, HugrView, Node};
+use hugr::{Hugr, HugrView, Node, Port};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
@@ -174,6 +174,13 @@ impl EncodedCircuit<Node> {
         );
 
         for (&original_region, encoded) in &self.circuits {
+            // The region may have been part of an opaque subgraph that is no
+            // longer used.
+            if !hugr.contains_node(original_region) {
+                return Err(PytketDecodeError::custom(format!(
+                    "The region {original_region} of an encoded circuit is not in the hugr."
+                )));
+            }
             // Decode the circuit into a temporary function node.
             let Some(signature) = hugr.get_optype(original_region).inner_function_type() else {
                 return Err(PytketDecodeErrorInner::IncompatibleTargetRegion {
@@ -182,9 +189,10 @@ impl EncodedCircuit<Node> {
                 }
                 .wrap());
             };
+            let signature = signature.into_owned();
             let options = options
                 .clone()
-                .with_signature(signature.into_owned())
+                .with_signature(signature.clone())
                 .with_input_params(encoded.input_params.iter().cloned());
 
             // Run the decoder, generating a new function with the extracted definition.
@@ -204,6 +212,22 @@ impl EncodedCircuit<Node> {
             let decoded_node = decoder
                 .finish(&encoded.output_params, &encoded.output_bits)?
                 .node();
+            // The opaque subgraphs cannot contain the region they are moved to.
+            if std::iter::successors(Some(original_region), |&node| hugr.get_parent(node))
+                .contains(&decoded_node)
+            {
+                return Err(PytketDecodeError::custom(format!(
+                    "A subgraph containing the region {original_region} was used inside it."
+                )));
+            }
+            // Unknown variables in the commands add inputs to the decoded function.
+            let decoded_signature = hugr.get_optype(decoded_node).inner_function_type();
+            if decoded_signature.as_deref() != Some(&signature) {
+                return Err(PytketDecodeError::custom(format!(
+                    "The signature of a reassembled circuit changed. Expected {signature}, but found {}",
+                    decoded_signature.unwrap_or_default(),
+                )));
+            }
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -237,6 +261,7 @@ impl EncodedCircuit<Node> {
                 hugr.set_parent(child, original_region);
             }
             hugr.remove_node(decoded_node);
+            check_value_links(hugr, original_region)?;
         }
         Ok(self.circuits.keys().copied().collect_vec())
     }
@@ -500,3 +525,26 @@ impl<Node: HugrNode> IndexMut<Node> for EncodedCircuit<Node> {
             .serial_circuit
     }
 }
+
+/// Check that the value ports of the nodes in a region are all connected.
+///
+/// Opaque subgraphs keep the edges between them that cannot be encoded in
+/// pytket, which are lost if one of the subgraphs is dropped.
+fn check_value_links(hugr: &Hugr, region: hugr::Node) -> Result<(), PytketDecodeError> {
+    for node in hugr.children(region) {
+        let unconnected_input = hugr
+            .in_value_types(node)
+            .find(|&(port, _)| hugr.linked_outputs(node, port).count() != 1)
+            .map(|(port, ty)| (Port::from(port), ty));
+        let unconnected_output = hugr
+            .out_value_types(node)
+            .find(|(port, ty)| !ty.copyable() && hugr.linked_inputs(node, *port).count() != 1)
+            .map(|(port, ty)| (Port::from(port), ty));
+        if let Some((port, ty)) = unconnected_input.or(unconnected_output) {
+            return Err(PytketDecodeError::custom(format!(
+                "{port} of {node} with type {ty} is not connected in the reassembled circuit."
+            )));
+        }
+    }
+    Ok(())
+}
diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index cde22b6..a61fd66 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 use hugr::builder::Container;
 use hugr::hugr::hugrmut::{HugrMut, InsertedForest};
 use hugr::ops::{OpTag, OpTrait};
-use hugr::types::Type;
+use hugr::types::{Type, TypeRow};
 use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
@@ -85,13 +85,24 @@ impl<'h> PytketDecoderContext<'h> {
         bits: &[TrackedBit],
         params: &[LoadedParameter],
     ) -> Result<DecodeStatus, PytketDecodeError> {
-        // TODO: Remove the graphs as we extract them, and give a nice error if subgraph id are reused.
         let Some(subgraph) = self.opaque_subgraphs.and_then(|s| s.get(id)) else {
             return Err(PytketDecodeErrorInner::OpaqueSubgraphNotFound { id }.wrap());
         };
 
+        // The nodes are no longer in their region if the hugr was modified, or if
+        // the subgraph has already been used.
         let old_parent = subgraph.region();
-        if !OpTag::DataflowParent.is_superset(self.builder.hugr().get_optype(old_parent).tag()) {
+        let hugr = self.builder.hugr();
+        let in_region = hugr.contains_node(old_parent)
+            && OpTag::DataflowParent.is_superset(hugr.get_optype(old_parent).tag())
+            && hugr.get_io(old_parent).is_some_and(|io| {
+                (subgraph.nodes().iter()).all(|&n| {
+                    hugr.contains_node(n)
+                        && hugr.get_parent(n) == Some(old_parent)
+                        && !io.contains(&n)
+                })
+            });
+        if !in_region {
             return Err(PytketDecodeErrorInner::ExternalSubgraphWasModified { id }.wrap());
         }
         let new_parent = self.builder.container_node();
@@ -304,19 +315,29 @@ impl<'h> PytketDecoderContext<'h> {
     ) -> Result<DecodeStatus, PytketDecodeError> {
         let to_insert_hugr = Hugr::load_str(hugr_envelope, Some(self.extension_registry()))
             .map_err(|e| PytketDecodeErrorInner::UnsupportedSubgraphInlinePayload { source: e })?;
-        let to_insert_signature = to_insert_hugr.inner_function_type().unwrap();
 
         let module = self.builder.hugr().module_root();
         let region = self.builder.container_node();
 
         // Collect the non-IO nodes in the hugr we plan to insert.
-        let Some([to_insert_input, to_insert_output]) =
-            to_insert_hugr.get_io(to_insert_hugr.entrypoint())
-        else {
+        let (Some(to_insert_signature), Some([to_insert_input, to_insert_output])) = (
+            to_insert_hugr.inner_function_type(),
+            to_insert_hugr.get_io(to_insert_hugr.entrypoint()),
+        ) else {
             return Err(PytketDecodeError::custom(
                 "Opaque subgraph payload has a non-dataflow parent as entrypoint",
             ));
         };
+        let payload_types = |edges: &[(Type, EncodedEdgeID)]| -> TypeRow {
+            edges.iter().map(|(ty, _)| ty.clone()).collect_vec().into()
+        };
+        if to_insert_signature.input != payload_types(payload_inputs)
+            || to_insert_signature.output != payload_types(payload_outputs)
+        {
+            return Err(PytketDecodeError::custom(
+                "Opaque subgraph payload does not match the signature of its hugr",
+            ));
+        }
         let entrypoint_children = to_insert_hugr
             .children(to_insert_hugr.entrypoint())
             // Ignore the input and output nodes.
@@ -341,14 +362,18 @@ impl<'h> PytketDecoderContext<'h> {
                         .collect_vec()
                 })
                 .collect_vec();
-        let to_insert_outputs: Vec<(Node, OutgoingPort)> = to_insert_signature
+        let to_insert_outputs: Option<Vec<(Node, OutgoingPort)>> = to_insert_signature
             .output_ports()
-            .map(|p| {
-                to_insert_hugr
-                    .single_linked_output(to_insert_output, p.index())
-                    .unwrap()
-            })
-            .collect_vec();
+            .map(|p| to_insert_hugr.single_linked_output(to_insert_output, p.index()))
+            .collect();
+        // The IO nodes are not inserted, so they cannot be connected to each other.
+        let Some(to_insert_outputs) = to_insert_outputs
+            .filter(|outputs| outputs.iter().all(|&(node, _)| node != to_insert_input))
+        else {
+            return Err(PytketDecodeError::custom(
+                "Opaque subgraph payload has an output that is not produced by its nodes",
+            ));
+        };
 
         // Collect any module child that does not contain the entrypoint function.
         //
@@ -507,7 +532,7 @@ impl<'h> PytketDecoderContext<'h> {
                         *edge_id,
                         wire,
                         self.builder.hugr_mut(),
-                    );
+                    )?;
                 }
             }
         }
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index ba10081..3840131 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1179,12 +1179,14 @@ impl WireTracker {
     ///
     /// If any wire targets have been registered with
     /// [`Self::connect_unsupported_wire_target`], make the connections.
+    ///
+    /// Returns an error if the id has already been declared by another output.
     pub fn connect_unsupported_wire_source(
         &mut self,
         id: EncodedEdgeID,
         wire: Wire,
         hugr: &mut Hugr,
-    ) {
+    ) -> Result<(), PytketDecodeError> {
         match self
             .unsupported_wires
             .insert(id, UnsupportedWireState::Associated(wire))
@@ -1196,11 +1198,12 @@ impl WireTracker {
                 }
             }
             Some(UnsupportedWireState::Associated(existing_wire)) => {
-                panic!(
+                return Err(PytketDecodeError::custom(format!(
                     "Tried to associate unsupported wire {id} with {wire}, but it has already been associated with {existing_wire}"
-                );
+                )));
             }
         }
+        Ok(())
     }
 
     /// Initialize a qubit wire that has been declared earlier.
-- 
2.43.0


From 00146cb26a6c73725b86b1943ca85644b46e368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 81/83] fix: name global strings with NUL characters without
 looping

---
 tket-qsystem/src/llvm/prelude.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/llvm/prelude.rs b/tket-qsystem/src/llvm/prelude.rs
index be72d9e..6148e26 100644
--- a/tket-qsystem/src/llvm/prelude.rs
+++ b/tket-qsystem/src/llvm/prelude.rs
@@ -169,8 +169,9 @@ pub fn emit_global_string<'c, H: HugrView<Node = Node>>(
             let lower32 = h as u32;
             format!("{lower32:08X}")
         };
-        // Use unicode-aware character slicing to prevent slicing through multi-byte characters
-        let prefix_chars: String = str.chars().take(10).collect();
+        // Use unicode-aware character slicing to prevent slicing through multi-byte characters,
+        // and leave out NULs, where LLVM would end the name.
+        let prefix_chars: String = str.chars().filter(|c| *c != '\0').take(10).collect();
         let name_prefix = format!("{symbol_prefix}{prefix_chars}.{hash}");
 
         (0..)
-- 
2.43.0


From c0aaf426b9c6cda8e0e96f563afc96a4adfe6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 82/83] fix: extend narrow integer results to 64 bits and
 report invalid tags as errors

---
 tket-qsystem/src/llvm/result.rs | 91 ++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 13 deletions(-)

diff --git a/tket-qsystem/src/llvm/result.rs b/tket-qsystem/src/llvm/result.rs
index c63bb8c..f42159c 100644
--- a/tket-qsystem/src/llvm/result.rs
+++ b/tket-qsystem/src/llvm/result.rs
@@ -1,6 +1,6 @@
 //! LLVM lowering implementations for "tket.results" extension.
 
-use crate::extension::result::{ResultArgs, ResultOp, ResultOpDef};
+use crate::extension::result::{ResultArgs, ResultOp, ResultOpDef, SimpleArgs};
 use crate::llvm::prelude::emit_global_string;
 use anyhow::{anyhow, bail, Result};
 use hugr::llvm::custom::CodegenExtension;
@@ -12,7 +12,7 @@ use hugr::llvm::CodegenExtsBuilder;
 use inkwell::builder::Builder;
 use inkwell::context::Context;
 use inkwell::types::{FloatType, IntType, PointerType, VoidType};
-use inkwell::values::{BasicValueEnum, FunctionValue, IntValue};
+use inkwell::values::{BasicValueEnum, FunctionValue, IntValue, PointerValue};
 use inkwell::AddressSpace;
 use tket::hugr::extension::simple_op::MakeExtensionOp;
 use tket::hugr::ops::ExtensionOp;
@@ -159,21 +159,84 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
         Ok((tag_ptr, tag_len))
     }
 
+    /// Extend an integer of `2^log_width` bits to the 64 bits that the runtime
+    /// expects.
+    fn widen_int(&self, val: IntValue<'c>, log_width: u8, signed: bool) -> Result<IntValue<'c>> {
+        if log_width >= 6 {
+            return Ok(val);
+        }
+        let builder = self.builder();
+        // Narrow integers are stored in a larger type, ignore the unused bits.
+        let width_t = self.iw_context().custom_width_int_type(1 << log_width);
+        let val = if val.get_type() == width_t {
+            val
+        } else {
+            builder.build_int_truncate(val, width_t, "")?
+        };
+        Ok(if signed {
+            builder.build_int_s_extend(val, self.int_t(), "")?
+        } else {
+            builder.build_int_z_extend(val, self.int_t(), "")?
+        })
+    }
+
+    /// The value of a simple integer result, extended to 64 bits.
+    fn int_value(
+        &self,
+        op: &ResultOp,
+        val: BasicValueEnum<'c>,
+        signed: bool,
+    ) -> Result<IntValue<'c>> {
+        let ResultArgs::Simple(SimpleArgs::Int(log_width)) = op.args else {
+            bail!("Expected integer argument")
+        };
+        self.widen_int(val.into_int_value(), log_width, signed)
+    }
+
+    /// Copy an array of integers of `2^log_width` bits into an array of 64 bit
+    /// integers on the stack.
+    fn widen_int_array(
+        &self,
+        array: PointerValue<'c>,
+        length: u64,
+        log_width: u8,
+        signed: bool,
+    ) -> Result<PointerValue<'c>> {
+        let builder = self.builder();
+        let len_val = self.int_t().const_int(length, false);
+        let wide = builder.build_array_alloca(self.int_t(), len_val, "")?;
+        for i in 0..length {
+            let idx = self.int_t().const_int(i, false);
+            let elem_ptr = unsafe { builder.build_in_bounds_gep(array, &[idx], "")? };
+            let elem = builder.build_load(elem_ptr, "")?.into_int_value();
+            let elem = self.widen_int(elem, log_width, signed)?;
+            let wide_ptr = unsafe { builder.build_in_bounds_gep(wide, &[idx], "")? };
+            builder.build_store(wide_ptr, elem)?;
+        }
+        Ok(wide)
+    }
+
     fn build_print_array_call(
         &self,
-        val: BasicValueEnum,
+        val: BasicValueEnum<'c>,
         op: &ResultOp,
         data_type: &ElemType,
         tag_ptr: BasicValueEnum,
         tag_len: IntValue,
     ) -> Result<()> {
         // TODO update to return array after https://github.com/CQCL/tket2/issues/922
-        let ResultArgs::Array(_, length) = op.args else {
+        let ResultArgs::Array(ref elem_args, length) = op.args else {
             bail!("Expected array argument")
         };
 
         let print_fn = self.get_func_print(op)?;
-        let array = self.1.array_to_ptr(self.builder(), val)?;
+        let mut array = self.1.array_to_ptr(self.builder(), val)?;
+        if let SimpleArgs::Int(log_width) = *elem_args {
+            if log_width < 6 {
+                let signed = matches!(data_type, ElemType::Int);
+                array = self.widen_int_array(array, length, log_width, signed)?;
+            }
+        }
         let (array_ptr, _) = struct_1d_arr_alloc(
             self.iw_context(),
             self.builder(),
@@ -194,7 +257,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
         let print_fn = self.get_func_print(op)?;
         match op.result_op {
             ResultOpDef::Bool => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "BOOL:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "BOOL:")?;
                 let [val] = args
                     .inputs
                     .try_into()
@@ -212,11 +275,12 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 )?;
             }
             ResultOpDef::Int => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INT:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INT:")?;
                 let [val] = args
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_int expects one input"))?;
+                let val = self.int_value(op, val, true)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
@@ -224,11 +288,12 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 )?;
             }
             ResultOpDef::UInt => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INT:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INT:")?;
                 let [val] = args
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_uint expects one input"))?;
+                let val = self.int_value(op, val, false)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
@@ -236,7 +301,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 )?;
             }
             ResultOpDef::F64 => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "FLOAT:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "FLOAT:")?;
                 let [val] = args
                     .inputs
                     .try_into()
@@ -248,7 +313,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 )?;
             }
             ResultOpDef::ArrBool => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "BOOLARR:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "BOOLARR:")?;
                 let [val] = args
                     .inputs
                     .try_into()
@@ -256,7 +321,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 self.build_print_array_call(val, op, &ElemType::Bool, tag_ptr, tag_len)?;
             }
             ResultOpDef::ArrInt => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INTARR:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INTARR:")?;
                 let [val] = args
                     .inputs
                     .try_into()
@@ -264,7 +329,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 self.build_print_array_call(val, op, &ElemType::Int, tag_ptr, tag_len)?;
             }
             ResultOpDef::ArrUInt => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INTARR:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "INTARR:")?;
                 let [val] = args
                     .inputs
                     .try_into()
@@ -272,7 +337,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                 self.build_print_array_call(val, op, &ElemType::Uint, tag_ptr, tag_len)?;
             }
             ResultOpDef::ArrF64 => {
-                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "FLOATARR:").unwrap();
+                let (tag_ptr, tag_len) = self.generate_global_tag(&args, "FLOATARR:")?;
                 let [val] = args
                     .inputs
                     .try_into()
-- 
2.43.0


From 53c2e10c2f343d68f109548e08db542e1c124010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 83/83] fix: reject main functions with inputs and invalid
 optimisation levels

---
 qis-compiler/rust/lib.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/qis-compiler/rust/lib.rs b/qis-compiler/rust/lib.rs
index 2127136..3f948eb 100644
--- a/qis-compiler/rust/lib.rs
+++ b/qis-compiler/rust/lib.rs
@@ -217,12 +217,11 @@ fn optimize_module(module: &Module, args: &CompileArgs) -> Result<()> {
 
 fn get_entry_point_name(namer: &Namer, hugr: &impl HugrView<Node = Node>) -> Result<String> {
     const HUGR_MAIN: &str = "main";
-    let (name, entry_point_node) = if hugr.entrypoint_optype().is_module() {
+    let entry_point_node = if hugr.entrypoint_optype().is_module() {
         // for backwards compatibility with old Guppy versions:
         // assume entrypoint is "main" function in module.
 
-        let node = hugr
-            .children(hugr.module_root())
+        hugr.children(hugr.module_root())
             .filter(|&n| {
                 hugr.get_optype(n)
                     .as_func_defn()
@@ -231,23 +230,22 @@ fn get_entry_point_name(namer: &Namer, hugr: &impl HugrView<Node = Node>) -> Res
             .exactly_one()
             .map_err(|_| {
                 anyhow!("Module entrypoint must have a single function named {HUGR_MAIN} as child")
-            })?;
-        (HUGR_MAIN, node)
+            })?
     } else {
-        let func_defn = hugr
-            .entrypoint_optype()
-            .as_func_defn()
-            .ok_or_else(|| anyhow!("Entry point node is not a function definition"))?;
-        if func_defn.inner_signature().input_count() != 0 {
-            return Err(anyhow!(
-                "Entry point function must have no input parameters (found {})",
-                func_defn.inner_signature().input_count()
-            ));
-        }
-        (func_defn.func_name().as_ref(), hugr.entrypoint())
+        hugr.entrypoint()
     };
+    let func_defn = hugr
+        .get_optype(entry_point_node)
+        .as_func_defn()
+        .ok_or_else(|| anyhow!("Entry point node is not a function definition"))?;
+    if func_defn.inner_signature().input_count() != 0 {
+        return Err(anyhow!(
+            "Entry point function must have no input parameters (found {})",
+            func_defn.inner_signature().input_count()
+        ));
+    }
 
-    Ok(namer.name_func(name, entry_point_node))
+    Ok(namer.name_func(func_defn.func_name(), entry_point_node))
 }
 
 fn wrap_main<'c>(
@@ -409,7 +407,7 @@ pub fn get_opt_level(opt_level: u32) -> Result<OptimizationLevel> {
         1 => Ok(OptimizationLevel::Less),
         2 => Ok(OptimizationLevel::Default),
         3 => Ok(OptimizationLevel::Aggressive),
-        _ => panic!("Invalid optimization level: {opt_level}"),
+        _ => Err(anyhow!("Invalid optimization level: {opt_level}")),
     }
 }
 
-- 
2.43.0

