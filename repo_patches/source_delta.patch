From 71d750f3f2c7d44058d22b01ad800de49e0e9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 01/46] fix: treat function inputs as unknown when QSystemPass
 folds constants

---
 tket-qsystem/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..d527bcf 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -20,7 +20,8 @@ use hugr::{
         RemoveDeadFuncsPass,
     },
     hugr::{hugrmut::HugrMut, HugrError},
-    Hugr, HugrView, Node,
+    ops::Value,
+    Hugr, HugrView, IncomingPort, Node,
 };
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
@@ -131,7 +132,7 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            self.constant_fold(hugr).run(hugr)?;
         }
         if self.force_order {
             self.force_order(hugr)?;
@@ -189,8 +190,15 @@ impl QSystemPass {
         ReplaceBoolPass
     }
 
-    fn constant_fold(&self) -> ConstantFoldPass {
-        ConstantFoldPass::default()
+    fn constant_fold(&self, hugr: &Hugr) -> ConstantFoldPass {
+        // The pass runs on the whole module, so every function must be marked
+        // as an entrypoint with unknown inputs. Otherwise the analysis treats
+        // their bodies as unreachable.
+        hugr.children(hugr.module_root())
+            .filter(|&n| hugr.get_optype(n).is_func_defn())
+            .fold(ConstantFoldPass::default(), |pass, func| {
+                pass.with_inputs(func, std::iter::empty::<(IncomingPort, Value)>())
+            })
     }
 
     fn monomorphization(&self) -> MonomorphizePass {
-- 
2.43.0


From c1a4f8aec0bc833180a1a025cddd3617ba5f4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 02/46] fix: fold constants before lazifying bools in
 QSystemPass

---
 tket-qsystem/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index d527bcf..650b384 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -117,6 +117,12 @@ impl QSystemPass {
         }
 
         self.lower_tk2().run(hugr)?;
+        // Folding may replace uses of a value with a constant, leaving the
+        // original output unconnected. It must run before lazification, while
+        // bools are still copyable.
+        if self.constant_fold {
+            self.constant_fold(hugr).run(hugr)?;
+        }
         if self.lazify {
             self.replace_bools().run(hugr)?;
         }
@@ -131,9 +137,6 @@ impl QSystemPass {
             //  `hugr-passes`. See https://github.com/CQCL/hugr/issues/2419
             inline_constant_functions(hugr)?;
         }
-        if self.constant_fold {
-            self.constant_fold(hugr).run(hugr)?;
-        }
         if self.force_order {
             self.force_order(hugr)?;
         }
-- 
2.43.0


From be849bbde4f8f1dd4576521971b86bd5d3fd2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 03/46] fix: remove tuple packs when some unpacked values are
 unused

The rewrite assumed that every output of every unpack operation is an
output of the replaced subgraph, and panicked when some of them were not
used, or when the tuple had more than one other use.
---
 tket/src/passes/tuple_unpack.rs | 63 +++++++++++++--------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..9e5c4f0 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, Node, PortIndex};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -80,64 +80,51 @@ fn make_rewrite<T: HugrView<Node = Node>>(
     }
 
     // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
     Some(remove_pack_unpack(
         circ,
         &tuple_types,
         tuple_node,
         unpack_nodes,
-        num_other_outputs,
     ))
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// and possibly other operations that use the tuple itself.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-    num_other_outputs: usize,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
     let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
     let subcirc_signature = subgraph.signature(circ.hugr());
 
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
     let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
-    }
+    let inputs = replacement.input_wires().collect_vec();
+
+    // Only the ports that are used outside of the subgraph have a corresponding output.
+    // Each of them is either an unpacked value, wired directly to the input, or
+    // the tuple itself. If needed, re-add the tuple pack node for the latter.
+    let mut tuple = None;
+    let outputs = subgraph
+        .outgoing_ports()
+        .iter()
+        .map(|(node, port)| {
+            if *node != pack_node {
+                return inputs[port.index()];
+            }
+            *tuple.get_or_insert_with(|| {
+                let op = MakeTuple::new(tuple_types.to_vec().into());
+                let [tuple] = replacement
+                    .add_dataflow_op(op, inputs.iter().copied())
+                    .unwrap()
+                    .outputs_arr();
+                tuple
+            })
+        })
+        .collect_vec();
 
     let replacement = replacement
         .finish_hugr_with_outputs(outputs)
-- 
2.43.0


From 3f480e67f1235aa1061baa774d5bd334ebaff645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 04/46] fix: number the linear units of commands consistently

Commands looked up the linear units of their ports by port index instead
of by their position among the linear ports, which panicked or returned
the wrong unit for operations with a classical port before a linear one.
New units could also reuse the index of a live unit after another unit had
been consumed.
---
 tket/src/circuit/command.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..ae8e834 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,13 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        // The unit lists skip the non-linear ports of the operation.
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
@@ -252,6 +253,8 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// The next unused [`LinearUnit`] index.
+    next_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -281,7 +284,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
@@ -294,6 +297,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region,
             region_node_map,
             nodes,
+            next_unit: wire_unit.len(),
             wire_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
@@ -425,7 +429,8 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    let new_id = self.next_unit;
+                    self.next_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From 5fe4b86df499b96de5988f2b5e218cc9fb21c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 05/46] fix: do not commute gates past operations that are not
 TketOps

The commutation pass only recorded TketOps in its slices, so a gate could be
moved past any other operation on the same qubit. It also panicked on
circuits that allocate qubits.
---
 tket/src/passes/commutation.rs | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..bf43509 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -69,16 +69,27 @@ fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
 }
 
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
-    let mut slices = vec![];
+    // Every operation on linear values is a part of a slice, so that gates are
+    // not moved past the ones we cannot commute.
+    let commands: Vec<Rc<ComCommand>> = circ
+        .commands()
+        .map(|c| Rc::new(c.into()))
+        .filter(|c: &Rc<ComCommand>| c.qubits().next().is_some())
+        .collect();
 
-    let n_qbs = circ.qubit_count();
-    let mut qubit_free_slice = vec![0; n_qbs];
+    // Operations may introduce more linear units than the ones in the input.
+    let n_units = commands
+        .iter()
+        .flat_map(|c| c.qubits())
+        .map(|q| q.index() + 1)
+        .max()
+        .unwrap_or_default()
+        .max(circ.qubit_count());
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
+    let mut slices = vec![];
+    let mut qubit_free_slice = vec![0; n_units];
+
+    for command in commands {
         let free_slice = command
             .qubits()
             .map(|qb| qubit_free_slice[qb.index()])
@@ -90,20 +101,14 @@ fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
         }
         if free_slice >= slices.len() {
             debug_assert!(free_slice == slices.len());
-            slices.push(vec![None; n_qbs]);
+            slices.push(vec![None; n_units]);
         }
-        let command = Rc::new(command);
         add_to_slice(&mut slices[free_slice], command);
     }
 
     slices
 }
 
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
-}
-
 /// Starting from starting_index, work back along slices to check for the
 /// earliest slice that can accommodate this command, if any.
 fn available_slice(
-- 
2.43.0


From 1eb6214b09139309ff43319b45234a1eb5554152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 06/46] fix: do not commute a gate past an operation it depends
 on

An operation computing the angle of a rotation, or ordered before a gate,
could depend on a gate that the rotation commutes with. Pulling the
rotation before it made the circuit cyclic.
---
 tket/src/passes/commutation.rs | 37 +++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index bf43509..b29b64f 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, rc::Rc};
+use std::{
+    collections::{HashMap, HashSet},
+    rc::Rc,
+};
 
 use derive_more::{Display, Error, From};
 use hugr::hugr::patch::PatchVerification;
@@ -119,6 +122,7 @@ fn available_slice(
 ) -> Option<(usize, HashMap<Qb, Rc<ComCommand>>)> {
     let mut available = None;
     let mut prev_nodes: HashMap<Qb, Rc<ComCommand>> = HashMap::new();
+    let dependencies = non_qubit_dependencies(circ, command);
     for slice_index in (0..=starting_index).rev() {
         // if all qubit slots are empty here the command can be moved here
         if command
@@ -133,6 +137,12 @@ fn available_slice(
             // otherwise stop
             if let Some(new_prev_nodes) = commutes_at_slice(command, &slice_vec[slice_index], circ)
             {
+                if new_prev_nodes
+                    .values()
+                    .any(|prev| dependencies.contains(&prev.node()))
+                {
+                    break;
+                }
                 prev_nodes.extend(new_prev_nodes);
             } else {
                 break;
@@ -143,6 +153,31 @@ fn available_slice(
     available
 }
 
+/// The nodes that a command depends on through its inputs other than qubits,
+/// e.g. the operations that compute its angle, or the ones it is ordered after.
+///
+/// The command cannot be moved before any of those.
+fn non_qubit_dependencies(circ: &Circuit, command: &ComCommand) -> HashSet<Node> {
+    let hugr = circ.hugr();
+    let qubit_ports: HashSet<Port> = command
+        .qubits()
+        .filter_map(|qb| command.port_of_qb(qb, Direction::Incoming))
+        .collect();
+    let mut stack: Vec<Node> = hugr
+        .node_ports(command.node(), Direction::Incoming)
+        .filter(|port| !qubit_ports.contains(port))
+        .flat_map(|port| hugr.linked_ports(command.node(), port))
+        .map(|(node, _)| node)
+        .collect();
+    let mut dependencies = HashSet::new();
+    while let Some(node) = stack.pop() {
+        if dependencies.insert(node) {
+            stack.extend(hugr.input_neighbours(node));
+        }
+    }
+    dependencies
+}
+
 // If a command commutes back through this slice return a map from the qubits of
 // the command to the commands in this slice acting on those qubits.
 fn commutes_at_slice(
-- 
2.43.0


From 35d153ea17467e3fd6c1c02bd8977b634fcde009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 07/46] fix: keep the order of effects around elided borrows
 and returns

Removing a return and borrow with order edges dropped the ordering they
imposed between the operations before and after them.
---
 tket/src/passes/borrow_squash.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0f770dc..ee83c4d 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -9,7 +9,7 @@ use hugr::ops::{OpTag, OpTrait, Value};
 use hugr::std_extensions::arithmetic::int_types::ConstInt;
 use hugr::std_extensions::collections::borrow_array::{BArrayUnsafeOpDef, BORROW_ARRAY_TYPENAME};
 use hugr::types::{EdgeKind, Type};
-use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Wire};
+use hugr::{Direction, HugrView, IncomingPort, Node, OutgoingPort, Wire};
 
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet, VecDeque};
@@ -253,6 +253,12 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
             .single_linked_input(n, ports.out)
             .expect("array is linear");
         hugr.connect(in_array.0, in_array.1, out_array.0, out_array.1);
+        // Whatever came after the node must still come after whatever was before it.
+        for before in order_neighbours(hugr, n, Direction::Incoming) {
+            for after in order_neighbours(hugr, n, Direction::Outgoing) {
+                hugr.add_other_edge(before, after);
+            }
+        }
         hugr.remove_node(n);
     }
     let mut elided: Vec<_> = rb_elisions
@@ -283,6 +289,16 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     elided
 }
 
+/// The nodes connected to the state order port of `n` in the given direction.
+fn order_neighbours(hugr: &impl HugrView<Node = Node>, n: Node, dir: Direction) -> Vec<Node> {
+    hugr.get_optype(n)
+        .other_port(dir)
+        .into_iter()
+        .flat_map(|port| hugr.linked_ports(n, port))
+        .map(|(node, _)| node)
+        .collect()
+}
+
 fn next_array_op(
     hugr: &impl HugrView<Node = Node>,
     candidates: &mut impl Extend<Wire>,
-- 
2.43.0


From a7e4898d8ebcfba6411058eb6efb21de16cac121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 08/46] fix: skip tuple packs that cannot be replaced in one
 piece

The rewrite search panicked when the pack and unpack operations did not
form a convex subgraph.
---
 tket/src/passes/tuple_unpack.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 9e5c4f0..4f4310d 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -80,25 +80,23 @@ fn make_rewrite<T: HugrView<Node = Node>>(
     }
 
     // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    Some(remove_pack_unpack(
-        circ,
-        &tuple_types,
-        tuple_node,
-        unpack_nodes,
-    ))
+    remove_pack_unpack(circ, &tuple_types, tuple_node, unpack_nodes)
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
 /// and possibly other operations that use the tuple itself.
+///
+/// Returns `None` if the operations cannot be replaced together, e.g. because an
+/// order edge makes some other operation come in between.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-) -> CircuitRewrite {
+) -> Option<CircuitRewrite> {
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
-    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
+    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).ok()?;
     let subcirc_signature = subgraph.signature(circ.hugr());
 
     let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
@@ -132,12 +130,12 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
             panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
         });
 
-    subgraph
+    let rewrite = subgraph
         .create_simple_replacement(circ.hugr(), replacement)
         .unwrap_or_else(|e| {
             panic!("Failed to create rewrite for removing tuple pack/unpack operations. {e}")
-        })
-        .into()
+        });
+    Some(rewrite.into())
 }
 
 #[cfg(test)]
-- 
2.43.0


From c0c05b4ca53af5f5e94754a32292c17e05971c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 09/46] fix: reconnect every use of a value shared inside a
 chunk

A copyable value used more than once in a chunk has more than one chunk
input with the same connection. Only the uses of the last one were
reconnected.
---
 tket/src/passes/chunks.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..a85c573 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,11 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // A value used multiple times in the chunk has multiple inputs.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +181,10 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From 23d61560cba3efefded15328480203528370ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 10/46] fix: keep constants in the chunk that loads them

---
 tket/src/passes/chunks.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index a85c573..084fd72 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,7 +2,7 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::ops::{Index, IndexMut};
 
@@ -290,8 +290,26 @@ impl CircuitChunks {
         let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let mut running_cost = C::default();
         let mut current_group = 0;
-        for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
+        // Constants are kept in the same chunk as the operations that load them,
+        // since a static edge cannot cross the boundary of a chunk.
+        let mut loaded: HashSet<Node> = HashSet::new();
+        let commands = circ.commands().map(|cmd| cmd.node()).filter_map(|node| {
+            let mut nodes = vec![];
+            if !loaded.contains(&node) {
+                nodes.push(node);
+            }
+            if hugr.get_optype(node).is_const() {
+                let loads = hugr
+                    .output_neighbours(node)
+                    .filter(|load| hugr.get_parent(*load) == Some(circ.parent()));
+                nodes.extend(loads.filter(|load| loaded.insert(*load)));
+            }
+            (!nodes.is_empty()).then_some(nodes)
+        });
+        for (_, commands) in &commands.chunk_by(|nodes| {
+            let new_cost = nodes.iter().fold(running_cost.clone(), |cost, &node| {
+                cost + op_cost(hugr.get_optype(node))
+            });
             if new_cost.sub_cost(&max_cost).as_isize() > 0 {
                 running_cost = C::default();
                 current_group += 1;
@@ -300,7 +318,7 @@ impl CircuitChunks {
             }
             current_group
         }) {
-            chunks.push(Chunk::extract(circ, commands, &convex_checker));
+            chunks.push(Chunk::extract(circ, commands.flatten(), &convex_checker));
         }
         Self {
             signature: signature.into_owned(),
-- 
2.43.0


From cc4fbec6b341b07e6c6b1ec47eb8d9666c90514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 11/46] fix: replace opaque bools in constant borrow arrays

---
 tket-qsystem/src/replace_bools.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tket-qsystem/src/replace_bools.rs b/tket-qsystem/src/replace_bools.rs
index 0187a3c..e2d678f 100644
--- a/tket-qsystem/src/replace_bools.rs
+++ b/tket-qsystem/src/replace_bools.rs
@@ -3,7 +3,9 @@
 mod static_array;
 
 use derive_more::{Display, Error, From};
-use hugr::algorithms::replace_types::{NodeTemplate, ReplaceTypesError, ReplacementOptions};
+use hugr::algorithms::replace_types::{
+    handlers::generic_array_const, NodeTemplate, ReplaceTypesError, ReplacementOptions,
+};
 use hugr::algorithms::{
     ensure_no_nonlocal_edges, non_local::FindNonLocalEdgesError, ComposablePass, ReplaceTypes,
 };
@@ -335,6 +337,14 @@ fn lowerer() -> ReplaceTypes {
         },
     );
 
+    // Constant borrow arrays are not handled by default.
+    lw.replace_consts_parametrized(
+        borrow_array::EXTENSION
+            .get_type(&borrow_array::BORROW_ARRAY_TYPENAME)
+            .unwrap(),
+        generic_array_const::<BorrowArray>,
+    );
+
     // Replace all tket.bool ops.
     let read_op = BoolOp::read.to_extension_op().unwrap();
     lw.replace_op(&read_op, read_op_dest());
-- 
2.43.0


From 8ce1de0e373bd211fe62a4e9f30a6a544045e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 12/46] fix: hash control flow and tell all operations apart

The hash of a circuit with a conditional or a CFG inside failed (so the
optimiser panicked, and the circuit was not equal to itself), and operations
with the same display name (tags, list constants, called functions, constants
and values from outside the region) had the same hash.
---
 tket/src/circuit/hash.rs | 111 +++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 39 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 5112670..60adfa1 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -37,26 +37,69 @@ where
     T: HugrView<Node = Node>,
 {
     fn circuit_hash(&self, node: Node) -> Result<u64, HashError> {
-        let Some([_, output_node]) = self.get_io(node) else {
-            return Err(HashError::NotADfg);
-        };
-
-        let mut node_hashes = HashState::default();
-
-        let (region, node_map) = self.region_portgraph(node);
-        for pg_node in pg::Topo::new(&region).iter(&region) {
-            let node = node_map.from_portgraph(pg_node);
-            let hash = hash_node(self, node, &mut node_hashes)?;
-            if node_hashes.set_hash(node, hash).is_some() {
-                panic!("Hash already set for node {node}");
-            }
+        hash_region(self, node, &mut HashState::default())
+    }
+}
+
+/// Compute the hash of a dataflow region.
+fn hash_region(
+    circ: &impl HugrView<Node = Node>,
+    parent: Node,
+    state: &mut HashState,
+) -> Result<u64, HashError> {
+    let Some([_, output_node]) = circ.get_io(parent) else {
+        return Err(HashError::NotADfg);
+    };
+
+    let (region, node_map) = circ.region_portgraph(parent);
+    for pg_node in pg::Topo::new(&region).iter(&region) {
+        let node = node_map.from_portgraph(pg_node);
+        let hash = hash_node(circ, node, state)?;
+        if state.set_hash(node, hash).is_some() {
+            panic!("Hash already set for node {node}");
         }
+    }
+
+    // If the output node has no hash, the topological sort failed due to a cycle.
+    state.node_hash(output_node).ok_or(HashError::CyclicCircuit)
+}
 
-        // If the output node has no hash, the topological sort failed due to a cycle.
-        node_hashes
-            .node_hash(output_node)
-            .ok_or(HashError::CyclicCircuit)
+/// Compute the hash of the regions contained in a node.
+fn hash_children(
+    circ: &impl HugrView<Node = Node>,
+    node: Node,
+    state: &mut HashState,
+) -> Result<u64, HashError> {
+    let mut hasher = FxHasher64::default();
+    match circ.get_optype(node) {
+        OpType::Conditional(_) => {
+            for case in circ.children(node) {
+                hash_region(circ, case, state)?.hash(&mut hasher);
+            }
+        }
+        OpType::CFG(_) => {
+            // Number the blocks in the order they are reached from the entry,
+            // so that the hash does not depend on the order of the nodes.
+            let mut blocks: Vec<Node> = circ.children(node).take(1).collect();
+            let mut next = 0;
+            while let Some(&block) = blocks.get(next) {
+                next += 1;
+                hashable_op(circ.get_optype(block)).hash(&mut hasher);
+                if circ.get_io(block).is_some() {
+                    hash_region(circ, block, state)?.hash(&mut hasher);
+                }
+                for successor in circ.output_neighbours(block) {
+                    let index = blocks.iter().position(|&b| b == successor);
+                    index.unwrap_or(blocks.len()).hash(&mut hasher);
+                    if index.is_none() {
+                        blocks.push(successor);
+                    }
+                }
+            }
+        }
+        _ => return hash_region(circ, node, state),
     }
+    Ok(hasher.finish())
 }
 
 /// Auxiliary data for circuit hashing.
@@ -85,25 +128,12 @@ impl HashState {
 }
 
 /// Returns a hashable representation of an operation.
+///
+/// The name of an operation does not determine it. We use the serialized
+/// definition instead, which includes all its parameters.
 fn hashable_op(op: &OpType) -> impl Hash {
-    match op {
-        OpType::ExtensionOp(op) if !op.args().is_empty() => {
-            // TODO: Require hashing for TypeParams?
-            format!(
-                "{}[{}]",
-                op.def().name(),
-                serde_json::to_string(op.args()).unwrap()
-            )
-        }
-        OpType::OpaqueOp(op) if !op.args().is_empty() => {
-            format!(
-                "{}[{}]",
-                op.qualified_id(),
-                serde_json::to_string(op.args()).unwrap()
-            )
-        }
-        _ => op.to_string(),
-    }
+    // TODO: Require hashing for TypeParams?
+    serde_json::to_string(op).unwrap()
 }
 
 /// Compute the hash of a circuit command.
@@ -111,8 +141,7 @@ fn hashable_op(op: &OpType) -> impl Hash {
 /// Uses the hash of the operation and the node hash of its predecessors.
 ///
 /// # Panics
-/// - If the command is a container node, or if it is a parametric CustomOp.
-/// - If the hash of any of its predecessors has not been set.
+/// - If the hash of any of its children has already been set.
 fn hash_node(
     circ: &impl HugrView<Node = Node>,
     node: Node,
@@ -123,7 +152,7 @@ fn hash_node(
 
     // Hash the node children
     if circ.children(node).next().is_some() {
-        circ.circuit_hash(node)?.hash(&mut hasher);
+        hash_children(circ, node, state)?.hash(&mut hasher);
     }
 
     // Hash the node operation
@@ -136,7 +165,11 @@ fn hash_node(
         let input_hash = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
-                let pred_node_hash = state.node_hash(pred_node);
+                // Definitions and values from outside the hashed circuit are
+                // identified by their operation.
+                let pred_node_hash = state
+                    .node_hash(pred_node)
+                    .unwrap_or_else(|| fxhash::hash64(&hashable_op(circ.get_optype(pred_node))));
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
             .fold(0, |total, hash| hash ^ total);
-- 
2.43.0


From ef2d00f521a6e4bd52c48dd1f69b20fca82f0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 13/46] fix: refuse to extract non-convex opaque subgraphs
 instead of panicking

---
 tket/src/serialize/pytket/opaque/subgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/opaque/subgraph.rs b/tket/src/serialize/pytket/opaque/subgraph.rs
index a001088..6369792 100644
--- a/tket/src/serialize/pytket/opaque/subgraph.rs
+++ b/tket/src/serialize/pytket/opaque/subgraph.rs
@@ -174,7 +174,7 @@ impl<N: HugrNode> OpaqueSubgraph<N> {
         hugr: &impl HugrView<Node = N>,
     ) -> Result<Hugr, InvalidSubgraph<N>> {
         let nodes = self.nodes().iter().cloned().collect_vec();
-        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr).unwrap();
+        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr)?;
         Ok(subgraph.extract_subgraph(hugr, ""))
     }
 }
-- 
2.43.0


From 747fed6cce8d6116e17654d0e4ac79963d1c710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 14/46] fix: encode unsupported inputs before assigning
 registers to a node

---
 tket/src/serialize/pytket/encoder.rs | 37 +++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..0f36b49 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -309,18 +309,33 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // the wire is the output of an unsupported node group.
         //
         // We need to emit the unsupported node here before returning the values.
-        if self.unsupported.is_unsupported(wire.node()) {
-            let unsupported_nodes = self
-                .unsupported
-                .extract_component(wire.node(), circ.hugr())?;
-            self.emit_unsupported(&unsupported_nodes, circ)?;
-            debug_assert!(!self.unsupported.is_unsupported(wire.node()));
+        if self.emit_unsupported_source(wire, circ)? {
             return self.get_wire_values(wire, circ);
         }
 
         Err(PytketEncodeOpError::WireHasNoValues { wire }.into())
     }
 
+    /// Emit the unsupported subgraph containing the wire's source, if it has not
+    /// been emitted yet.
+    ///
+    /// Returns whether a subgraph was emitted.
+    fn emit_unsupported_source(
+        &mut self,
+        wire: Wire<H::Node>,
+        circ: &Circuit<H>,
+    ) -> Result<bool, PytketEncodeError<H::Node>> {
+        if !self.unsupported.is_unsupported(wire.node()) {
+            return Ok(false);
+        }
+        let unsupported_nodes = self
+            .unsupported
+            .extract_component(wire.node(), circ.hugr())?;
+        self.emit_unsupported(&unsupported_nodes, circ)?;
+        debug_assert!(!self.unsupported.is_unsupported(wire.node()));
+        Ok(true)
+    }
+
     /// Given a node in the HUGR, returns all the [`TrackedValue`]s associated
     /// with its inputs.
     ///
@@ -366,6 +381,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
 
         let optype = circ.hugr().get_optype(node);
         let other_input_port = optype.other_input_port();
+        let mut input_wires = Vec::new();
         for input in circ.hugr().node_inputs(node) {
             // Ignore order edges.
             if Some(input) == other_input_port {
@@ -380,7 +396,16 @@ impl<H: HugrView> PytketEncoderContext<H> {
             if !wire_filter(wire) {
                 continue;
             }
+            input_wires.push(wire);
+        }
+
+        // Emit the unsupported inputs before exploring any wire, so they do not
+        // reuse the registers of the other inputs.
+        for &wire in &input_wires {
+            self.emit_unsupported_source(wire, circ)?;
+        }
 
+        for wire in input_wires {
             match self.get_wire_values(wire, circ) {
                 Ok(values) => tracked_values.extend(values.iter().copied()),
                 Err(PytketEncodeError::OpEncoding(PytketEncodeOpError::WireHasNoValues {
-- 
2.43.0


From b9d70ce683b2ea83c46a9d38a8f84f0ccba0feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 15/46] fix: keep the qubit order of the region outputs in
 pytket permutations

---
 .../serialize/pytket/encoder/value_tracker.rs | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..ae35023 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -593,14 +593,8 @@ pub(super) fn compute_final_permutation(
     mut actual_outputs: Vec<RegisterUnit>,
     all_inputs: &[RegisterUnit],
 ) -> Vec<circuit_json::ImplicitPermutation> {
-    let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -612,17 +606,14 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
+    // The register at position `i` of the outputs ends up in the `i`-th declared register.
     let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+        .into_iter()
+        .zip(all_inputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
         .collect_vec();
-- 
2.43.0


From 83d6c1ed7ba607a6f47ceb911a5a289a302afed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 16/46] fix: keep output bits, parameters, order edges and
 extra subgraphs when reassembling pytket circuits

---
 tket/src/serialize/pytket.rs                  |  2 +-
 tket/src/serialize/pytket/circuit.rs          | 45 +++++++++++++++----
 tket/src/serialize/pytket/decoder.rs          | 31 +++++++++----
 tket/src/serialize/pytket/encoder.rs          | 23 ++++------
 .../serialize/pytket/encoder/value_tracker.rs |  3 ++
 tket/src/serialize/pytket/extension/core.rs   |  2 +-
 6 files changed, 71 insertions(+), 35 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..7542ea9 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -134,7 +134,7 @@ impl TKETDecode for SerialCircuit {
     ) -> Result<Node, Self::DecodeError> {
         let mut decoder = PytketDecoderContext::new(self, hugr, target, options, None)?;
         decoder.run_decoder(&self.commands, None)?;
-        Ok(decoder.finish(&[])?.node())
+        Ok(decoder.finish(&[], &[])?.node())
     }
 
     fn encode(circuit: &Circuit, options: EncodeOptions) -> Result<Self, Self::EncodeError> {
diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..153b7bc 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -14,6 +14,7 @@ use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
 use tket_json_rs::circuit_json::{Command as PytketCommand, SerialCircuit};
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use crate::serialize::pytket::decoder::PytketDecoderContext;
 use crate::serialize::pytket::opaque::SubgraphId;
@@ -64,6 +65,11 @@ pub(super) struct EncodedCircuitInfo {
     /// We require this to correctly reconstruct the input order in the reassembled hugr,
     /// since parameters in pytket are unordered.
     pub input_params: Vec<String>,
+    /// List of bit registers in the order they appear in the hugr output.
+    ///
+    /// Pytket has no implicit permutation for bits, so the order of the
+    /// registers does not determine the order of the outputs.
+    pub output_bits: Vec<RegisterUnit>,
     /// List of output parameter expressions found at the end of the encoded region.
     //
     // TODO: The decoder does not currently connect these, everything that
@@ -75,13 +81,13 @@ pub(super) struct EncodedCircuitInfo {
 /// pytket circuit, as they cannot be attached to a pytket command.
 #[derive(Debug, Clone)]
 pub(super) struct AdditionalNodesAndWires {
-    /// A subgraph of the region that does not contain any operation encodable
-    /// as a pytket command, and has no qubit/bits in its boundary that could be
+    /// Subgraphs of the region that do not contain any operation encodable
+    /// as a pytket command, and have no qubit/bits in their boundary that could be
     /// used to emit an opaque barrier command in the [`serial_circuit`].
-    pub extra_subgraph: Option<SubgraphId>,
-    /// Parameter expression inputs to the `extra_subgraph`.
-    /// These cannot be encoded either if there's no pytket command to attach them to.
-    pub extra_subgraph_params: Vec<String>,
+    ///
+    /// Each one includes its parameter expression inputs. These cannot be
+    /// encoded either if there's no pytket command to attach them to.
+    pub extra_subgraphs: Vec<(SubgraphId, Vec<String>)>,
     /// List of wires that directly connected the input node to the output node in the encoded region,
     /// and were not encoded in [`serial_circuit`].
     ///
@@ -195,7 +201,9 @@ impl EncodedCircuit<Node> {
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
             )?;
-            let decoded_node = decoder.finish(&encoded.output_params)?.node();
+            let decoded_node = decoder
+                .finish(&encoded.output_bits, &encoded.output_params)?
+                .node();
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -218,6 +226,19 @@ impl EncodedCircuit<Node> {
                 }
             }
 
+            // Move any order edges from the transplanted nodes to the old output node.
+            let old_output = hugr.get_io(original_region).unwrap()[1];
+            let new_output = hugr.get_io(decoded_node).unwrap()[1];
+            if let Some(order_port) = hugr.get_optype(old_output).other_input_port() {
+                for (src_node, src_port) in
+                    hugr.linked_outputs(old_output, order_port).collect_vec()
+                {
+                    if hugr.get_parent(src_node) == Some(decoded_node) {
+                        hugr.connect(src_node, src_port, new_output, order_port);
+                    }
+                }
+            }
+
             // Replace the region with the decoded function.
             //
             // All descendant nodes that were re-used by the decoded circuit got
@@ -352,7 +373,8 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
             }
             .wrap());
         }
-        let serial_circuit = &self[region];
+        let encoded = &self.circuits[&region];
+        let serial_circuit = &encoded.serial_circuit;
 
         if self.len() > 1 {
             unimplemented!(
@@ -362,11 +384,16 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
 
         let mut hugr = Hugr::new();
         let target = DecodeInsertionTarget::Function { fn_name };
+        let mut options = options;
+        if options.input_params.is_empty() && options.signature.is_some() {
+            // Match the parameters with the inputs in the signature.
+            options.input_params = encoded.input_params.clone();
+        }
 
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
         decoder.run_decoder(&serial_circuit.commands, None)?;
-        decoder.finish(&[])?;
+        decoder.finish(&encoded.output_bits, &encoded.output_params)?;
         Ok(hugr)
     }
 
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..b90b860 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -28,6 +28,7 @@ use itertools::Itertools;
 use serde_json::json;
 use tket_json_rs::circuit_json;
 use tket_json_rs::circuit_json::SerialCircuit;
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use super::{
     PytketDecodeError, METADATA_B_REGISTERS, METADATA_INPUT_PARAMETERS, METADATA_PHASE,
@@ -300,16 +301,32 @@ impl<'h> PytketDecoderContext<'h> {
     ///
     /// # Arguments
     ///
+    /// - `output_bits`: The bit registers to associate with the region's
+    ///   outputs, in order. Any further output bits are taken from the remaining
+    ///   registers, in the order of the serial circuit.
     /// - `output_params`: A list of output parameter expressions to associate
     ///   with the region's outputs.
-    pub(super) fn finish(mut self, output_params: &[String]) -> Result<Node, PytketDecodeError> {
+    pub(super) fn finish(
+        mut self,
+        output_bits: &[RegisterUnit],
+        output_params: &[String],
+    ) -> Result<Node, PytketDecodeError> {
         // Order the final wires according to the serial circuit register order.
         let known_qubits = self
             .wire_tracker
             .known_pytket_qubits()
             .cloned()
             .collect_vec();
-        let known_bits = self.wire_tracker.known_pytket_bits().cloned().collect_vec();
+        let mut known_bits = output_bits
+            .iter()
+            .map(|reg| self.wire_tracker.tracked_bit_for_register(reg).cloned())
+            .collect::<Result<Vec<_>, _>>()?;
+        known_bits.extend(
+            self.wire_tracker
+                .known_pytket_bits()
+                .filter(|bit| !output_bits.contains(bit.pytket_register()))
+                .cloned(),
+        );
         let mut qubits = known_qubits.as_slice();
         let mut bits = known_bits.as_slice();
 
@@ -477,14 +494,10 @@ impl<'h> PytketDecoderContext<'h> {
         // Add additional subgraphs and wires not encoded in commands.
         let [input_node, output_node] = self.builder.io();
         if let Some(extras) = extra_nodes_and_wires {
-            if let Some(subgraph_id) = extras.extra_subgraph {
-                let params = extras
-                    .extra_subgraph_params
-                    .iter()
-                    .map(|p| self.load_half_turns(p))
-                    .collect_vec();
+            for (subgraph_id, params) in &extras.extra_subgraphs {
+                let params = params.iter().map(|p| self.load_half_turns(p)).collect_vec();
 
-                self.insert_external_subgraph(subgraph_id, &[], &[], &params)
+                self.insert_external_subgraph(*subgraph_id, &[], &[], &params)
                     .map_err(|e| e.hugr_op("External subgraph"))?;
             }
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 0f36b49..c66c55c 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -224,30 +224,23 @@ impl<H: HugrView> PytketEncoderContext<H> {
         region: H::Node,
     ) -> Result<(EncodedCircuitInfo, OpaqueSubgraphs<H::Node>), PytketEncodeError<H::Node>> {
         // Add any remaining unsupported nodes
-        let mut extra_subgraph: Option<BTreeSet<H::Node>> = None;
-        let mut extra_subgraph_params = Vec::new();
+        let mut extra_subgraphs = Vec::new();
         while !self.unsupported.is_empty() {
             let node = self.unsupported.iter().next().unwrap();
             let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
             match self.emit_unsupported(&opaque_subgraphs, circ) {
                 Ok(()) => (),
                 Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { params }) => {
-                    // We'll store the nodes in the `extra_subgraph` field of the `EncodedCircuitInfo`.
+                    // We'll store the subgraph in the `extra_subgraphs` field of the `EncodedCircuitInfo`.
                     // So the decoder can reconstruct the original subgraph.
-                    extra_subgraph
-                        .get_or_insert_default()
-                        .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
+                    let id = self
+                        .opaque_subgraphs
+                        .register_opaque_subgraph(opaque_subgraphs);
+                    extra_subgraphs.push((id, params));
                 }
                 Err(e) => return Err(e),
             }
         }
-        let extra_subgraph = extra_subgraph
-            .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
-                let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
-                Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
-            })
-            .transpose()?;
 
         let tracker_result = self.values.finish(circ, region)?;
 
@@ -262,10 +255,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let info = EncodedCircuitInfo {
             serial_circuit: ser,
             input_params: tracker_result.input_params,
+            output_bits: tracker_result.output_bits,
             output_params: tracker_result.params,
             additional_nodes_and_wires: AdditionalNodesAndWires {
-                extra_subgraph,
-                extra_subgraph_params,
+                extra_subgraphs,
                 straight_through_wires: tracker_result.straight_through_wires,
             },
         };
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index ae35023..fc7b03c 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -185,6 +185,8 @@ pub struct ValueTrackerResult {
     pub qubits: Vec<RegisterUnit>,
     /// The final list of bit registers.
     pub bits: Vec<RegisterUnit>,
+    /// The bit registers carried by the region's outputs, in order.
+    pub output_bits: Vec<RegisterUnit>,
     /// The final list of parameter expressions at the output.
     pub params: Vec<String>,
     /// The implicit permutation of the qubit registers.
@@ -487,6 +489,7 @@ impl<N: HugrNode> ValueTracker<N> {
         Ok(ValueTrackerResult {
             qubits: self.qubits,
             bits: self.bits,
+            output_bits: bit_outputs,
             params: param_outputs,
             qubit_permutation,
             input_params: self.input_params,
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..822f8d0 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -86,7 +86,7 @@ impl PytketDecoder for CoreDecoder {
                     decoder.opaque_subgraphs,
                 )?;
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
-                let internal = nested_decoder.finish(&[])?.node();
+                let internal = nested_decoder.finish(&[], &[])?.node();
 
                 decoder
                     .wire_up_node(internal, qubits, qubits, bits, bits, params)
-- 
2.43.0


From d6c6d986336b4606d8615bb1e9dc47c8d1075dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 17/46] fix: do not overwrite bit registers that are read again
 in pytket circuits

---
 tket/src/serialize/pytket/decoder.rs          | 15 ++++--
 tket/src/serialize/pytket/encoder.rs          |  6 ++-
 .../serialize/pytket/encoder/value_tracker.rs | 47 ++++++++++++++++++-
 tket/src/serialize/pytket/extension/bool.rs   | 14 ++++--
 tket/src/serialize/pytket/extension/tk1.rs    |  2 +-
 5 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index b90b860..57168a0 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -718,9 +718,18 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
+        // Copyable bits can be read again after this.
+        let mut used_bits = input_bits.iter();
+        for wire in input_wires.iter_values() {
+            let wire_bits = used_bits.by_ref().take(wire.num_bits());
+            if wire.ty().copyable() {
+                wire_bits.for_each(drop);
+            } else {
+                wire_bits.for_each(|b| {
+                    self.wire_tracker.mark_bit_outdated(b.clone());
+                });
+            }
+        }
 
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index c66c55c..567123b 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -1070,7 +1070,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
@@ -1099,6 +1099,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let mut bits = output_bits.iter().copied();
         let mut params = out_params.into_iter();
         let mut new_outputs = TrackedValues::default();
+        let mut used_bits = input_bits.to_vec();
         for (wire, count) in output_counts {
             if !wire_filter(wire) {
                 continue;
@@ -1120,7 +1121,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
             out_wire_values.extend(bits.by_ref().take(count.bits).map(TrackedValue::Bit));
             let reused_bit_count = out_wire_values.len() - non_bit_count;
             for _ in reused_bit_count..count.bits {
-                let b = self.values.new_bit();
+                let b = self.values.new_bit_not_in(&used_bits);
+                used_bits.push(b);
                 new_outputs.bits.push(b);
                 out_wire_values.push(TrackedValue::Bit(b));
             }
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index fc7b03c..0ff622b 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -63,6 +63,11 @@ pub struct ValueTracker<N> {
     /// resorting to the `bit_reg_generator`.
     unused_bits: BTreeSet<TrackedBit>,
 
+    /// Number of tracked wires carrying each value.
+    ///
+    /// Multiple wires may carry the same value, e.g. after a transparent node.
+    wire_counts: HashMap<TrackedValue, usize>,
+
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
     /// A generator of new registers units to use for bit wires.
@@ -224,6 +229,7 @@ impl<N: HugrNode> ValueTracker<N> {
             wires: BTreeMap::new(),
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
+            wire_counts: HashMap::new(),
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -249,6 +255,7 @@ impl<N: HugrNode> ValueTracker<N> {
             PytketEncodeError::NonDataflowRegion { region, optype }
         })?;
         let inp_node = circ.hugr().get_io(region).unwrap()[0];
+        let mut input_wires = Vec::with_capacity(signature.input_count());
         for (port, typ) in circ
             .hugr()
             .node_outputs(inp_node)
@@ -280,6 +287,11 @@ impl<N: HugrNode> ValueTracker<N> {
                 wire_values.push(TrackedValue::Param(param));
             }
 
+            input_wires.push((wire, wire_values));
+        }
+        // Only register the wires once all the inputs have their values, so
+        // registers of unused inputs are not assigned to another input.
+        for (wire, wire_values) in input_wires {
             tracker.register_wire(wire, wire_values, circ)?;
         }
 
@@ -308,6 +320,32 @@ impl<N: HugrNode> ValueTracker<N> {
         })
     }
 
+    /// Create a new bit register name, different from the ones in `used`.
+    ///
+    /// Used for the outputs of a command that reads the bits in `used`, even if
+    /// those bits are not required afterwards.
+    pub(super) fn new_bit_not_in(&mut self, used: &[TrackedBit]) -> TrackedBit {
+        let free = self
+            .unused_bits
+            .iter()
+            .copied()
+            .find(|bit| !used.contains(bit));
+        match free {
+            Some(bit) => {
+                self.unused_bits.remove(&bit);
+                bit
+            }
+            None => self.new_unset_bit(),
+        }
+    }
+
+    /// Create a new bit register that has not been used before, with an initial
+    /// value of `false`.
+    pub fn new_unset_bit(&mut self) -> TrackedBit {
+        self.bits.push(self.bit_reg_generator.next());
+        TrackedBit(self.bits.len() - 1)
+    }
+
     /// Register a new parameter string expression.
     ///
     /// Returns a unique identifier for the expression.
@@ -337,6 +375,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
         // Remove any qubit/bit used here from the unused set.
         for value in &values {
+            *self.wire_counts.entry(*value).or_default() += 1;
             match value {
                 TrackedValue::Qubit(qb) => {
                     self.unused_qubits.remove(qb);
@@ -408,8 +447,14 @@ impl<N: HugrNode> ValueTracker<N> {
         let wire = self.wires.remove(&wire).unwrap();
         let values = wire.values?;
 
-        // Free up the qubit and bit registers associated with the wire.
+        // Free up the qubit and bit registers associated with the wire,
+        // unless another wire still carries them.
         for value in &values {
+            let count = self.wire_counts.entry(*value).or_default();
+            *count = count.saturating_sub(1);
+            if *count > 0 {
+                continue;
+            }
             match value {
                 TrackedValue::Qubit(qb) => {
                     self.unused_qubits.insert(*qb);
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..2d8a194 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
@@ -81,11 +81,15 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
             return Ok(None);
         };
 
-        let new_bit = encoder.values.new_bit();
-        if const_b.value() {
+        let new_bit = if const_b.value() {
+            let bit = encoder.values.new_bit();
             let op = set_bits_op(&[true]);
-            encoder.emit_command(op, &[], &[new_bit], None);
-        }
+            encoder.emit_command(op, &[], &[bit], None);
+            bit
+        } else {
+            // Reused registers may not be `false`.
+            encoder.values.new_unset_bit()
+        };
 
         Ok(Some(TrackedValues::new_bits([new_bit])))
     }
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index 2cd84f6..db39900 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -53,7 +53,7 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
         encoder.emit_node_command(
             node,
             circ,
-            EmitCommandOptions::new(),
+            EmitCommandOptions::new().reuse_all_bits(),
             // Emit the pre-defined pytket operation stored in the metadata.
             move |_| op.serialised_op,
         )?;
-- 
2.43.0


From b9f809ee837f734c49d280c80f3bee63c1d3db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 18/46] fix: track the outputs of opaque subgraphs in pytket
 circuits

---
 tket/src/serialize/pytket/decoder.rs          |   2 +-
 tket/src/serialize/pytket/decoder/subgraph.rs | 123 +++++++++++++++---
 tket/src/serialize/pytket/decoder/wires.rs    |  14 +-
 tket/src/serialize/pytket/encoder.rs          |  24 ++--
 tket/src/serialize/pytket/opaque/payload.rs   |   7 +
 5 files changed, 135 insertions(+), 35 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 57168a0..adc3a8e 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -435,7 +435,7 @@ impl<'h> PytketDecoderContext<'h> {
             .node())
     }
 
-    /// Add the implicit QFree operations for a list of qubits that are not in the hugr output.
+    /// Add the implicit QFree operations for a list of qubits that are not used again.
     ///
     /// We only do this if there's a wire with type `qb_t` containing the qubit.
     fn add_implicit_qfree_operations(&mut self, qubits: &[TrackedQubit]) {
diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..6f3b258 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -6,11 +6,13 @@ use std::sync::Arc;
 use hugr::builder::Container;
 use hugr::hugr::hugrmut::{HugrMut, InsertedForest};
 use hugr::ops::{OpTag, OpTrait};
+use hugr::std_extensions::arithmetic::float_types::float64_type;
 use hugr::types::Type;
 use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 
+use crate::extension::rotation::rotation_type;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, FoundWire, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
@@ -30,7 +32,7 @@ impl<'h> PytketDecoderContext<'h> {
         params: &[LoadedParameter],
         payload: &OpaqueSubgraphPayload,
     ) -> Result<DecodeStatus, PytketDecodeError> {
-        let status = match payload {
+        match payload {
             OpaqueSubgraphPayload::External { id } => {
                 self.insert_external_subgraph(*id, qubits, bits, params)
             }
@@ -39,17 +41,7 @@ impl<'h> PytketDecoderContext<'h> {
                 inputs,
                 outputs,
             } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
-        }?;
-
-        // Mark the used qubits and bits as outdated.
-        qubits.iter().for_each(|q| {
-            self.wire_tracker.mark_qubit_outdated(q.clone());
-        });
-        bits.iter().for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
-
-        Ok(status)
+        }
     }
 
     /// Move the subgraph nodes referenced by an
@@ -92,12 +84,13 @@ impl<'h> PytketDecoderContext<'h> {
     fn rewire_external_subgraph_inputs(
         &mut self,
         subgraph: &OpaqueSubgraph<Node>,
-        mut input_qubits: &[TrackedQubit],
+        qubits: &[TrackedQubit],
         mut input_bits: &[TrackedBit],
         mut input_params: &[LoadedParameter],
         old_parent: Node,
         new_parent: Node,
     ) -> Result<(), PytketDecodeError> {
+        let mut input_qubits = qubits;
         let old_input = self.builder.hugr().get_io(old_parent).unwrap()[0];
         let new_input = self.builder.hugr().get_io(new_parent).unwrap()[0];
 
@@ -148,6 +141,8 @@ impl<'h> PytketDecoderContext<'h> {
                 .connect(wire.node(), wire.source(), *tgt_node, *tgt_port);
         }
 
+        self.consume_subgraph_qubits(qubits, input_qubits)?;
+
         Ok(())
     }
 
@@ -169,7 +164,11 @@ impl<'h> PytketDecoderContext<'h> {
         let new_output = self.builder.hugr().get_io(new_parent).unwrap()[1];
 
         let mut output_qubits = qubits;
-        let mut output_bits = bits;
+        let mut output_bits = self.subgraph_output_bits(
+            subgraph.signature().input().iter(),
+            subgraph.signature().output().iter(),
+            bits,
+        );
 
         for (ty, (src, src_port)) in subgraph
             .signature()
@@ -181,13 +180,29 @@ impl<'h> PytketDecoderContext<'h> {
             // to track new qubits and bits, re-connect it to some output, or
             // leave it untouched.
             let wire = Wire::new(*src, *src_port);
-            if let Some(counts) = self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
+            let is_param = opaque_param(ty, wire).is_some();
+            let counts = self.config().type_to_pytket(ty).filter(|c| c.params == 0);
+            if is_param || counts.is_some() {
                 // This port declares new outputs to be tracked by the decoder.
-                // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
 
-                // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
+                // Make sure to disconnect the old wire, but keep the edges inside the subgraph.
+                for (tgt, tgt_port) in self
+                    .builder
+                    .hugr()
+                    .linked_inputs(*src, *src_port)
+                    .collect_vec()
+                {
+                    if !subgraph.nodes().contains(&tgt) {
+                        self.builder.hugr_mut().disconnect(tgt, tgt_port);
+                    }
+                }
 
+                if let Some(param) = opaque_param(ty, wire) {
+                    let name = EncodedEdgeID::new(wire).param_name(0);
+                    self.wire_tracker.register_opaque_parameter(param, name);
+                    continue;
+                }
+                let counts = counts.unwrap();
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
                 if wire_qubits.is_none() || wire_bits.is_none() {
@@ -229,6 +244,49 @@ impl<'h> PytketDecoderContext<'h> {
         Ok(())
     }
 
+    /// Mark the qubits of an opaque barrier as outdated, once the inputs of its
+    /// subgraph have been connected.
+    ///
+    /// Qubits in `unused_qubits` did not get connected to the subgraph. They are
+    /// freed before its outputs overwrite the register.
+    fn consume_subgraph_qubits(
+        &mut self,
+        qubits: &[TrackedQubit],
+        unused_qubits: &[TrackedQubit],
+    ) -> Result<(), PytketDecodeError> {
+        self.add_implicit_qfree_operations(unused_qubits);
+        for q in qubits {
+            // The register may have been lazily initialized by the subgraph.
+            let latest = self
+                .wire_tracker
+                .tracked_qubit_for_register(q.pytket_register())?
+                .clone();
+            self.wire_tracker.mark_qubit_outdated(latest);
+        }
+        Ok(())
+    }
+
+    /// Returns the bits of an opaque barrier that carry the outputs of its
+    /// subgraph, given all of the command's bits.
+    ///
+    /// The encoder lists the input bits followed by the output bits. In circuits
+    /// with fewer bits than that, the outputs overwrite the input registers.
+    fn subgraph_output_bits<'t, 'b>(
+        &self,
+        inputs: impl Iterator<Item = &'t Type>,
+        outputs: impl Iterator<Item = &'t Type>,
+        bits: &'b [TrackedBit],
+    ) -> &'b [TrackedBit] {
+        let count_bits = |ty: &Type| self.config().type_to_pytket(ty).map_or(0, |c| c.bits);
+        let input_bits: usize = inputs.map(count_bits).sum();
+        let output_bits: usize = outputs.map(count_bits).sum();
+        if bits.len() >= input_bits + output_bits {
+            &bits[input_bits..]
+        } else {
+            bits
+        }
+    }
+
     /// Insert an [`OpaqueSubgraphPayload::Inline`] into the Hugr being decoded.
     fn insert_inline_subgraph(
         &mut self,
@@ -326,7 +384,11 @@ impl<'h> PytketDecoderContext<'h> {
 
         self.wire_inline_subgraph_outputs(
             qubits,
-            bits,
+            self.subgraph_output_bits(
+                payload_inputs.iter().map(|(ty, _)| ty),
+                payload_outputs.iter().map(|(ty, _)| ty),
+                bits,
+            ),
             payload_outputs,
             to_insert_outputs,
             &insertion_result,
@@ -340,13 +402,14 @@ impl<'h> PytketDecoderContext<'h> {
     /// Helper for [`Self::insert_inline_subgraph`].
     fn wire_inline_subgraph_inputs(
         &mut self,
-        mut input_qubits: &[TrackedQubit],
+        qubits: &[TrackedQubit],
         mut input_bits: &[TrackedBit],
         mut input_params: &[LoadedParameter],
         payload_inputs: &[(Type, EncodedEdgeID)],
         to_insert_inputs: hugr::hugr::views::sibling_subgraph::IncomingPorts<Node>,
         insertion_result: &InsertedForest,
     ) -> Result<(), PytketDecodeError> {
+        let mut input_qubits = qubits;
         // A list of incoming ports corresponding to [`EncodedEdgeID`]s that must be
         // connected once the outgoing port is created.
         //
@@ -385,6 +448,8 @@ impl<'h> PytketDecoderContext<'h> {
             }
         }
 
+        self.consume_subgraph_qubits(qubits, input_qubits)?;
+
         Ok(())
     }
 
@@ -407,10 +472,14 @@ impl<'h> PytketDecoderContext<'h> {
         {
             let node = *insertion_result.node_map.get(&to_insert_node).unwrap();
             let wire = Wire::new(node, port);
+            if let Some(param) = opaque_param(ty, wire) {
+                self.wire_tracker
+                    .register_opaque_parameter(param, edge_id.param_name(0));
+                continue;
+            }
             match self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
                 Some(counts) => {
                     // Track the registers in the subgraph output wires.
-                    // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
                     // We only track qubit/bit wires here.
                     let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                     let wire_bits = split_off(&mut output_bits, ..counts.bits);
@@ -443,6 +512,18 @@ impl<'h> PytketDecoderContext<'h> {
     }
 }
 
+/// Returns the parameter carried by an output of an opaque subgraph, if it is a
+/// float or a rotation.
+fn opaque_param(ty: &Type, wire: Wire) -> Option<LoadedParameter> {
+    if ty == &float64_type() {
+        Some(LoadedParameter::float_half_turns(wire))
+    } else if ty == &rotation_type() {
+        Some(LoadedParameter::rotation(wire))
+    } else {
+        None
+    }
+}
+
 // TODO: Replace with array's `split_off` method once MSRV is ≥1.87
 fn split_off<'a, T>(slice: &mut &'a [T], range: RangeTo<usize>) -> Option<&'a [T]> {
     let split_index = range.end;
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..59f7280 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -725,8 +725,10 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() => self.initialize_qubit_wire(builder, qubit_args[0].clone())?,
-            _ if ty == &bool_t() || ty == &bool_type() => {
+            _ if ty == &qb_t() && !qubit_args.is_empty() => {
+                self.initialize_qubit_wire(builder, qubit_args[0].clone())?
+            }
+            _ if (ty == &bool_t() || ty == &bool_type()) && !bit_args.is_empty() => {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
             _ => {
@@ -778,8 +780,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
@@ -1057,6 +1058,11 @@ impl WireTracker {
         Ok(())
     }
 
+    /// Associate a wire computed by an opaque subgraph with a parameter.
+    pub(super) fn register_opaque_parameter(&mut self, loaded: LoadedParameter, param: String) {
+        self.parameters.insert(param, loaded);
+    }
+
     /// Track a parameter input to the region for which we don't have a variable name yet.
     pub(super) fn register_unused_parameter_input(&mut self, loaded: LoadedParameter) {
         self.unused_parameter_inputs.push_back(loaded);
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 567123b..b675dbd 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{EncodedEdgeID, OpaqueSubgraph, OpaqueSubgraphPayload};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -638,12 +638,11 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // any new output values.
         //
         // Output parameters are mapped to a fresh variable, that can be tracked
-        // back to the encoded subcircuit's function name.
-        let mut out_param_count = 0;
+        // back to the edge carrying them.
         let input_qubits = op_values.qubits.clone();
-        let input_bits = op_values.bits.clone();
         let mut out_qubits = input_qubits.as_slice();
-        let mut out_bits = input_bits.as_slice();
+        // Bits can be read again after the subgraph, so we don't overwrite the input ones.
+        let mut out_bits: &[TrackedBit] = &[];
 
         for ((out_node, out_port), ty) in subgraph
             .outgoing_ports()
@@ -660,11 +659,13 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 circ,
                 &mut out_qubits,
                 &mut out_bits,
+                &op_values.bits,
                 &input_param_exprs,
                 |p| {
-                    let range = out_param_count..out_param_count + p.expected_count;
-                    out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    let edge = EncodedEdgeID::new(Wire::new(*out_node, *out_port));
+                    (0..p.expected_count)
+                        .map(|i| edge.param_name(i))
+                        .collect_vec()
                 },
             )?;
             op_values.append(new_outputs);
@@ -1157,6 +1158,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
     /// - `bits`: The bit registers to use for the output. Values are consumed
     ///   from this slice as needed, and dropped from the slice as they are
     ///   used.
+    /// - `used_bits`: Bit registers that cannot be assigned to the output when a
+    ///   new one is required.
     /// - `input_params`: The list of input parameter expressions.
     /// - `options_params_fn`: A function that computes the output parameter
     ///   expressions given the inputs.
@@ -1168,6 +1171,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         circ: &Circuit<H>,
         qubits: &mut &[TrackedQubit],
         bits: &mut &[TrackedBit],
+        used_bits: &[TrackedBit],
         input_params: &[String],
         output_params_fn: impl FnOnce(OutputParamArgs<'_>) -> Vec<String>,
     ) -> Result<TrackedValues, PytketEncodeError<H::Node>> {
@@ -1236,10 +1240,12 @@ impl<H: HugrView> PytketEncoderContext<H> {
             Some(reused_bits) => reused_bits.to_vec(),
             None => {
                 // Not enough bits, allocate some fresh ones.
+                let mut used_bits = used_bits.to_vec();
                 let mut head_bits = bits.to_vec();
                 *bits = &[];
                 let new_bits = (head_bits.len()..count.bits).map(|_| {
-                    let b = self.values.new_bit();
+                    let b = self.values.new_bit_not_in(&used_bits);
+                    used_bits.push(b);
                     new_outputs.bits.push(b);
                     b
                 });
diff --git a/tket/src/serialize/pytket/opaque/payload.rs b/tket/src/serialize/pytket/opaque/payload.rs
index 5794f33..3dee619 100644
--- a/tket/src/serialize/pytket/opaque/payload.rs
+++ b/tket/src/serialize/pytket/opaque/payload.rs
@@ -60,6 +60,13 @@ impl EncodedEdgeID {
         let hash = fxhash::hash64(&wire);
         Self(hash)
     }
+
+    /// Name of the pytket variable carrying the `index`-th parameter of the edge.
+    ///
+    /// Used for the parameters computed by an opaque subgraph.
+    pub(in crate::serialize::pytket) fn param_name(&self, index: usize) -> String {
+        format!("edge_{}_{index}", self.0)
+    }
 }
 
 /// Payload for a pytket barrier metadata that indicates the barrier represents
-- 
2.43.0


From 39ccb7aa9741923780cf321be1882703b753c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 19/46] fix: read powers and negations in pytket parameters as
 sympy does

---
 .../serialize/pytket/decoder/param/param.pest | 16 +++++++++-------
 .../serialize/pytket/decoder/param/parser.rs  | 19 ++++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..1769e8f 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -14,8 +14,7 @@ variable = _{ ident }
 ///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -32,8 +31,11 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
-/// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+/// Unary negation.
+///
+/// As in sympy, it binds tighter than a multiplication but not than a power:
+/// `-x**2` is `-(x**2)`.
+unary_minus = { "-" }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
@@ -42,10 +44,10 @@ unary_minus = { "-" ~ term }
 /// If we used `term` directly, the expression `5-2` could be interpreted as `5 * (-2)`.
 implicit_multiply = { num ~ ("(" ~ expr ~ ")" | function_call | variable) }
 
-/// Expressions are sequences of terms and infix operators
-expr = { term ~ (infix_operator ~ term)* }
+/// Expressions are sequences of (possibly negated) terms and infix operators
+expr = { unary_minus* ~ term ~ (infix_operator ~ unary_minus* ~ term)* }
 /// A standalone term, with no infix operators at the root.
-term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | unary_minus | function_call | variable }
+term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | function_call | variable }
 
 /// Main entry point of the parser. Ensures we always parse the whole input.
 parameter = _{ SOI ~ expr ~ EOI }
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..0b3fd38 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -79,18 +79,28 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            .op(Op::prefix(unary_minus))
+            .op(Op::infix(power, Right))
     };
 }
 
 /// Parse a match of the [`Rule::expr`] rule.
 ///
-/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix operations.
+/// This takes a sequence of rule matches alternating [`Rule::term`]s, possibly
+/// preceded by unary negations, and infix operations.
 fn parse_infix_ops(pairs: Pairs<'_, Rule>) -> PytketParam<'_> {
     use ParameterType::*;
 
     PRATT_PARSER
         .map_primary(|primary| parse_term(primary))
+        .map_prefix(|_, arg| match arg {
+            PytketParam::Constant(value) => PytketParam::Constant(-value),
+            arg => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![arg],
+                param_ty: FloatHalfTurns,
+            },
+        })
         .map_infix(|lhs, op, rhs| {
             let (op, param_ty) = match op.as_rule() {
                 Rule::add => (RotationOp::radd.into(), Rotation),
@@ -126,11 +136,6 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
-        },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
             name: pair.as_str(),
-- 
2.43.0


From 19fc0b5bdbe7c2073bf991db9dae2a3a38ad8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 20/46] fix: decode pytket barriers over bits

---
 tket/src/serialize/pytket/extension/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0cb75e1 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -158,7 +158,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From 682411a71669f691efb99430212a64e463a74431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 21/46] fix: decode a pytket ClExpr natively only when its
 positions are in order

---
 tket/src/serialize/pytket/extension/bool.rs | 37 +++++++++------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 2d8a194..0715198 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -135,27 +135,6 @@ impl PytketDecoder for BoolEmitter {
         // bits in 0..n order, and the output comes immediately after.
         //
         // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
-            match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                _ => continue,
-            }
-        }
-
         let (op, num_inputs) = match clexpr.expr.op {
             ClOp::BitEq => (BoolOp::eq, 2),
             ClOp::BitNot => (BoolOp::not, 1),
@@ -164,6 +143,22 @@ impl PytketDecoder for BoolEmitter {
             ClOp::BitXor => (BoolOp::xor, 2),
             _ => return Ok(DecodeStatus::Unsupported),
         };
+        let is_bit = |arg: &ClArgument, i: usize| {
+            matches!(
+                arg,
+                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
+                    if *index as usize == i
+            )
+        };
+        let args = &clexpr.expr.args;
+        if args.len() != num_inputs
+            || !args.iter().enumerate().all(|(i, arg)| is_bit(arg, i))
+            || !clexpr.bit_posn.iter().all(|(var, pos)| var == pos)
+            || clexpr.output_posn.0 != [num_inputs as u32]
+            || bits.len() != num_inputs + 1
+        {
+            return Ok(DecodeStatus::Unsupported);
+        }
 
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
-- 
2.43.0


From 936708cc96423df178aa8e196732afc3a625cd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 22/46] fix: keep parentheses when converting native gate
 parameters for pytket

---
 tket-qsystem/src/pytket/qsystem.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..e05f294 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -86,9 +86,13 @@ impl QSystemEmitter {
         // Since the `tket.qsystem` op inputs are in radians, we have to convert them here.
         encoder.emit_node_command(node, circ, EmitCommandOptions::new(), move |mut inputs| {
             for param in inputs.params.to_mut() {
-                *param = match param.strip_suffix(") * (pi)") {
-                    Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                let half_turns = param
+                    .strip_prefix("(")
+                    .and_then(|s| s.strip_suffix(") * (pi)"))
+                    .filter(|s| has_balanced_parentheses(s));
+                *param = match half_turns {
+                    Some(s) => s.to_string(),
+                    None => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
@@ -115,6 +119,20 @@ impl QSystemEmitter {
     }
 }
 
+/// Returns `true` if every parenthesis in the expression is closed after being opened.
+fn has_balanced_parentheses(expr: &str) -> bool {
+    let mut depth = 0usize;
+    for c in expr.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' if depth == 0 => return false,
+            ')' => depth -= 1,
+            _ => {}
+        }
+    }
+    depth == 0
+}
+
 impl PytketDecoder for QSystemEmitter {
     fn op_types(&self) -> Vec<PytketOptype> {
         // Process native optypes that are not supported by the `TketOp` emitter.
-- 
2.43.0


From a52a561393b4c4fb6ad286286fe9861fa8819bc6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 23/46] fix: order of the control arrays when control modifiers
 of different sizes are chained

---
 tket/src/modifier/modifier_resolver.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..20cde16 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,11 +704,16 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
-                let n = *ctrls as u64;
-                input.to_mut().insert(0, array_type(n, qb_t()));
-                output.to_mut().insert(0, array_type(n, qb_t()));
-            }
+            // `accum_ctrl` lists the outermost modifier first, which is also the
+            // order of the control arrays in the signature.
+            let arrays = self
+                .modifiers
+                .accum_ctrl
+                .iter()
+                .map(|n| array_type(*n as u64, qb_t()))
+                .collect_vec();
+            input.to_mut().splice(0..0, arrays.clone());
+            output.to_mut().splice(0..0, arrays);
         }
     }
 
-- 
2.43.0


From af67b5e965718d8bbcd0cb9eb4a5f534d591f3ef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 24/46] fix: keep the order of Toffoli's control qubits when
 adding controls to it

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..dab42cc 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -453,7 +453,8 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    // The last control pushed is popped first.
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From 4d9a6b946335d742033197138273dabab4a2b2a4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 25/46] fix: relative phase of multiply-controlled Z

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index dab42cc..385b639 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // CZ(c,t) = H(t); CX(c,t); H(t). Unlike CRz(pi), this has the right relative phase.
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From 20a8399293d4ce4bb679c5e252a038fbe35f07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 26/46] fix: wire daggered calls, DFGs and CFGs by their
 unmodified signatures

---
 tket/src/modifier/modifier_resolver.rs             | 2 +-
 tket/src/modifier/modifier_resolver/call_modify.rs | 2 +-
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 20cde16..c463e8d 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -1053,7 +1053,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..f75c11c 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,6 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
@@ -60,6 +59,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let controls = self.unpack_controls(new_dfg, controls)?;
         *self.controls() = controls;
         // wire the inputs/outputs
+        let signature = call.signature();
         self.wire_node_inout(
             n,
             new_call_node,
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..2a8a169 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -441,7 +441,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = dfg.signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
-        let mut builder = DFGBuilder::new(signature.clone()).unwrap();
+        let mut builder = DFGBuilder::new(signature).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
         let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
 
@@ -456,7 +456,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From caaa746ab76061d7fd444deb55f02c1579918294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 27/46] fix: connect every call in a modified function,
 whatever graph it was built in

---
 tket/src/modifier/modifier_resolver.rs        |  8 ++--
 .../modifier/modifier_resolver/call_modify.rs | 12 ++++--
 .../modifier/modifier_resolver/dfg_modify.rs  | 40 ++++++++++++++-----
 3 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index c463e8d..7564539 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -314,7 +314,8 @@ pub struct ModifierResolver<N = Node> {
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
     /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    /// The nodes belong to the graph that is currently being built.
+    call_map: HashMap<N, Vec<(Node, IncomingPort)>>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -450,7 +451,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut HashMap<N, Vec<(Node, IncomingPort)>> {
         &mut self.call_map
     }
 
@@ -1038,11 +1039,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.modify_signature(&mut signature, true);
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
+        let outer_call_map = mem::take(self.call_map());
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, outer_call_map)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index f75c11c..eabdcf1 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,9 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .entry(callee.0)
+                .or_default()
+                .push((new, call.called_function_port()));
             return Ok(());
         };
 
@@ -47,7 +49,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .entry(new_callee)
+            .or_default()
+            .push((new_call_node, new_call_fn_port));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +206,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .entry(modified_fn)
+            .or_default()
+            .push((new_load, IncomingPort::from(0)));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2a8a169..329ec58 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -343,8 +343,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let call_map = mem::replace(self.call_map(), old_call_map);
         let insertion_result = h.insert_from_view(h.module_root(), new_fn.hugr());
         let new_call_map = update_call_map(&call_map, &insertion_result.node_map);
-        for (old_in, (new_n, new_port)) in new_call_map.into_iter() {
-            h.connect(old_in, 0, new_n, new_port);
+        for (old_in, calls) in new_call_map {
+            for (new_n, new_port) in calls {
+                h.connect(old_in, 0, new_n, new_port);
+            }
         }
 
         // set unitarity metadata
@@ -417,16 +419,22 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    ///
+    /// `parent_call_map` holds the entries of the parent DFG, which must have been taken out
+    /// of the call map before the sub DFG was built.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        parent_call_map: HashMap<N, Vec<(Node, IncomingPort)>>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
-        let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        let sub_call_map = mem::replace(self.call_map(), parent_call_map);
+        for (callee, calls) in update_call_map(&sub_call_map, &insertion_correspondence) {
+            self.call_map().entry(callee).or_default().extend(calls);
+        }
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -442,8 +450,9 @@ impl<N: HugrNode> ModifierResolver<N> {
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
         let mut builder = DFGBuilder::new(signature).unwrap();
+        let outer_call_map = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, outer_call_map)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -497,8 +506,9 @@ impl<N: HugrNode> ModifierResolver<N> {
                 .extend(iter::repeat_n(&qb_t(), self.control_num())),
             tail_loop.just_outputs.clone(),
         )?;
+        let outer_call_map = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, outer_call_map)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -550,6 +560,7 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         // remember the current control qubits
         let controls = self.controls().clone();
+        let outer_call_map = mem::take(self.call_map());
 
         let iter: Vec<_> = h.children(n).enumerate().collect();
         for (i, case_node) in iter {
@@ -598,7 +609,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, outer_call_map)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -623,8 +634,11 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 }
 
-/// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+/// Translates the nodes of a call map to those of the graph it was inserted into.
+fn update_call_map<A, B, C, D>(
+    f: &HashMap<A, Vec<(B, C)>>,
+    g: &HashMap<B, D>,
+) -> HashMap<A, Vec<(D, C)>>
 where
     A: Clone + Eq + std::hash::Hash,
     B: Clone + Eq + std::hash::Hash,
@@ -632,7 +646,13 @@ where
     D: Clone,
 {
     f.iter()
-        .filter_map(|(a, (b, c))| g.get(b).map(|d| (a.clone(), (d.clone(), c.clone()))))
+        .map(|(a, calls)| {
+            let calls = calls
+                .iter()
+                .filter_map(|(b, c)| g.get(b).map(|d| (d.clone(), c.clone())))
+                .collect();
+            (a.clone(), calls)
+        })
         .collect()
 }
 
-- 
2.43.0


From 36411f1fd49886546b02002723a74745b2dc7600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:17 +0000
Subject: [PATCH 28/46] fix: call the unmodified function from its control
 wrapper

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 329ec58..ba5adca 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -378,11 +378,12 @@ impl<N: HugrNode> ModifierResolver<N> {
             )));
         };
 
-        let mut poly_sig = fn_defn.signature().clone();
-        self.modify_signature(poly_sig.body_mut(), false);
-        let instantiate = poly_sig
-            .instantiate(type_args)
+        let poly_sig = fn_defn.signature().clone();
+        let call = Call::try_new(poly_sig, type_args.to_owned())
             .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
+        let call_signature = call.signature().into_owned();
+        let mut instantiate = call_signature.clone();
+        self.modify_signature(&mut instantiate, false);
 
         let offset = self.modifiers.accum_ctrl.len();
 
@@ -390,8 +391,6 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut builder =
             FunctionBuilder::new(format!("__modified__{}", fn_defn.func_name()), instantiate)?;
         let [in_node, out_node] = builder.io();
-        let call = Call::try_new(poly_sig, type_args.to_owned())
-            .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
         let call_port = call.called_function_port();
         let call_node = builder.add_child_node(call);
 
@@ -399,12 +398,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         for i in 0..offset {
             builder.hugr_mut().connect(in_node, i, out_node, i);
         }
-        for i in 0..builder.hugr().num_inputs(call_node) {
+        for i in 0..call_signature.input_count() {
             builder
                 .hugr_mut()
                 .connect(in_node, i + offset, call_node, i);
         }
-        for i in 0..builder.hugr().num_outputs(call_node) {
+        for i in 0..call_signature.output_count() {
             builder
                 .hugr_mut()
                 .connect(call_node, i, out_node, i + offset);
-- 
2.43.0


From b2fa90f23ff2ddf8c8fff80ac8e43851fc638afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 29/46] fix: pair the quantum ports of daggered nodes whatever
 classical ports lie between them

---
 tket/src/modifier/modifier_resolver.rs | 131 +++++++++----------------
 1 file changed, 49 insertions(+), 82 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 7564539..c0c26b7 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -806,19 +806,15 @@ impl<N: HugrNode> ModifierResolver<N> {
     ///     So the `input_offset` is 1.
     /// * `new_offset`: the offset of the ports of the new node, especially the number of control qubits.
     ///
-    /// The order of the resulting ports is determined as follows:
-    /// - Every ports are devided into quantum ports and non-quantum ports.
-    /// - Until the first quantum port is reached, the non-quantum ports are wired in order.
-    /// - When a quantum port is reached for both inputs and outputs,
-    ///   if the dagger is applied, the quantum input is wired to the output,
-    ///   and the quantum output is wired to the input until they reaches the next non-quantum port.
-    /// - This is repeated until all ports are wired.
+    /// The new node has the same types of ports as the old node (after the control qubits).
+    /// A port that carries no qubits corresponds to the same port of the new node.
+    /// If the dagger is applied, the i-th quantum input corresponds to the i-th quantum output
+    /// of the new node and vice versa.
     ///
-    /// For example, if the input types are `[qubit, int, qubit, qubit, int]` and
-    /// the output types are `[qubit, array[qubit, _]]`,
-    /// and the dagger is applied, the wiring is as follows:
-    /// - input: [out0:qubit, in1:int, out1:array[qubit, _], in4:int]
-    /// - output: [in0:qubit, in2:qubit, in3:qubit]
+    /// For example, if the input types are `[qubit, int, qubit]`, the output types are
+    /// `[qubit, qubit]`, and the dagger is applied, the wiring is as follows:
+    /// - input: [out0:qubit, in1:int, out1:qubit]
+    /// - output: [in0:qubit, in2:qubit]
     ///
     /// FIXME: This reverses everything that can contain qubits, which might not be intended in general.
     /// TODO: Handle state order edges.
@@ -844,82 +840,53 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         (old_in, old_out): (N, N),
         (new_in, new_out): (Node, Node),
-        (mut inputs, mut outputs): (
+        (inputs, outputs): (
             impl Iterator<Item = &'a Type>,
             impl Iterator<Item = &'a Type>,
         ),
         (input_offset, output_offset, new_offset): (usize, usize, usize),
     ) -> Result<(), ModifierResolverErrors<N>> {
-        let mut old_in_wire = (old_in, IncomingPort::from(input_offset)).into();
-        let mut old_out_wire = (old_out, OutgoingPort::from(output_offset)).into();
-        let mut new_in_wire = (new_in, IncomingPort::from(input_offset + new_offset)).into();
-        let mut new_out_wire = (new_out, OutgoingPort::from(output_offset + new_offset)).into();
-        let mut in_ty = inputs.next();
-        let mut out_ty = outputs.next();
-
-        loop {
-            // Wire inputs until the first quantum type
-            while let Some(ty) = in_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_in_wire, new_in_wire)?;
-                old_in_wire = old_in_wire.shift(1);
-                new_in_wire = new_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-
-            // Wire outputs until the first quantum type
-            while let Some(ty) = out_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_out_wire, new_out_wire)?;
-                old_out_wire = old_out_wire.shift(1);
-                new_out_wire = new_out_wire.shift(1);
-                out_ty = outputs.next();
-            }
-
-            // If both are quantum types, wire them in the opposite direction until the next non-quantum type
-            while let Some(ty) = in_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_in = if !self.modifiers.dagger {
-                    let new_in = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_in
-                } else {
-                    let new_in = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_in
-                };
-                self.map_insert(old_in_wire, new_in)?;
-                old_in_wire = old_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-            while let Some(ty) = out_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_out = if !self.modifiers.dagger {
-                    let new_out = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_out
-                } else {
-                    let new_out = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_out
-                };
-                self.map_insert(old_out_wire, new_out)?;
-                old_out_wire = old_out_wire.shift(1);
-                out_ty = outputs.next();
-            }
+        let in_is_quantum: Vec<bool> = inputs
+            .map(|ty| self.qubit_finder.contains_element_type(ty))
+            .collect();
+        let out_is_quantum: Vec<bool> = outputs
+            .map(|ty| self.qubit_finder.contains_element_type(ty))
+            .collect();
+        let new_in_wire =
+            |i: usize| DirWire::from((new_in, IncomingPort::from(input_offset + new_offset + i)));
+        let new_out_wire =
+            |i: usize| DirWire::from((new_out, OutgoingPort::from(output_offset + new_offset + i)));
+
+        // The quantum ports of the new node, in order.
+        let quantum_in = in_is_quantum.iter().positions(|q| *q).collect_vec();
+        let quantum_out = out_is_quantum.iter().positions(|q| *q).collect_vec();
+        let dagger = self.modifiers.dagger;
+        if dagger && quantum_in.len() != quantum_out.len() {
+            return Err(ModifierResolverErrors::unreachable(format!(
+                "Cannot apply dagger to node {} with {} quantum inputs and {} quantum outputs.",
+                old_in,
+                quantum_in.len(),
+                quantum_out.len()
+            )));
+        }
 
-            // Break if ended
-            if in_ty.is_none() && out_ty.is_none() {
-                break;
-            }
+        let mut reversed = quantum_out.into_iter();
+        for (i, quantum) in in_is_quantum.into_iter().enumerate() {
+            let new = match dagger && quantum {
+                true => new_out_wire(reversed.next().unwrap()),
+                false => new_in_wire(i),
+            };
+            let old = (old_in, IncomingPort::from(input_offset + i)).into();
+            self.map_insert(old, new)?;
+        }
+        let mut reversed = quantum_in.into_iter();
+        for (i, quantum) in out_is_quantum.into_iter().enumerate() {
+            let new = match dagger && quantum {
+                true => new_in_wire(reversed.next().unwrap()),
+                false => new_out_wire(i),
+            };
+            let old = (old_out, OutgoingPort::from(output_offset + i)).into();
+            self.map_insert(old, new)?;
         }
 
         Ok(())
-- 
2.43.0


From 5f7d5564f6ee6edfff8f5a0b6418b8cbfc6b97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 30/46] fix: dagger of functions whose classical regions
 receive the controls

---
 .../modifier/modifier_resolver/dfg_modify.rs  | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index ba5adca..076c6b3 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -60,9 +60,15 @@ impl<N: HugrNode> ModifierResolver<N> {
         {
             let (region_graph, node_map) = h.region_portgraph(n);
             let mut topo: Vec<_> = Topo::new(&region_graph).iter(&region_graph).collect();
-            // Reverse the topological order if dagger is applied.
+            // If dagger is applied, reverse the topological order of the nodes that act on qubits.
+            // The other nodes keep their direction and are visited before, since the controls may
+            // pass through them.
             if self.modifiers.dagger {
-                topo.reverse();
+                let (mut quantum, classical): (Vec<_>, Vec<_>) = topo
+                    .into_iter()
+                    .partition(|id| self.acts_on_qubits(h, node_map.from_portgraph(*id)));
+                quantum.reverse();
+                topo = [classical, quantum].concat();
             }
             for old_n_id in topo {
                 worklist.push_back(node_map.from_portgraph(old_n_id));
@@ -76,6 +82,16 @@ impl<N: HugrNode> ModifierResolver<N> {
         })
     }
 
+    /// Whether the node has an input or output that contains qubits.
+    fn acts_on_qubits(&self, h: &impl HugrView<Node = N>, n: N) -> bool {
+        h.signature(n).is_some_and(|sig| {
+            sig.input
+                .iter()
+                .chain(sig.output.iter())
+                .any(|ty| self.qubit_finder.contains_element_type(ty))
+        })
+    }
+
     /// Modifies the I/O nodes of a dataflow graph.
     /// These are handled separately from the other nodes since the place of control qubits
     /// may differ depending on the type of the dataflow graph.
-- 
2.43.0


From 43a5979afa28f46382f078bbd4588cace097dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 31/46] fix: keep operations on classical arrays under dagger

---
 tket/src/modifier/modifier_resolver/array_modify.rs | 4 ++--
 tket/src/modifier/modifier_resolver/dfg_modify.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/array_modify.rs b/tket/src/modifier/modifier_resolver/array_modify.rs
index 69b70d0..6375fcd 100644
--- a/tket/src/modifier/modifier_resolver/array_modify.rs
+++ b/tket/src/modifier/modifier_resolver/array_modify.rs
@@ -67,7 +67,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         new_dfg: &mut impl Dataflow,
     ) -> Result<(), ModifierResolverErrors<N>> {
         let op_def = &op.def;
-        if !self.modifiers().dagger {
+        if !self.modifiers().dagger || !self.qubit_finder.contains_element_type(&op.elem_ty) {
             self.add_node_no_modification(h, n, op, new_dfg)?;
         } else {
             let new_op_def: GenericArrayOpDef<AK> = match op_def {
@@ -98,7 +98,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         optype: &OpType,
         new_dfg: &mut impl Dataflow,
     ) -> Result<bool, ModifierResolverErrors<N>> {
-        if !self.modifiers().dagger {
+        if !self.modifiers().dagger || !self.acts_on_qubits(h, n) {
             self.add_node_no_modification(h, n, optype.clone(), new_dfg)?;
             return Ok(true);
         }
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 076c6b3..ff2552d 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -83,7 +83,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Whether the node has an input or output that contains qubits.
-    fn acts_on_qubits(&self, h: &impl HugrView<Node = N>, n: N) -> bool {
+    pub(super) fn acts_on_qubits(&self, h: &impl HugrView<Node = N>, n: N) -> bool {
         h.signature(n).is_some_and(|sig| {
             sig.input
                 .iter()
-- 
2.43.0


From 466afb8f518ca2a040860ebe949a65313e95b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 32/46] fix: replace bools in get operations of array and
 value_array

---
 tket-qsystem/src/replace_bools.rs | 102 +++++++++++++++++++++++++++++-
 1 file changed, 100 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/replace_bools.rs b/tket-qsystem/src/replace_bools.rs
index e2d678f..82d13d3 100644
--- a/tket-qsystem/src/replace_bools.rs
+++ b/tket-qsystem/src/replace_bools.rs
@@ -20,8 +20,11 @@ use hugr::std_extensions::arithmetic::{
     conversions::ConvertOpDef, int_ops::IntOpDef, int_types::ConstInt,
 };
 use hugr::std_extensions::collections::{
-    array::{self, array_type, GenericArrayOpDef, ARRAY_CLONE_OP_ID, ARRAY_DISCARD_OP_ID},
-    borrow_array::{self, borrow_array_type, BArrayUnsafeOpDef, BorrowArray},
+    array::{self, array_type, Array, GenericArrayOpDef, ARRAY_CLONE_OP_ID, ARRAY_DISCARD_OP_ID},
+    borrow_array::{
+        self, borrow_array_type, BArrayFromArray, BArrayToArray, BArrayUnsafeOpDef, BorrowArray,
+    },
+    value_array::{self, value_array_type, VArrayFromArray, VArrayToArray, ValueArray},
 };
 use hugr::std_extensions::logic::LogicOp;
 use hugr::types::{SumType, Term, Type};
@@ -292,6 +295,41 @@ fn barray_get_dest(size: u64, elem_ty: Type) -> NodeTemplate {
     NodeTemplate::CompoundOp(Box::new(h))
 }
 
+/// Replacement for `get` on other array kinds: convert to a borrow array, apply
+/// [barray_get_dest], and convert back.
+fn array_get_dest(
+    size: u64,
+    elem_ty: Type,
+    array_ty: Type,
+    to_barray: impl IntoIterator<Item = ExtensionOp>,
+    from_barray: impl IntoIterator<Item = ExtensionOp>,
+) -> NodeTemplate {
+    let opt_el = option_type(elem_ty.clone());
+    let mut dfb = DFGBuilder::new(inout_sig(
+        vec![array_ty.clone(), usize_t()],
+        vec![opt_el.into(), array_ty],
+    ))
+    .unwrap();
+    let [mut arr, idx] = dfb.input_wires_arr();
+    for op in to_barray {
+        [arr] = dfb.add_dataflow_op(op, [arr]).unwrap().outputs_arr();
+    }
+    let NodeTemplate::CompoundOp(get) = barray_get_dest(size, elem_ty) else {
+        unreachable!()
+    };
+    let [opt_elem, mut arr] = dfb
+        .add_hugr_with_wires(*get, [arr, idx])
+        .unwrap()
+        .outputs_arr();
+    for op in from_barray {
+        [arr] = dfb.add_dataflow_op(op, [arr]).unwrap().outputs_arr();
+    }
+    // As above, do not finish the DFG.
+    dfb.set_outputs([opt_elem, arr]).unwrap();
+    let h = std::mem::take(dfb.hugr_mut());
+    NodeTemplate::CompoundOp(Box::new(h))
+}
+
 /// The configuration used for replacing tket.bool extension types and ops.
 fn lowerer() -> ReplaceTypes {
     let mut lw = ReplaceTypes::default();
@@ -428,6 +466,66 @@ fn lowerer() -> ReplaceTypes {
         },
         ReplacementOptions::default().with_linearization(true),
     );
+    lw.replace_parametrized_op_with(
+        array::EXTENSION
+            .get_op(GenericArrayOpDef::<Array>::get.opdef_id().as_str())
+            .unwrap(),
+        |args| {
+            let [Term::BoundedNat(size), Term::Runtime(elem_ty)] = args else {
+                unreachable!()
+            };
+            if elem_ty.copyable() {
+                return None;
+            }
+            Some(array_get_dest(
+                *size,
+                elem_ty.clone(),
+                array_type(*size, elem_ty.clone()),
+                [BArrayFromArray::new(elem_ty.clone(), *size)
+                    .to_extension_op()
+                    .unwrap()],
+                [BArrayToArray::new(elem_ty.clone(), *size)
+                    .to_extension_op()
+                    .unwrap()],
+            ))
+        },
+        ReplacementOptions::default().with_linearization(true),
+    );
+    lw.replace_parametrized_op_with(
+        value_array::EXTENSION
+            .get_op(GenericArrayOpDef::<ValueArray>::get.opdef_id().as_str())
+            .unwrap(),
+        |args| {
+            let [Term::BoundedNat(size), Term::Runtime(elem_ty)] = args else {
+                unreachable!()
+            };
+            if elem_ty.copyable() {
+                return None;
+            }
+            Some(array_get_dest(
+                *size,
+                elem_ty.clone(),
+                value_array_type(*size, elem_ty.clone()),
+                [
+                    VArrayToArray::new(elem_ty.clone(), *size)
+                        .to_extension_op()
+                        .unwrap(),
+                    BArrayFromArray::new(elem_ty.clone(), *size)
+                        .to_extension_op()
+                        .unwrap(),
+                ],
+                [
+                    BArrayToArray::new(elem_ty.clone(), *size)
+                        .to_extension_op()
+                        .unwrap(),
+                    VArrayFromArray::new(elem_ty.clone(), *size)
+                        .to_extension_op()
+                        .unwrap(),
+                ],
+            ))
+        },
+        ReplacementOptions::default().with_linearization(true),
+    );
 
     lw
 }
-- 
2.43.0


From 7c9a747960c3397da50c1045d6f31f85e4cd8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 33/46] fix: report integers narrower than 64 bits in their
 full width

---
 tket-qsystem/src/llvm/result.rs | 48 +++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/tket-qsystem/src/llvm/result.rs b/tket-qsystem/src/llvm/result.rs
index c63bb8c..7fc646f 100644
--- a/tket-qsystem/src/llvm/result.rs
+++ b/tket-qsystem/src/llvm/result.rs
@@ -12,7 +12,7 @@ use hugr::llvm::CodegenExtsBuilder;
 use inkwell::builder::Builder;
 use inkwell::context::Context;
 use inkwell::types::{FloatType, IntType, PointerType, VoidType};
-use inkwell::values::{BasicValueEnum, FunctionValue, IntValue};
+use inkwell::values::{BasicValueEnum, FunctionValue, IntValue, PointerValue};
 use inkwell::AddressSpace;
 use tket::hugr::extension::simple_op::MakeExtensionOp;
 use tket::hugr::ops::ExtensionOp;
@@ -159,9 +159,46 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
         Ok((tag_ptr, tag_len))
     }
 
+    /// Extends an integer to the width expected by the print functions.
+    fn widen_int(&self, val: IntValue<'c>, signed: bool) -> Result<IntValue<'c>> {
+        let int_t = self.int_t();
+        Ok(if val.get_type() == int_t {
+            val
+        } else if signed {
+            self.builder().build_int_s_extend(val, int_t, "")?
+        } else {
+            self.builder().build_int_z_extend(val, int_t, "")?
+        })
+    }
+
+    /// Copies an array of narrow integers into one with the element width
+    /// expected by the print functions.
+    fn widen_int_array(
+        &self,
+        array: PointerValue<'c>,
+        length: u64,
+        signed: bool,
+    ) -> Result<PointerValue<'c>> {
+        let int_t = self.int_t();
+        if array.get_type().get_element_type() == int_t.into() {
+            return Ok(array);
+        }
+        let builder = self.builder();
+        let wide = builder.build_array_alloca(int_t, int_t.const_int(length, false), "")?;
+        for i in 0..length {
+            let idx = int_t.const_int(i, false);
+            let src = unsafe { builder.build_in_bounds_gep(array, &[idx], "")? };
+            let val = builder.build_load(src, "")?.into_int_value();
+            let val = self.widen_int(val, signed)?;
+            let dst = unsafe { builder.build_in_bounds_gep(wide, &[idx], "")? };
+            builder.build_store(dst, val)?;
+        }
+        Ok(wide)
+    }
+
     fn build_print_array_call(
         &self,
-        val: BasicValueEnum,
+        val: BasicValueEnum<'c>,
         op: &ResultOp,
         data_type: &ElemType,
         tag_ptr: BasicValueEnum,
@@ -174,6 +211,11 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
 
         let print_fn = self.get_func_print(op)?;
         let array = self.1.array_to_ptr(self.builder(), val)?;
+        let array = match data_type {
+            ElemType::Int => self.widen_int_array(array, length, true)?,
+            ElemType::Uint => self.widen_int_array(array, length, false)?,
+            _ => array,
+        };
         let (array_ptr, _) = struct_1d_arr_alloc(
             self.iw_context(),
             self.builder(),
@@ -217,6 +259,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_int expects one input"))?;
+                let val = self.widen_int(BasicValueEnum::into_int_value(val), true)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
@@ -229,6 +272,7 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_uint expects one input"))?;
+                let val = self.widen_int(BasicValueEnum::into_int_value(val), false)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
-- 
2.43.0


From 0ac57dbf8c18ebf21cfc272cab6f55586ef174a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 34/46] fix: repack arrays whose elements hold no wires

---
 tket/src/passes/unpack_container.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..936ce21 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -307,13 +307,13 @@ impl UnpackContainerBuilder {
         let op = self.get_op(op_name, args.clone()).expect("known op");
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
-            let input = func_b.input();
-            // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let mut wires = func_b.input().outputs();
+            // The elements may have no wires at all (e.g. empty arrays of qubits).
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
+                    self.repack_container(func_b, elem_ty, elem_wires)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
-- 
2.43.0


From 68d9627d0d7eab5d54ca05566dc48f05d2a147bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 35/46] fix: unwrap optional qubits only as array elements when
 unpacking containers

---
 tket/src/passes/unpack_container.rs | 50 +++++++++++++++++++----------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 936ce21..2f40483 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -259,7 +259,7 @@ impl UnpackContainerBuilder {
 
             let result: Vec<_> = elems
                 .into_iter()
-                .map(|wire| self.unpack_container(func_b, elem_ty, wire))
+                .map(|wire| self.unpack_array_elem(func_b, elem_ty, wire))
                 .collect::<Result<Vec<_>, _>>()?
                 .concat();
             Ok(result)
@@ -312,7 +312,7 @@ impl UnpackContainerBuilder {
             let elems: Result<Vec<_>, _> = (0..size)
                 .map(|_| {
                     let elem_wires = wires.by_ref().take(inner_row_len).collect();
-                    self.repack_container(func_b, elem_ty, elem_wires)
+                    self.repack_array_elem(func_b, elem_ty, elem_wires)
                 })
                 .collect();
 
@@ -443,6 +443,37 @@ impl UnpackContainerBuilder {
             .expect("one output"))
     }
 
+    /// Unpack an element of an array.
+    ///
+    /// Unlike in other positions, an option of the element type is unwrapped here.
+    fn unpack_array_elem(
+        &self,
+        builder: &mut impl Dataflow,
+        ty: &Type,
+        wire: Wire,
+    ) -> Result<Vec<Wire>, BuildError> {
+        let elem_ty = self.type_analyzer.element_type();
+        if is_opt_of(ty, elem_ty) {
+            return Ok(vec![self.unpack_option(builder, wire, elem_ty)?]);
+        }
+        self.unpack_container(builder, ty, wire)
+    }
+
+    /// Repack an element of an array from its unpacked wires.
+    fn repack_array_elem(
+        &self,
+        builder: &mut impl Dataflow,
+        ty: &Type,
+        unpacked_wires: Vec<Wire>,
+    ) -> Result<Wire, BuildError> {
+        let elem_ty = self.type_analyzer.element_type();
+        if is_opt_of(ty, elem_ty) {
+            debug_assert!(unpacked_wires.len() == 1);
+            return self.repack_option(builder, unpacked_wires[0], elem_ty);
+        }
+        self.repack_container(builder, ty, unpacked_wires)
+    }
+
     /// Unpack a container type to extract wires matching the analyzer criteria.
     pub fn unpack_container(
         &self,
@@ -456,15 +487,6 @@ impl UnpackContainerBuilder {
             return Ok(vec![container_wire]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, &hugr::extension::prelude::qb_t()) {
-            return Ok(vec![self.unpack_option(
-                builder,
-                container_wire,
-                elem_ty,
-            )?]);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $unpack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
@@ -507,12 +529,6 @@ impl UnpackContainerBuilder {
             return Ok(unpacked_wires[0]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, elem_ty) {
-            debug_assert!(unpacked_wires.len() == 1);
-            return self.repack_option(builder, unpacked_wires[0], elem_ty);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $repack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
-- 
2.43.0


From eb9a74245052c1ceba0e85f07dbd927a69282f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 36/46] fix: round divided costs up exactly, zero stays zero

---
 tket/src/circuit/cost.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/cost.rs b/tket/src/circuit/cost.rs
index c03e983..4adf15a 100644
--- a/tket/src/circuit/cost.rs
+++ b/tket/src/circuit/cost.rs
@@ -152,7 +152,7 @@ impl<const N: usize> CircuitCost for LexicographicCost<usize, N> {
     fn div_cost(&self, n: NonZeroUsize) -> Self {
         let mut ret = [0; N];
         for (div, &a) in ret.iter_mut().zip(&self.0) {
-            *div = (a.saturating_sub(1)) / n.get() + 1;
+            *div = a.div_ceil(n.get());
         }
         Self(ret)
     }
@@ -185,7 +185,7 @@ impl CircuitCost for usize {
 
     #[inline]
     fn div_cost(&self, n: NonZeroUsize) -> Self {
-        (self.saturating_sub(1)) / n.get() + 1
+        self.div_ceil(n.get())
     }
 }
 
-- 
2.43.0


From 3bd098bbab23dff90a2b6c67bddc0926c9aac408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 37/46] fix: count the first operation of a chunk towards its
 cost

---
 tket/src/passes/chunks.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 084fd72..b9469a5 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -260,7 +260,7 @@ impl CircuitChunks {
     ///
     /// The circuit is split into chunks of at most `max_size` gates.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |_| 1)
     }
 
     /// Split a circuit into chunks.
@@ -307,11 +307,13 @@ impl CircuitChunks {
             (!nodes.is_empty()).then_some(nodes)
         });
         for (_, commands) in &commands.chunk_by(|nodes| {
-            let new_cost = nodes.iter().fold(running_cost.clone(), |cost, &node| {
-                cost + op_cost(hugr.get_optype(node))
-            });
+            let cost: C = nodes
+                .iter()
+                .map(|&node| op_cost(hugr.get_optype(node)))
+                .sum();
+            let new_cost = running_cost.clone() + cost.clone();
             if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
+                running_cost = cost;
                 current_group += 1;
             } else {
                 running_cost = new_cost;
-- 
2.43.0


From 1c52ce771e5c88d2b34eb6ae6334ed79ee29b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 38/46] fix: follow ports, not nodes, in
 ResourceScope::any_reachable_from

---
 tket/src/resource/scope.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tket/src/resource/scope.rs b/tket/src/resource/scope.rs
index f421ff6..d067ba1 100644
--- a/tket/src/resource/scope.rs
+++ b/tket/src/resource/scope.rs
@@ -285,27 +285,32 @@ impl<H: HugrView> ResourceScope<H> {
         starts: impl IntoIterator<Item = (H::Node, OutgoingPort)>,
         ends: impl IntoIterator<Item = (H::Node, IncomingPort)>,
     ) -> bool {
-        let end_nodes = BTreeSet::from_iter(ends.into_iter().map(|(n, _)| n));
-        let Some(max_end) = end_nodes.iter().filter_map(|&n| self.get_position(n)).max() else {
+        let end_ports = BTreeSet::from_iter(ends);
+        let Some(max_end) = end_ports
+            .iter()
+            .filter_map(|&(n, _)| self.get_position(n))
+            .max()
+        else {
             return false;
         };
         let mut visited_nodes = BTreeSet::new();
 
-        let mut curr_nodes = VecDeque::from_iter(
+        let mut curr_ports = VecDeque::from_iter(
             starts
                 .into_iter()
-                .flat_map(|(n, p)| self.hugr().linked_inputs(n, p))
-                .map(|(n, _)| n),
+                .flat_map(|(n, p)| self.hugr().linked_inputs(n, p)),
         );
 
-        while let Some(node) = curr_nodes.pop_front() {
-            if self.get_position(node).is_none_or(|p| p > max_end) || !visited_nodes.insert(node) {
+        while let Some((node, port)) = curr_ports.pop_front() {
+            if self.get_position(node).is_none_or(|p| p > max_end) {
                 continue;
             }
-            if end_nodes.contains(&node) {
+            if end_ports.contains(&(node, port)) {
                 return true;
             }
-            curr_nodes.extend(self.hugr().output_neighbours(node));
+            if visited_nodes.insert(node) {
+                curr_ports.extend(self.hugr().all_linked_inputs(node));
+            }
         }
 
         false
-- 
2.43.0


From 0e67e764fd4a8f8f3373704e91fb7ca70686cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 39/46] fix: make the value of a CopyableExpr its first output

---
 tket/src/subcircuit/expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index d84d83a..ed2a3a4 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -140,6 +140,8 @@ impl<N: HugrNode> CopyableExpr<N> {
         let mut visited = BTreeSet::new();
         curr_nodes.push(output.0, prio(output.0));
         let mut visited_incoming_ports = IndexSet::new();
+        // The value of the expression is always its first output.
+        args.outputs.insert(output);
 
         // Traverse nodes in reverse dataflow order (so that any incoming ports at
         // `node` not in `visited_incoming_ports` must be outside the expr).
-- 
2.43.0


From 44aedc0f2fb6603ea3ee9e01b4bea65bb0fbc6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 40/46] fix: include the loaded constants in a CopyableExpr

---
 tket/src/subcircuit/expression.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index ed2a3a4..8597e68 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -183,11 +183,22 @@ impl<N: HugrNode> CopyableExpr<N> {
                 }
             }
 
-            // Add function call input if there is one
+            // Add function call input if there is one, or the constant that is
+            // loaded if it is a sibling node.
             let op = circuit.hugr().get_optype(node);
-            if op.static_input().is_some_and(|edge| edge.is_function()) {
-                args.function_calls
-                    .push((node, op.static_input_port().expect("function input port")));
+            if let Some(static_port) = op.static_input_port() {
+                if op.static_input().is_some_and(|edge| edge.is_function()) {
+                    args.function_calls.push((node, static_port));
+                } else if let Some((const_node, _)) =
+                    circuit.hugr().single_linked_output(node, static_port)
+                {
+                    let hugr = circuit.hugr();
+                    if hugr.get_parent(const_node) == hugr.get_parent(node)
+                        && visited.insert(const_node)
+                    {
+                        args.nodes.push(const_node);
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 6c59d78480fbe538ca9812c16b8eb766bd75c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 41/46] fix: order the inputs of a CopyableExpr as documented

---
 tket/src/subcircuit/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index 8597e68..adaf3e2 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -293,11 +293,13 @@ fn sort_inputs<N: HugrNode>(
                 // Order by allowed input ports first (Left comes first)
                 Either::Left(pos)
             } else {
-                // Then order by nodes_to_exclude order (Right comes last)
+                // Then order by nodes_to_exclude order (Right comes last), then
+                // all others.
                 let (prev_node, _) = hugr
                     .single_linked_output(node, port)
                     .expect("valid dataflow wire");
-                Either::Right(nodes_to_exclude.get_index_of(&prev_node))
+                let pos = nodes_to_exclude.get_index_of(&prev_node);
+                Either::Right(pos.unwrap_or(nodes_to_exclude.len()))
             }
         })
         .map(|np| vec![np])
-- 
2.43.0


From 15998f0c99c4af51a1b9b502d862e9abd6aa0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 42/46] fix: encode every element of a constant tuple, and
 false constants, in pytket circuits

---
 .../serialize/pytket/config/encoder_config.rs | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..8d25039 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -121,16 +121,20 @@ impl<H: HugrView> PytketEncoderConfig<H> {
             match value {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
-                        let new_bit = encoder.values.new_bit();
-                        if value == &Value::true_val() {
+                        let new_bit = if value == &Value::true_val() {
+                            let bit = encoder.values.new_bit();
                             let op = set_bits_op(&[true]);
-                            encoder.emit_command(op, &[], &[new_bit], None);
-                        }
-                        return Ok(Some(TrackedValues::new_bits([new_bit])));
-                    }
-                    if sum.sum_type.as_tuple().is_some() {
-                        for v in sum.values.iter() {
-                            queue.push_back(v);
+                            encoder.emit_command(op, &[], &[bit], None);
+                            bit
+                        } else {
+                            // Reused registers may not be `false`.
+                            encoder.values.new_unset_bit()
+                        };
+                        values.append(TrackedValues::new_bits([new_bit]));
+                    } else if sum.sum_type.as_tuple().is_some() {
+                        // Visit the elements in order, before any other pending value.
+                        for v in sum.values.iter().rev() {
+                            queue.push_front(v);
                         }
                     }
                 }
-- 
2.43.0


From 09d1bb8838e97221cdb574f1b4c301a97fb05bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 43/46] fix: pack and unpack tuples of registers when decoding
 pytket circuits

---
 tket/src/serialize/pytket/decoder/wires.rs | 190 ++++++++++++++++++---
 1 file changed, 168 insertions(+), 22 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 59f7280..221b41f 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -3,13 +3,13 @@
 use std::collections::{BTreeMap, VecDeque};
 use std::sync::Arc;
 
-use hugr::builder::{DFGBuilder, Dataflow as _};
-use hugr::extension::prelude::{bool_t, qb_t};
+use hugr::builder::{Container as _, DFGBuilder, Dataflow as _};
+use hugr::extension::prelude::{bool_t, qb_t, UnpackTuple};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::Value;
 use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
 use hugr::types::Type;
-use hugr::{Hugr, IncomingPort, Node, Wire};
+use hugr::{Hugr, HugrView as _, IncomingPort, Node, Wire};
 use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
 use tket_json_rs::circuit_json::ImplicitPermutation;
@@ -692,17 +692,6 @@ impl WireTracker {
                 });
         };
 
-        // List candidate wires that contain the qubits and bits we need.
-        let qubit_candidates = qubit_args
-            .first()
-            .into_iter()
-            .flat_map(|qb| self.qubit_wires(qb));
-        let bit_candidates = bit_args
-            .first()
-            .into_iter()
-            .flat_map(|bit| self.bit_wires(bit));
-        let candidates = qubit_candidates.chain(bit_candidates).collect_vec();
-
         // The bits and qubits we expect the wire to contain.
         let wire_qubits = qubit_args
             .iter()
@@ -713,15 +702,44 @@ impl WireTracker {
         let wire_bits = bit_args.iter().take(reg_count.bits).cloned().collect_vec();
         let wire_bit_ids = wire_bits.iter().map(|bit| bit.id()).collect_vec();
 
-        // Find a wire that contains the correct type..
-        let check_wire = |w: &Wire| {
-            let wire_data = &self.wires[w];
-            wire_data.qubits == wire_qubit_ids
-                && wire_data.bits == wire_bit_ids
-                && config.types_are_isomorphic(wire_data.ty(), ty)
+        // Find a wire that contains the correct type, unpacking any tuples that
+        // contain the elements we need.
+        let found = loop {
+            // List candidate wires that contain the qubits and bits we need.
+            let qubit_candidates = wire_qubits
+                .first()
+                .into_iter()
+                .flat_map(|qb| self.qubit_wires(qb));
+            let bit_candidates = wire_bits
+                .first()
+                .into_iter()
+                .flat_map(|bit| self.bit_wires(bit));
+            let candidates = qubit_candidates.chain(bit_candidates).collect_vec();
+
+            let check_wire = |w: &&Wire| {
+                let wire_data = &self.wires[*w];
+                wire_data.qubits == wire_qubit_ids
+                    && wire_data.bits == wire_bit_ids
+                    && config.types_are_isomorphic(wire_data.ty(), ty)
+            };
+            if let Some(&wire) = candidates.iter().find(check_wire) {
+                break Some(wire);
+            }
+            let tuple_wire = candidates
+                .into_iter()
+                .find(|w| tuple_elements(self.wires[w].ty()).is_some());
+            match tuple_wire {
+                Some(wire) => self.unpack_tuple_wire(config, builder, wire)?,
+                None => break None,
+            }
         };
-        let wire = match candidates.into_iter().find(check_wire) {
+        let wire = match found {
             Some(wire) => wire,
+            // The elements of a tuple may be in separate wires.
+            None if tuple_elements(ty).is_some() => {
+                let wire = self.pack_tuple_wire(config, builder, ty, qubit_args, bit_args)?;
+                return Ok(FoundWire::Register(wire));
+            }
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
@@ -786,6 +804,128 @@ impl WireTracker {
         }
     }
 
+    /// Unpack a wire containing a tuple, so its elements are tracked in separate wires.
+    ///
+    /// If the tuple was linear and it was already used, its user gets a new tuple
+    /// with the same elements. (The copyable elements are still available.)
+    fn unpack_tuple_wire(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        wire: Wire,
+    ) -> Result<(), PytketDecodeError> {
+        let data = self.wires[&wire].clone();
+        let elems = tuple_elements(data.ty()).expect("not a tuple type");
+
+        let mut targets = vec![];
+        if !data.ty().copyable() {
+            let hugr = builder.hugr_mut();
+            targets.extend(hugr.linked_inputs(wire.node(), wire.source()));
+            hugr.disconnect(wire.node(), wire.source());
+        }
+        let unpacked = builder
+            .add_dataflow_op(UnpackTuple::new(elems.clone().into()), [wire])
+            .map_err(PytketDecodeError::custom)?;
+        if !targets.is_empty() {
+            let packed = builder
+                .make_tuple(unpacked.outputs())
+                .map_err(PytketDecodeError::custom)?;
+            for (node, port) in targets {
+                let hugr = builder.hugr_mut();
+                hugr.connect(packed.node(), packed.source(), node, port);
+            }
+        }
+
+        self.forget_wire(&data);
+        let mut qubits = data.qubits.into_iter();
+        let mut bits = data.bits.into_iter();
+        for (ty, wire) in elems.into_iter().zip(unpacked.outputs()) {
+            let count = config.type_to_pytket(&ty).unwrap_or_default();
+            self.add_wire_data(WireData {
+                wire,
+                ty: Arc::new(ty),
+                qubits: qubits.by_ref().take(count.qubits).collect(),
+                bits: bits.by_ref().take(count.bits).collect(),
+            });
+        }
+        Ok(())
+    }
+
+    /// Pack a tuple from the wires containing each of its elements.
+    ///
+    /// Consumes the required qubits and bits from the front of the slices.
+    fn pack_tuple_wire(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        ty: &Type,
+        qubit_args: &mut &[TrackedQubit],
+        bit_args: &mut &[TrackedBit],
+    ) -> Result<WireData, PytketDecodeError> {
+        let elems = tuple_elements(ty).expect("not a tuple type");
+        let mut wires = Vec::with_capacity(elems.len());
+        let mut qubits = Vec::new();
+        let mut bits = Vec::new();
+        for elem_ty in &elems {
+            let elem =
+                if config.type_to_pytket(elem_ty).is_none() && tuple_elements(elem_ty).is_some() {
+                    // A tuple with no registers.
+                    self.pack_tuple_wire(config, builder, elem_ty, &mut &[][..], &mut &[][..])?
+                } else {
+                    let found = self.find_typed_wire(
+                        config,
+                        builder,
+                        elem_ty,
+                        qubit_args,
+                        bit_args,
+                        &mut &[][..],
+                        None,
+                    )?;
+                    let FoundWire::Register(elem) = found else {
+                        unreachable!("no parameters nor unsupported wires inside a tuple");
+                    };
+                    elem
+                };
+            if !elem.ty().copyable() {
+                self.forget_wire(&elem);
+            }
+            wires.push(elem.wire);
+            qubits.extend(elem.qubits);
+            bits.extend(elem.bits);
+        }
+        let data = WireData {
+            wire: builder
+                .make_tuple(wires)
+                .map_err(PytketDecodeError::custom)?,
+            ty: Arc::new(ty.clone()),
+            qubits,
+            bits,
+        };
+        self.add_wire_data(data.clone());
+        Ok(data)
+    }
+
+    /// Add a wire containing some already tracked qubits and bits.
+    fn add_wire_data(&mut self, data: WireData) {
+        for q in &data.qubits {
+            self.qubit_wires[q].push(data.wire);
+        }
+        for b in &data.bits {
+            self.bit_wires[b].push(data.wire);
+        }
+        self.wires.insert(data.wire, data);
+    }
+
+    /// Stop using a wire as a source for the qubits and bits it contains.
+    fn forget_wire(&mut self, data: &WireData) {
+        for q in &data.qubits {
+            self.qubit_wires[q].retain(|w| *w != data.wire);
+        }
+        for b in &data.bits {
+            self.bit_wires[b].retain(|w| *w != data.wire);
+        }
+    }
+
     /// Returns a new [TrackedWires] set for a list of [`TrackedQubit`]s,
     /// [`TrackedBit`]s, and [`LoadedParameter`]s following the required types.
     ///
@@ -1155,6 +1295,12 @@ impl WireTracker {
     }
 }
 
+/// Returns the element types of a tuple type.
+fn tuple_elements(ty: &Type) -> Option<Vec<Type>> {
+    let elems = ty.as_sum()?.as_tuple()?;
+    elems.iter().map(|t| t.clone().try_into().ok()).collect()
+}
+
 /// Only single-indexed registers are supported.
 fn check_register(register: &PytketRegister) -> Result<(), PytketDecodeError> {
     if register.1.len() != 1 {
@@ -1195,7 +1341,7 @@ pub(in crate::serialize::pytket) enum FoundWire {
 #[cfg(test)]
 mod tests {
     use super::*;
-    use hugr::extension::prelude::{bool_t, qb_t};
+    use hugr::extension::prelude::{bool_t, qb_t, UnpackTuple};
     use hugr::types::SumType;
     use hugr::Node;
     use rstest::{fixture, rstest};
-- 
2.43.0


From 4b489f445528e2d231d59a986da76b51e6eb36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:15 +0000
Subject: [PATCH 44/46] fix: leave global constants in the module when encoding
 pytket circuits

---
 tket/src/serialize/pytket/encoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index b675dbd..73fdfa1 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -16,7 +16,7 @@ use hugr::ops::{OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::HashMap;
 use std::ops::RangeTo;
 use std::sync::{Arc, RwLock};
 
@@ -1011,10 +1011,17 @@ impl<H: HugrView> PytketEncoderContext<H> {
                     self.values
                         .register_wire::<TrackedValue>(wire, vec![], circ)?;
                 }
-                OpType::Const(_) => {
-                    if self.try_encode_node(neigh, circ)? == EncodeStatus::Unsupported {
+                OpType::Const(op) => {
+                    // Global constants that cannot be encoded are left in the module.
+                    // They must not be moved into an unsupported subgraph of this region.
+                    let config = Arc::clone(&self.config);
+                    if config.type_to_pytket(&op.get_type()).is_none() {
                         return Ok(EncodeStatus::Unsupported);
                     }
+                    let Some(values) = config.const_to_pytket(&op.value, self)? else {
+                        return Ok(EncodeStatus::Unsupported);
+                    };
+                    self.values.register_wire(wire, values.into_iter(), circ)?;
                 }
                 _ => {
                     return Ok(EncodeStatus::Unsupported);
-- 
2.43.0


From 0f34a2abcec9f080bad82de71e07441220f3bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:33 +0000
Subject: [PATCH 45/46] fix: resource scope positions follow order edges

A node that is only connected by an order edge to its predecessor could get an
earlier position, so ResourceScope::any_reachable_from pruned paths through it
and CopyableExpr accepted non-convex expressions.
---
 tket/src/resource/scope.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tket/src/resource/scope.rs b/tket/src/resource/scope.rs
index d067ba1..2f4cb98 100644
--- a/tket/src/resource/scope.rs
+++ b/tket/src/resource/scope.rs
@@ -541,6 +541,24 @@ impl<H: HugrView> ResourceScope<H> {
                 next_node_units.position = cmp::max(next_node_units.position, pos.increment());
             }
         }
+
+        // Nodes that must be executed after `node` also come after it, even if
+        // they do not use any of its outputs.
+        let order_port = self.hugr.get_optype(node).other_output_port();
+        for (in_node, _) in order_port
+            .into_iter()
+            .flat_map(|p| self.hugr.linked_inputs(node, p))
+            .collect_vec()
+        {
+            if !self.nodes().contains(&in_node) {
+                continue;
+            }
+            if let Some(next_node_units) =
+                node_circuit_units_mut(&mut self.circuit_units, in_node, &self.hugr)
+            {
+                next_node_units.position = cmp::max(next_node_units.position, pos.increment());
+            }
+        }
     }
 }
 
-- 
2.43.0


From 2be77baea000c03601ffd0d52d6849cdf7d41ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:33 +0000
Subject: [PATCH 46/46] fix: order the runtime barrier before the order
 successors of the barrier

The runtime barrier inserted after a barrier could otherwise be executed after
operations that have to come after the barrier.
---
 .../qsystem/barrier/barrier_inserter.rs       | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs b/tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs
index 1b9f754..73b0cc3 100644
--- a/tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs
+++ b/tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs
@@ -1,3 +1,5 @@
+use std::collections::BTreeSet;
+
 use hugr::builder::{Container, DataflowHugr};
 use hugr::extension::prelude::qb_t;
 use hugr::ops::OpTrait;
@@ -168,23 +170,54 @@ impl BarrierInserter {
             .get_parent(barrier_node)
             .expect("Barrier can't be root.");
 
+        let targets = filtered_qbs.iter().map(|(_, target)| *target).collect();
+
         // Handle the special case of a single array of qubits
         if let [(ty, target)] = filtered_qbs.as_slice() {
             if let Some(result) = self.try_array_barrier_shortcut(hugr, parent, ty, *target) {
-                return result;
+                result?;
+                Self::copy_order_successors(hugr, barrier_node, targets);
+                return Ok(());
             }
         }
 
         // For the general case, build unpacking
-        let (types, targets) = filtered_qbs.into_iter().unzip::<_, _, Vec<_>, Vec<_>>();
+        let types = filtered_qbs.into_iter().map(|(ty, _)| ty).collect();
         let insert_hugr = self.build_packing_hugr(types)?;
 
         // Insert the barrier into the HUGR
-        let inserter = InsertCut::new(parent, targets, insert_hugr);
+        let inserter = InsertCut::new(parent, targets.clone(), insert_hugr);
         inserter.apply_hugr_mut(hugr)?;
+        Self::copy_order_successors(hugr, barrier_node, targets);
         Ok(())
     }
 
+    /// Order the inserted runtime barrier, whose outputs are connected to the
+    /// `targets`, before all the nodes that are ordered after the barrier.
+    fn copy_order_successors(
+        hugr: &mut impl HugrMut<Node = Node>,
+        barrier_node: Node,
+        targets: Vec<Target>,
+    ) {
+        let Some(order_port) = hugr.get_optype(barrier_node).other_output_port() else {
+            return;
+        };
+        let successors: BTreeSet<Node> = hugr
+            .linked_inputs(barrier_node, order_port)
+            .map(|(n, _)| n)
+            .collect();
+        let inserted: BTreeSet<Node> = targets
+            .into_iter()
+            .filter_map(|(n, p)| hugr.single_linked_output(n, p).map(|(src, _)| src))
+            .filter(|&src| src != barrier_node)
+            .collect();
+        for &src in &inserted {
+            for &dst in &successors {
+                hugr.add_other_edge(src, dst);
+            }
+        }
+    }
+
     /// Register function replacements for all temporary operations
     pub fn register_operation_replacements(
         self,
-- 
2.43.0

