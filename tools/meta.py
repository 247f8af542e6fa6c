"""writes properties.jsonl and MANIFEST.json from the table below (run from /verif: python3 tools/meta.py)"""
import json
import os
import subprocess

TV = "translation_validation"
SX = "translation validation: both the program and the real compiler output are executed symbolically; equivalence decided by z3 / exact polynomial identity"
GUA = ("Per program the verdict covers every input state, angle, classical input and measurement outcome; programs are the stated families (all single/pair templates, plus seeded "
       "random programs), so an untested program shape is outside the bound. Trusts the gate and operation semantics in vlib (cross-checked against the repository's own gate definitions at setup).")
P = []


def prop(id, title, statement, over, q, why, files, mech, level=TV, technique=SX, note=GUA, thorough=True, hook=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, level=level, technique=technique, note=note,
                  thorough=thorough, hook=hook, observe=observe))


QS = "tket-qsystem/src/"
TK = "tket/src/"
prop("C01", "Lowering to native gates preserves every gate exactly",
     "Compiling a quantum program for the Quantinuum target replaces every abstract gate by native gates that implement the same unitary up to one global phase, for every angle and on every "
     "input state, wherever in the program the gate stands. The compiled program contains no abstract gate.",
     ["inputs", "programs"], "all gates, all angles (symbolic), all input states; programs: every gate alone and in every kind of region, every ordered pair, random circuits",
     "unit tests count operations or compare snapshots for fixed angles; no test evaluates the unitary of a lowered program",
     [QS + "extension/qsystem.rs", QS + "extension/qsystem/lower.rs", QS + "lib.rs"],
     [("gate decompositions", QS + "extension/qsystem/lower.rs"), ("QSystemOpBuilder", QS + "extension/qsystem.rs")])
prop("C02", "Lowering keeps the meaning of measuring, allocating and resetting",
     "Compilation for the target preserves the joint distribution of measurement outcomes and the state of the remaining qubits for measurement, destructive measurement, reset, allocation, "
     "fallible allocation and release. A measured bit that is used later has the value the measurement produced.",
     ["inputs", "programs"], "all input states and all measurement outcomes (symbolic branches); every such operation and pair of operations in every kind of region, random programs",
     "tests check that operations of the expected names appear; outcome statistics and post-measurement states are never compared",
     [QS + "extension/qsystem/lower.rs", QS + "extension/qsystem.rs", QS + "replace_bools.rs"],
     [("measurement lowering", QS + "extension/qsystem/lower.rs"), ("lazy measurement futures", QS + "replace_bools.rs")])
prop("C05", "Lowering a barrier keeps it on exactly its qubits",
     "Compiling a barrier for the target puts one run-time barrier at its place in the history of exactly the qubits its operands hold, however deeply these are packed in tuples and arrays, and passes every operand "
     "through unchanged. A barrier that holds no qubit puts nothing there. The result is valid for every type of operand.",
     ["inputs", "programs"], "all inputs (symbolic); every operand type up to two constructors deep, random rows of deeper types, several barriers, in nested regions, branches, functions and control flow graphs",
     "tests count run-time barriers for some twenty operand types; which qubit goes where is never looked at",
     [QS + "extension/qsystem/barrier", QS + "extension/qsystem/lower.rs", TK + "passes/unpack_container.rs", TK + "passes/unpack_container"],
     [("insertion of the run-time barrier", QS + "extension/qsystem/barrier/barrier_inserter.rs"), ("unpacking and repacking of containers", TK + "passes/unpack_container.rs"), ("which types hold qubits", TK + "passes/unpack_container/type_unpack.rs")])
prop("C06", "Commutation optimisation preserves the circuit",
     "Moving gates earlier past commuting gates leaves the circuit's action on every input unchanged, including its measurement outcomes and classical results. The result is a valid circuit with the "
     "same operations.",
     ["inputs", "programs"], "all input states, angles and outcomes; every placement of a gate triple on three qubits, random circuits",
     "tests sample a dozen fixed circuits and compare depth, not the unitary",
     [TK + "passes/commutation.rs", TK + "ops.rs", TK + "circuit/command.rs"],
     [("commutes_at_slice / available_slice", TK + "passes/commutation.rs"), ("qubit_commutation", TK + "ops.rs"), ("linear unit tracking", TK + "circuit/command.rs")])
prop("C07", "Lowering opaque bools and lazy measurements preserves all values",
     "Replacing the opaque boolean type and its operations by runtime futures and plain bits leaves every value, branch and emitted result of a program unchanged, including bools inside tuples, sums and "
     "arrays and bools used several times. No opaque boolean remains and no future is read twice or leaked.",
     ["inputs", "programs"], "all inputs and outcomes (symbolic); every boolean operation on known, unknown and measured operands, random programs with nested containers",
     "tests check the presence of types and ops on a handful of programs",
     [QS + "replace_bools.rs", QS + "replace_bools", TK + "extension/bool.rs"],
     [("replacement table and linearisation", QS + "replace_bools.rs")])
prop("C08", "The full target pipeline preserves program behaviour",
     "For every combination of its options the target pipeline turns a valid program into a valid program with the same observable behaviour: outputs, emitted results, panics, external calls and their order, "
     "and the quantum state.",
     ["inputs", "programs", "configurations"], "all inputs, angles and outcomes (symbolic); option combinations; random full-feature programs within size bounds",
     "tests run the pipeline on fixed examples and look at structure",
     [QS + "lib.rs", QS + "extension/qsystem/lower.rs", QS + "replace_bools.rs"],
     [("pass composition and ordering", QS + "lib.rs"), ("force_order ranking", QS + "lib.rs")])
prop("C09", "The emitted LLVM program does what the HUGR says",
     "Compiling a valid program to LLVM IR for the QIS runtime succeeds, and the emitted program makes the same runtime calls (gates with their angles, measurements, allocations, resets, results with their tags and values, "
     "state reports, random numbers, panics and exits with their codes and texts) in the same order and returns the same values as the program says, for every input, angle and measurement outcome. It reads no undefined value, "
     "stays inside its memory, and uses and releases every measurement future exactly once. The entry point sets up, runs the program and cleans up.",
     ["inputs", "programs"], "all inputs, angles, outcomes and allocation failures (symbolic); random programs over every operation the target supports, array programs, closed programs, Guppy programs of the repository",
     "tests compare snapshots of the text emitted for single operations, or only that compilation succeeds",
     ["qis-compiler/rust/lib.rs", "qis-compiler/rust/array.rs", QS + "llvm/qsystem.rs", QS + "llvm/futures.rs", QS + "llvm/result.rs", QS + "llvm/prelude.rs", QS + "llvm/random.rs", QS + "llvm/debug.rs", QS + "llvm/utils.rs",
      QS + "llvm/array_utils.rs", TK + "llvm/rotation.rs", TK + "llvm/bool.rs"],
     [("code generation of the runtime calls", QS + "llvm/qsystem.rs"), ("results and their tags", QS + "llvm/result.rs"), ("futures", QS + "llvm/futures.rs"), ("angles", TK + "llvm/rotation.rs"), ("entry point", "qis-compiler/rust/lib.rs")],
     technique="translation validation: the program and the LLVM IR which the real compiler emits for it are both executed symbolically; equivalence decided by z3 / exact polynomial identity",
     note="Per program the verdict covers every input state, angle, classical input and measurement outcome. Programs are the stated families. LLVM opt level 0 (LLVM's own optimisations are outside). Trusts the operation semantics and the "
          "meaning of the LLVM instructions and runtime functions as written in vlib.")
prop("C10", "Calls into a GPU library happen as the program says",
     "A compiled program makes exactly the calls into the GPU library that the program describes, in order and with the same context, function, arguments and signature text, and reads back the results it asked "
     "for; it checks the library's interface version once before the first call, looks every named function up once, and ends with the library's message as soon as any call fails.",
     ["inputs", "programs", "fault_sequences"], "all arguments, all values and failures returned by the library (symbolic); programs: contexts, lookups, calls and reads in conditionals, loops, blocks and functions",
     "unit tests compare the emitted text of nine single operations; nothing runs the emitted code or composes two operations",
     ["qis-compiler/rust/gpu.rs", QS + "extension/classical_compute.rs"],
     [("GPU code generation", "qis-compiler/rust/gpu.rs"), ("GPU operations", QS + "extension/classical_compute/gpu.rs"), ("compile_to_llvm_ir", "qis-compiler/rust/lib.rs")])
prop("C11", "A circuit survives the trip to pytket and back",
     "Encoding a program's circuits for pytket and reassembling them unchanged gives a valid program with the same signature, outputs, effects and quantum state. This holds in place and for stand-alone circuits, "
     "for qubit permutations, angles computed by classical code, constants, tuples of qubits and bits, and operations pytket does not know, which travel as opaque boxes. "
     "What pytket, or a stand-alone circuit, cannot carry is refused with an error.",
     ["inputs", "programs", "configurations"], "all input states, angles, classical inputs and outcomes (symbolic); random programs from plain circuits to full-feature programs, with and without nested subcircuits and the target's own gates",
     "tests round-trip some twenty fixed circuits and compare command lists or signatures, never the meaning of the result",
     [TK + "serialize/pytket.rs", TK + "serialize/pytket/circuit.rs", TK + "serialize/pytket/encoder.rs", TK + "serialize/pytket/encoder", TK + "serialize/pytket/decoder.rs", TK + "serialize/pytket/decoder",
      TK + "serialize/pytket/opaque", TK + "serialize/pytket/extension", QS + "pytket"],
     [("register and parameter tracking", TK + "serialize/pytket/encoder/value_tracker.rs"), ("wire tracking and qubit permutation", TK + "serialize/pytket/decoder.rs"),
      ("opaque subgraphs", TK + "serialize/pytket/opaque"), ("operation tables", TK + "serialize/pytket/extension")])
prop("C12", "Circuits exchanged with pytket mean what they say",
     "A circuit in pytket's JSON format is decoded to a program that performs exactly its commands: gates with their parameter expressions, symbolic parameters, measurements, classical expressions, conditionals, nested "
     "boxes, bit copies, and the implicit qubit permutation. "
     "With a requested signature and parameter names, inputs and outputs go to registers in order, registers beyond them start as zero and are freed, and parameters are taken by name, then in order of appearance. A program encoded for pytket gives a circuit that, read by pytket's rules, does what the program does.",
     ["inputs", "programs", "configurations"], "all input states, angles, bits and outcomes (symbolic); every gate, parameter expressions of every shape up to depth 4, random circuits with bits and boxes, requested signatures of every order of kinds, with the plain and the target configuration",
     "tests round-trip through this repository's own encoder and decoder, so a mistake on both sides cancels; expressions are tested on a dozen strings",
     [TK + "serialize/pytket/decoder/param", TK + "serialize/pytket/decoder.rs", TK + "serialize/pytket/encoder.rs", TK + "serialize/pytket/extension", QS + "pytket"],
     [("parameter grammar", TK + "serialize/pytket/decoder/param/param.pest"), ("gate emitters and decoders", TK + "serialize/pytket/extension"), ("native gate emitters", QS + "pytket/qsystem.rs")])
prop("C13", "Eliding array borrows preserves values and panics",
     "Removing matching borrow/return pairs on arrays leaves the contents of every array, every result and every run-time panic (double borrow, return to an occupied place) unchanged, and keeps the order of side effects.",
     ["inputs", "programs", "histories"], "all input states, indices and angles (symbolic); random borrow/return histories on flat and nested arrays inside and across regions",
     "tests cover a few hand-written sequences; the pass reasons about histories of indices that may alias",
     [TK + "passes/borrow_squash.rs"], [("borrow_squash_traversal", TK + "passes/borrow_squash.rs")])
prop("C14", "Normalising Guppy programs preserves their behaviour",
     "For every combination of its switches, normalising a compiled Guppy program yields a valid program with the same outputs, results, panics, side-effect order and quantum state. A step that is switched off is not taken.",
     ["inputs", "programs", "configurations"], "all inputs, angles and outcomes (symbolic); every switch alone, all, twice; random programs, CFG shapes and the repository's compiled examples",
     "tests count operations after normalising eight examples",
     [TK + "passes/guppy.rs", TK + "passes/borrow_squash.rs", TK + "passes/tuple_unpack.rs"], [("pass selection and order", TK + "passes/guppy.rs")])
prop("C15", "Splitting a circuit into chunks and reassembling it is the identity",
     "A circuit that is split into chunks by size or cost and reassembled has the same signature and the same action on every input as the original. The same holds if each chunk was replaced in between by an equivalent circuit, including by one that is empty. No chunk is larger than the requested size or cost, unless it is a single operation.",
     ["inputs", "programs", "configurations"], "all input states, angles and outcomes; random circuits, chunk sizes 1..7, CX-cost splits, chunk rewriting",
     "tests reassemble four small circuits",
     [TK + "passes/chunks.rs"], [("Chunk::extract / insert", TK + "passes/chunks.rs"), ("reassembly of transitive connections", TK + "passes/chunks.rs")])
prop("C20", "Removing tuple pack/unpack pairs preserves every value",
     "Rewriting away a tuple that is built and taken apart leaves every value of the program unchanged, whichever components and other uses of the tuple remain. Each offered rewrite applies and yields a valid program.",
     ["inputs", "programs"], "all inputs; every selection of used components and further uses up to three components and two unpacks, random programs",
     "tests cover five fixed shapes",
     [TK + "passes/tuple_unpack.rs", TK + "rewrite.rs"], [("find_tuple_unpack_rewrites", TK + "passes/tuple_unpack.rs")])
prop("C21", "Dropping and copying values compiles away without changing anything else",
     "Programs that drop values explicitly, or copy and discard containers implicitly, keep every remaining value, effect and quantum state when compiled for the target. A value that is still needed is never consumed, no lazy "
     "measurement result is leaked or read twice, and no drop operation remains.",
     ["inputs", "programs"], "all inputs and outcomes (symbolic); random nested containers of bits, measured bits, lazy results and numbers, copied and dropped in nested regions",
     "tests drop three fixed types and look for operation names",
     [QS + "lower_drops.rs", QS + "lib.rs", QS + "replace_bools.rs"],
     [("drop replacement by linearisers", QS + "lower_drops.rs"), ("array linearisation", QS + "replace_bools.rs")])
prop("C16", "Rewriting a circuit with an equivalence-class set preserves it",
     "Every rewrite the ECC rewriter offers, applied alone, through any rewrite strategy or through the Badger optimiser, gives a valid circuit with the same action on every input. The announced change of cost is "
     "the real one, the optimiser never returns a circuit that is worse by its own cost function, and a rewriter that was saved and loaded, or loaded from the binary format, behaves the same way. The optimiser handles "
     "every valid circuit, including circuits with control flow and classical parts around the gates, and where a circuit visibly contains a connected member of a class that has a smaller representative on the same wires, rewrites are offered.",
     ["inputs", "programs", "configurations"], "all input states, angles and outcomes; circuits concatenated from the class members and random gates, programs with measurement and control flow; every offered rewrite, 5 strategies, several queue sizes, split or not",
     "tests apply a few rewrites to fixed circuits and count gates; the circuits are never compared",
     [TK + "rewrite.rs", TK + "rewrite/ecc_rewriter.rs", TK + "rewrite/strategy.rs", TK + "portmatching", TK + "optimiser/badger.rs", TK + "circuit/cost.rs"],
     [("pattern matching and rewrite construction", TK + "portmatching"), ("strategies and cost deltas", TK + "rewrite/strategy.rs"), ("search and best-circuit selection", TK + "optimiser/badger.rs")])
prop("C22", "Circuits with the same hash are the same circuit",
     "Circuit hashing succeeds on every valid circuit, including circuits with control flow, and does not depend on the order in which the operations were added. Two circuits with the same hash (which therefore "
     "compare equal, and of which an optimiser explores only one) compute the same outputs from the same inputs, given the same definitions of the functions they call: gates, constants, wiring, tags, branches and callees are all told apart.",
     ["inputs", "programs"], "all inputs, angles and outcomes; all pairs of small circuits, and random programs with every kind of single change, that have equal hashes",
     "tests compare three pairs of circuits",
     [TK + "circuit/hash.rs", TK + "circuit.rs"], [("hash_node / hashable_op / hash_children", TK + "circuit/hash.rs")])
prop("C03", "A controlled function acts only when its controls are set",
     "Resolving control modifiers on a unitary function gives a valid program without modifiers whose action, on every state of the controls and targets and every classical argument, is: identity when some control is |0>, "
     "the function itself (global phase included, as a relative phase) when all are |1>. It holds for every gate, for chains of modifiers of any sizes mixed with daggers, through nested regions, loops, branches on classical data, "
     "calls, nested modifiers and arrays. The order in which control arrays and control qubits are given is kept, and no valid unitary function in the supported fragment is refused.",
     ["inputs", "programs"], "all input states, angles and classical arguments; every gate under 16 modifier chains, random functions of bounded size",
     "tests resolve a few fixed functions and only ask whether the result validates",
     [TK + "modifier.rs", TK + "modifier/modifier_resolver.rs", TK + "modifier/modifier_resolver/tket_op_modify.rs", TK + "modifier/modifier_resolver/dfg_modify.rs", TK + "modifier/modifier_resolver/call_modify.rs",
      TK + "modifier/modifier_resolver/global_phase_modify.rs", TK + "modifier/modifier_resolver/array_modify.rs", TK + "modifier/control.rs"],
     [("gate-by-gate control", TK + "modifier/modifier_resolver/tket_op_modify.rs"), ("threading of controls through regions", TK + "modifier/modifier_resolver/dfg_modify.rs"), ("calls", TK + "modifier/modifier_resolver/call_modify.rs")])
prop("C04", "A daggered function is the inverse",
     "Resolving dagger modifiers on a unitary function gives a valid program without modifiers that undoes the function, for every state, angle and classical argument: the composition of both is the identity up to a global phase "
     "(a relative phase when the result is controlled), and two daggers cancel. It holds for every gate, through nested regions, branches on classical data, calls with arguments in any order, permuted qubits, nested modifiers and arrays; "
     "classical computation inside the function is not reversed.",
     ["inputs", "programs"], "all input states, angles and classical arguments; every gate under 7 modifier chains, random functions of bounded size",
     "tests resolve a few fixed functions and only ask whether the result validates",
     [TK + "modifier.rs", TK + "modifier/modifier_resolver.rs", TK + "modifier/modifier_resolver/tket_op_modify.rs", TK + "modifier/modifier_resolver/dfg_modify.rs", TK + "modifier/modifier_resolver/call_modify.rs",
      TK + "modifier/modifier_resolver/array_modify.rs", TK + "modifier/dagger.rs"],
     [("reversed wiring", TK + "modifier/modifier_resolver.rs"), ("gate inverses", TK + "modifier/modifier_resolver/tket_op_modify.rs"), ("reversed order of children", TK + "modifier/modifier_resolver/dfg_modify.rs")])
prop("C17", "Costs of circuits add up, compare and divide as costs must",
     "The difference of two costs, added to the second, is the first, and it is negative, zero or positive as the first is smaller, equal or larger; costs and differences add component by component and are ordered lexicographically. "
     "A divided cost is the smallest one that suffices for that many equal parts. A rewrite is allowed exactly if its cost stays under the documented threshold.",
     ["inputs"], "all costs of one to three components up to isize::MAX (divisors and factors as stated in the evidence)",
     "tests compare two pairs of costs",
     [TK + "circuit/cost.rs", TK + "rewrite/strategy.rs"],
     [("LexicographicCost", TK + "circuit/cost.rs"), ("thresholds", TK + "rewrite/strategy.rs")],
     level="other", technique="bounded model checking of the compiled Rust functions with Kani (CBMC); counterexamples are re-run natively",
     note="All values within the stated bounds; unwinding assertions on. Trusts Kani's translation of MIR and CBMC.")
prop("C18", "The expression found for a value computes that value",
     "The expression extracted for a copyable value of a circuit, run on the inputs it lists, gives exactly that value for every input and outcome. Extraction is refused only if the expression would not be convex or needs something outside the limits that were set. "
     "Its inputs are distinct and in the documented order.",
     ["inputs", "programs"], "all inputs and outcomes (symbolic); every copyable value of random programs, with and without limits on where the expression may reach",
     "tests look at the inputs of three expressions and never evaluate one",
     [TK + "subcircuit/expression.rs", TK + "resource/scope.rs", TK + "subcircuit.rs"],
     [("backward traversal and boundary", TK + "subcircuit/expression.rs"), ("reachability on resource paths", TK + "resource/scope.rs")])
prop("C25", "The commands of a circuit are the circuit",
     "Circuit::commands lists every operation of a dataflow region once, after the operations whose results it uses, and names for every port the unit it carries: a program put together again from the list alone, by following each qubit (or other "
     "linear value) along its unit and each copyable value along its wire, in the order listed, is the same program. A unit keeps its name through the operations that pass it on, and the narrower views "
     "(linear, qubits, wires, operations, the counts) say the same.",
     ["inputs", "programs"], "all inputs and outcomes (symbolic); every dataflow region of random programs with control flow, calls, arrays, constants and effects",
     "tests list the commands of five circuits without control flow",
     [TK + "circuit/command.rs", TK + "circuit/units.rs", TK + "circuit.rs"],
     [("CommandIterator and the unit of each port", TK + "circuit/command.rs"), ("units of a boundary", TK + "circuit/units.rs"), ("operations, counts", TK + "circuit.rs")])
prop("C26", "Saving and loading a circuit keeps the program",
     "A circuit that is stored, as text or as a compressed or plain binary envelope, and loaded again is the same program with the same entry point; loading a function by name gives the circuit of the (first) function with exactly that name; "
     "extracting a circuit into a graph of its own keeps it.",
     ["inputs", "programs"], "all inputs and outcomes (symbolic); random programs with every kind of node, entry points in functions and nested graphs, and functions whose names are alike",
     "tests store and load three circuits of one operation and compare hashes",
     [TK + "serialize.rs", TK + "circuit.rs"],
     [("store / load / load_function", TK + "serialize.rs"), ("to_owned / extract_dfg", TK + "circuit.rs")])
prop("C27", "The resource view of a region is the region",
     "Viewing a region as operations on resources loses and invents nothing: every linear value lies on exactly one resource, which passes through its operations in the order of the program, with increasing positions; every copyable input names the "
     "wire that feeds it; and asking whether one place can be reached from another within the region is answered as the graph says, data and order edges alike. Wiring the region anew from what the view says gives an equivalent program.",
     ["inputs", "programs"], "all inputs and outcomes (symbolic); every dataflow region of random programs with classical values, arrays, calls, order edges and nested regions",
     "unit tests look at the resources of a handful of flat circuits",
     [TK + "resource.rs", TK + "resource/scope.rs", TK + "resource/flow.rs", TK + "resource/types.rs"],
     [("ResourceScope", TK + "resource/scope.rs"), ("DefaultResourceFlow", TK + "resource/flow.rs")])
SXR = ("symbolic execution of the compiled code: the generic cost type is instantiated with unknowns, every answer the code gets from a cost is recorded as path condition, z3 turns every answer round until all paths are run "
       "and decides the assertions for all costs on each path; counterexamples are run again")
prop("C28", "The optimiser's search returns the cheapest states it finds",
     "From a valid start the backtracking search visits only states that it found, each at most once and always a cheapest one of those waiting; it leaves a found state unvisited only because of a limit, or because the queue was full of states that cost no "
     "more. It visits no more states than allowed. The result is a cheapest visited state, and the n best states, if asked for, are the n cheapest in ascending order. States without cost or hash are left out.",
     ["inputs", "programs"], "all costs, ties, transitions and validity of the states (symbolic) in search spaces of at most 4 states; all small queue sizes, numbers of best states and visit limits",
     "tests push a fixed sequence of costs into the queue",
     [TK + "optimiser.rs", TK + "optimiser/backtracking.rs", TK + "optimiser/pqueue.rs"],
     [("BacktrackingOptimiser", TK + "optimiser/backtracking.rs"), ("StatePQueue", TK + "optimiser/pqueue.rs")],
     level="other", technique=SXR, note="All paths and all costs within the stated sizes; no time limits. The number of states is bounded at 4 (thorough 5).")
prop("C29", "Strategies, Badger and chunk splitting keep to the costs they are given",
     "Whatever each operation costs: the cost of a circuit is the sum of the costs of its operations; a strategy returns one valid circuit for each rewrite whose cost does not exceed what it replaces and none for others, and the change of cost it reports is the change; "
     "the greedy one adds the rewrites that do not overlap, cheapest first. Badger's result never costs more than its input nor than what one rewrite gives. Splitting by cost puts every operation into one chunk, and no chunk of several operations costs more than allowed.",
     ["inputs", "programs"], "all costs of the operations (symbolic, major and minor); random circuits over five equivalence-class sets, random sets of candidate rewrites",
     "tests use a few circuits with fixed cost functions",
     [TK + "rewrite/strategy.rs", TK + "passes/chunks.rs", TK + "optimiser/badger.rs", TK + "circuit.rs", TK + "rewrite.rs"],
     [("ExhaustiveGreedyStrategy, ExhaustiveThresholdStrategy", TK + "rewrite/strategy.rs"), ("split_with_cost", TK + "passes/chunks.rs"), ("Badger's states", TK + "optimiser/badger.rs")],
     level="other", technique=SXR, note="All paths and all costs (0 to 40 per component) for the circuits and candidates drawn; circuits are random, so an untested shape is outside the bound.")
prop("C19", "Parallel optimisation returns a valid equivalent circuit on every schedule",
     "With any number of threads, any interleaving of the workers and any timeout, the optimiser ends and returns a circuit that is equivalent to its input and no more expensive.",
     ["schedules", "inputs"], "all interleavings of the worker threads and all points at which a timeout can fire",
     "tests run one schedule on one machine",
     [TK + "optimiser/badger.rs", TK + "optimiser/pqueue_worker.rs", TK + "optimiser/pqueue.rs"],
     [("worker threads and the priority channel", TK + "optimiser/pqueue_worker.rs")])
prop("C23", "The Python interface does what the Rust library does",
     "Every function exposed to Python gives the result of the corresponding library function on the same circuit and raises an exception exactly where the library returns an error.",
     ["inputs", "programs"], "all circuits", "the Python tests call each function on a few circuits",
     ["tket-py/src", "tket-py/tket"], [("bindings", "tket-py/src")])
prop("C24", "Passes taken from tket1 preserve the circuit",
     "Running a tket1 pass on a program preserves its behaviour.",
     ["inputs", "programs"], "all circuits and passes", "tests run a pass on two circuits",
     ["tket1-passes/src"], [("calls into the C++ library", "tket1-passes/src")])
NA = [
    {"property": "C19", "reason": "the deciding code is the interleaving of rayon/crossbeam worker threads around whole-circuit rewriting: neither Kani (no threads) nor any other symbolic executor here can encode it, and loom/shuttle explore concrete runs. The single-threaded and the split optimiser are decided by C16."},
    {"property": "C23", "reason": "the behaviour runs through CPython and pyo3, for which there is no symbolic executor; the extension module is not part of the build here. The library functions behind it are decided by the other checks."},
    {"property": "C24", "reason": "the passes are a C++ library behind a C interface that is not present in this sandbox, so that its code can be neither built nor encoded. The exchange format on both sides of the call is decided by C11 and C12."},
]


def main():
    P.sort(key=lambda p: p["id"])
    with open("properties.jsonl", "w") as f:
        for p in P:
            an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
            if p["hook"]:
                an["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                                "why_tests_cant": p["why"], "anchors": an}) + "\n")
    na = {x["property"] for x in NA}
    checks = []
    for p in P:
        if p["id"] in na:
            continue
        assert os.path.exists(f"checks/{p['id'].lower()}.py"), p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA}
    if "HOOKS" in globals():
        m["hooks"] = HOOKS
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open("properties.jsonl"):
            jsonschema.validate(json.loads(l), s)
    except ImportError:
        pass
    print(len(P), "properties,", len(checks), "checks")


main()
