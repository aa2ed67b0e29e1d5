#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (edit here, then run)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Optimising a circuit never changes what it computes",
 "For every circuit and every optimiser configuration (any rewriter, cost function, queue size, limits, one or several threads, chunked or not), the circuit the Badger optimiser returns is a valid circuit with the same signature, and it computes the same function as its input, up to a global phase. Opaque operations, classical data, measurements and nested regions in the input keep their effects and their order.",
 ["inputs","programs","configurations","schedules"],
 "All circuits over the supported gate set (incl. symbolic/classical/opaque parts), all rewrite sets, all optimiser options and all worker interleavings.",
 "Existing tests optimise a handful of hand-written circuits with one rule set and compare the node count; none compares the function computed, and multithreaded interleavings are never varied.",
 ["tket/src/optimiser/badger.rs","tket/src/optimiser/badger/worker.rs","tket/src/rewrite/ecc_rewriter.rs","tket/src/rewrite/strategy.rs","tket/src/passes/chunks.rs"],
 [("BadgerOptimiser::optimise_with_log","tket/src/optimiser/badger.rs"),("rewrite application","tket/src/rewrite.rs"),("chunked optimisation and reassembly","tket/src/passes/chunks.rs")],
 ["the circuit returned by the optimiser"])
p("C02","The optimiser never returns a worse circuit and respects its limits",
 "For every circuit and every configuration, the Badger optimiser returns, and the cost of the circuit it returns under the strategy's cost function is at most the cost of the input. With a circuit-count limit, a progress limit or a time limit it stops once the limit is reached; when nothing is left to explore it stops, whatever the number of threads.",
 ["inputs","configurations","schedules"],
 "All circuits, cost functions, limits, queue sizes, thread counts and chunkings.",
 "Tests run two circuits with a one second timeout and assert an exact count; they cannot show that no limit combination hangs or returns a costlier circuit.",
 ["tket/src/optimiser/badger.rs","tket/src/optimiser/pqueue.rs","tket/src/optimiser/pqueue_worker.rs","tket/src/optimiser/badger/worker.rs","tket/src/optimiser/badger/eq_circ_class.rs"],
 [("termination and limit tests","tket/src/optimiser/badger.rs"),("best-candidate selection","tket/src/optimiser/badger.rs")],
 ["return of the optimiser","cost of the returned circuit","log of processed circuits"])
p("C03","Every proposed rewrite is sound and its claimed cost change is exact",
 "For every circuit and every equivalence-class file, each rewrite the rewriter proposes can be applied and gives a valid circuit that computes the same function up to global phase. The reported change in node count and the cost change that a rewrite strategy attaches to a new circuit equal the difference measured between the circuits before and after.",
 ["inputs","programs","configurations"],
 "All circuits, all sets of equivalent-circuit classes (incl. after saving and loading the compiled rewriter), all rewrite strategies and cost functions.",
 "Tests look at a few fixed rewrites and counts; equivalence of the rewritten circuit is never checked.",
 ["tket/src/rewrite.rs","tket/src/rewrite/ecc_rewriter.rs","tket/src/rewrite/strategy.rs","tket/src/circuit/cost.rs"],
 [("ECCRewriter::get_rewrites","tket/src/rewrite/ecc_rewriter.rs"),("RewriteStrategy::apply_rewrites","tket/src/rewrite/strategy.rs")],
 ["rewrites returned","circuits and cost deltas returned"])
p("C04","Pattern matching finds exactly the convex occurrences of each pattern",
 "For every circuit and every set of patterns, the pattern matcher reports a match if and only if the pattern occurs in the circuit as a convex subcircuit with the same operations, connectivity and constant parameters; adding patterns to a matcher does not change the matches of the others. Compiled matchers and rewriters that are saved and loaded again report the same matches and rewrites.",
 ["inputs","programs"],
 "All circuits and pattern sets over the supported gates; every root position.",
 "Tests check match counts on a few fixed circuit/pattern pairs; missed and spurious matches elsewhere go unnoticed.",
 ["tket/src/portmatching/matcher.rs","tket/src/portmatching/pattern.rs","tket/src/portmatching.rs"],
 [("PatternMatcher::find_matches","tket/src/portmatching/matcher.rs"),("CircuitPattern::try_from_circuit","tket/src/portmatching/pattern.rs")],
 ["matches reported"])
p("C05","Greedy commutation keeps the circuit valid and its behaviour unchanged",
 "For every circuit, greedily commuting operations succeeds and leaves a valid circuit with the same operations that computes the same function up to global phase. Operations are never moved past measurements, opaque operations or classical dependencies in a way that can be observed, and the circuit depth does not increase.",
 ["inputs","programs"],
 "All circuits over the gate set mixed with measurements, resets, allocations, classical conditions and opaque operations.",
 "Tests assert the number of moves on six small circuits; commutation soundness over arbitrary gate sequences is never executed.",
 ["tket/src/passes/commutation.rs","tket/src/ops.rs","tket/src/circuit/command.rs"],
 [("slice search","tket/src/passes/commutation.rs"),("commutation data","tket/src/ops.rs")],
 ["circuit after the pass"])
p("C06","Splitting into chunks and reassembling loses nothing",
 "For every circuit and every chunk size or cost bound, splitting it into chunks and reassembling them gives a valid circuit with the same signature, operations and behaviour, also when chunks are replaced by equivalent circuits before reassembly (including ones that permute, pass through or discard their wires). Each chunk is a valid circuit and no chunk exceeds the bound unless it is a single operation that does by itself.",
 ["inputs","programs","configurations"],
 "All circuits, all bounds and cost functions, all equivalent chunk replacements.",
 "Two tests split one linear circuit; wires crossing several chunks, classical wires and pass-through replacement are not tested.",
 ["tket/src/passes/chunks.rs"],
 [("CircuitChunks::split_with_cost","tket/src/passes/chunks.rs"),("CircuitChunks::reassemble","tket/src/passes/chunks.rs")],
 ["chunks","reassembled circuit"])
p("C07","Circuit commands and units describe the circuit faithfully",
 "For every circuit, iterating over its commands yields every operation of its top-level region exactly once, in an order that respects every dependency. Each linear wire carries one unit identifier from the port that creates it to the port that consumes it, distinct live values never share an identifier, and the units, ports and types reported for a command or the circuit boundary match the actual graph.",
 ["inputs","programs"],
 "All circuits with allocation/discard, measurements, constants, classical wires and containers in any port order.",
 "Tests cover circuits with one allocation; identifier reuse and mixed port orders are not reached.",
 ["tket/src/circuit/command.rs","tket/src/circuit/units.rs","tket/src/circuit.rs"],
 [("CommandIterator","tket/src/circuit/command.rs"),("Units","tket/src/circuit/units.rs")],
 ["commands and units reported"])
p("C08","The circuit hash depends on exactly the circuit's structure",
 "The hash of a circuit does not depend on node numbering, insertion order or on names and metadata: two isomorphic circuits always hash alike. Circuits that differ in an operation, a constant parameter, a wire connection or a boundary wire order reached by some output hash differently.",
 ["inputs","programs"],
 "All circuits and all relabelings of them; all single structural edits of them.",
 "Two tests compare hashes of a few circuits; neither invariance nor sensitivity is explored.",
 ["tket/src/circuit/hash.rs"],
 [("CircuitHash","tket/src/circuit/hash.rs")],["hash values"])
p("C09","Encoding to pytket keeps the circuit's meaning",
 "For every circuit, encoding it as a pytket circuit either fails with an error or gives a pytket circuit that computes the same function as the original up to global phase, including its parameter expressions, conditional and measured bits, qubit permutation and global phase annotation. Register and bit names in the result are unique and consistent with every command.",
 ["inputs","programs"],
 "All circuits over tket, rotation, bool and qsystem operations, with constant and symbolic parameters, any output permutation, nested regions and opaque parts.",
 "Round-trip tests compare fixed circuits with their own decode; an error made symmetrically in encoder and decoder is invisible to them.",
 ["tket/src/serialize/pytket/encoder.rs","tket/src/serialize/pytket/encoder/value_tracker.rs","tket/src/serialize/pytket/extension/tket.rs","tket/src/serialize/pytket/extension/rotation.rs","tket-qsystem/src/pytket/qsystem.rs"],
 [("PytketEncoderContext","tket/src/serialize/pytket/encoder.rs")],["encoded pytket circuit"])
p("C10","Decoding from pytket keeps the circuit's meaning",
 "For every valid pytket circuit, decoding it gives a valid program that computes the same function up to global phase, whatever the gate set, the parameter expressions (operator precedence and functions as in sympy), implicit permutations, bit operations and the decoding options chosen. Operations without a native counterpart are kept as opaque operations acting on the same qubits and bits with the same parameters.",
 ["inputs","programs","configurations"],
 "All pytket circuits over all gate types with native decoders plus unknown ones, arbitrary parameter expressions, all signatures and input-parameter orders.",
 "Tests decode about a dozen circuits and check signatures; gate semantics and expression evaluation are not executed.",
 ["tket/src/serialize/pytket/decoder.rs","tket/src/serialize/pytket/decoder/wires.rs","tket/src/serialize/pytket/decoder/param/parser.rs","tket/src/serialize/pytket/extension/tk1.rs","tket/src/serialize/pytket/extension/tket.rs"],
 [("PytketDecoderContext","tket/src/serialize/pytket/decoder.rs"),("parameter parser","tket/src/serialize/pytket/decoder/param/parser.rs")],["decoded program"])
p("C11","A pytket round trip gives back an equivalent program",
 "For every program, encoding its regions to pytket, and decoding or reassembling the result back into the program, either reports an error or gives a valid program with the same signature and the same observable behaviour, including unsupported operations, nested and external subgraphs, order edges and values that are not circuits. Neither step ever panics.",
 ["inputs","programs","configurations"],
 "All programs mixing supported and unsupported operations, nested regions and functions; all encode options; in-place and standalone modes.",
 "A table of fixed circuits is round-tripped and only command counts or signatures are compared.",
 ["tket/src/serialize/pytket/circuit.rs","tket/src/serialize/pytket/opaque/subgraph.rs","tket/src/serialize/pytket/decoder/subgraph.rs","tket/src/serialize/pytket/encoder/unsupported_tracker.rs"],
 [("EncodedCircuit::reassemble_inplace","tket/src/serialize/pytket/circuit.rs")],["reassembled program"])
p("C12","Resolved modifiers implement exactly the controlled and adjoint unitary",
 "For every program that applies control and dagger modifiers to a unitary function, in any nesting, resolving the modifiers succeeds or reports an error, and on success gives a valid program without those modifiers that computes exactly the controlled or adjoint operation, including the relative phase that a global phase of the body becomes under control.",
 ["inputs","programs"],
 "All unitary bodies over the supported operations, global phases, rotations, arrays, calls of flagged functions, nested regions and (without dagger) loops; all stacks of modifiers and control counts.",
 "Tests only check that the result validates; the resulting unitary is never computed.",
 ["tket/src/modifier/modifier_resolver.rs","tket/src/modifier/modifier_resolver/tket_op_modify.rs","tket/src/modifier/modifier_resolver/dfg_modify.rs","tket/src/modifier/modifier_resolver/call_modify.rs","tket/src/modifier/modifier_resolver/global_phase_modify.rs","tket/src/modifier/modifier_resolver/array_modify.rs"],
 [("resolve_modifier_with_entrypoints","tket/src/modifier/modifier_resolver.rs")],["program after the pass"])
p("C13","Lowering to the hardware gate set preserves every operation",
 "For every program over the tket quantum operations, lowering it to the hardware operation set gives a valid program without the lowered operations that computes the same function up to global phase, with the same measurement outcome distribution and the same results reported. This holds for every gate, every angle and every control flow around it.",
 ["inputs","programs"],
 "All tket operations incl. allocation, reset, measurement and symbolic angles, in any nesting.",
 "Tests check that lowering produces the expected operation names for one of each gate; the decompositions are never multiplied out.",
 ["tket-qsystem/src/extension/qsystem/lower.rs","tket-qsystem/src/extension/qsystem.rs"],
 [("LowerTketToQSystemPass","tket-qsystem/src/extension/qsystem/lower.rs")],["program after the pass"])
p("C14","The compilation pipeline preserves a program's observable behaviour",
 "For every valid program, running the hardware compilation pipeline with any of its options gives a valid program whose observable behaviour is the same: the joint distribution of measurement outcomes, the reported results in order, panics and exits, and returned values. Lazy measurement, boolean and rotation replacement, order edges and drop lowering never reorder, duplicate or lose an observable event.",
 ["inputs","programs","configurations"],
 "All structured programs: loops, conditionals, CFGs, calls, arrays, futures, results, random numbers, RPC-like state; all option subsets.",
 "Tests compile a few programs and check that they validate or contain an operation; the programs are not executed.",
 ["tket-qsystem/src/lib.rs","tket-qsystem/src/replace_bools.rs","tket-qsystem/src/replace_bools/static_array.rs","tket-qsystem/src/lower_drops.rs","tket-qsystem/src/extension/qsystem/lower.rs"],
 [("QSystemPass::run","tket-qsystem/src/lib.rs")],["program after the pass"])
p("C15","Runtime barriers constrain only ordering and keep every value",
 "For every program with barriers over qubits, nested containers of qubits (arrays, tuples, options) and classical values, inserting runtime barriers gives a valid program in which every value comes out unchanged at its position and every qubit inside a barrier takes part in exactly one runtime barrier call for it. Unpacking a container into its elements and repacking it is the identity.",
 ["inputs","programs"],
 "All barrier type rows built from qubits, arrays (any size incl. zero), tuples, options and copyable types, nested to any depth.",
 "Tests list seven type rows and check which extension operations appear; the values flowing through are not followed.",
 ["tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs","tket-qsystem/src/extension/qsystem/barrier/wrapped_barrier.rs","tket/src/passes/unpack_container.rs","tket/src/passes/unpack_container/type_unpack.rs"],
 [("BarrierInserter","tket-qsystem/src/extension/qsystem/barrier/barrier_inserter.rs"),("TypeUnpacker","tket/src/passes/unpack_container.rs")],["values and barrier events"])
p("C16","Guppy clean-up passes preserve program behaviour",
 "For every valid program, the clean-up passes (borrow/return squashing, tuple unpack removal and the combined Guppy normalisation with any options) give a valid program with the same observable behaviour. No borrow, return, panic or element update is lost, duplicated or reordered so that it can be observed.",
 ["inputs","programs","configurations"],
 "All programs with borrow arrays at constant and dynamic, equal and different indices, aliasing borrows, tuples packed and unpacked in any pattern; all pass options.",
 "Tests count operations after the pass on a few programs without running them.",
 ["tket/src/passes/borrow_squash.rs","tket/src/passes/tuple_unpack.rs","tket/src/passes/guppy.rs"],
 [("BorrowSquashPass","tket/src/passes/borrow_squash.rs"),("NormalizeGuppy","tket/src/passes/guppy.rs"),("UnpackTuplePass","tket/src/passes/tuple_unpack.rs")],["program after the pass"])
p("C17","Search queues keep the best elements and backtracking search keeps its contract",
 "For every sequence of insertions and extractions, the bounded priority queue of the search holds the cheapest distinct elements that fit, pops them in non-decreasing cost order (equal cost: as documented), never exceeds its capacity and never loses or repeats an element. The backtracking optimiser returns the cheapest state it visited, and visits states only within its limits.",
 ["histories","inputs","schedules"],
 "All operation histories, capacities, duplicate hashes and cost ties; all state graphs.",
 "One test pushes five numbers; capacity edges, duplicate hashes and interleavings are not explored.",
 ["tket/src/optimiser/pqueue.rs","tket/src/optimiser/pqueue_worker.rs","tket/src/optimiser/backtracking.rs"],
 [("StatePQueue","tket/src/optimiser/pqueue.rs"),("BacktrackingOptimiser","tket/src/optimiser/backtracking.rs")],["states visited and returned"])
p("C18","Resource tracking and intervals mirror the circuit graph",
 "For every dataflow region and every convex part of it, the resource view assigns every linear port to exactly one resource: values keep their resource through operations that preserve them (by the documented or a custom flow) and get a fresh one elsewhere, inputs first; copyable ports are identified by the wire that feeds them. Paths, ports, resource lists and reachability agree with the graph and positions strictly increase along every wire. Creating and extending an interval succeeds exactly when the result is a contiguous range of the resource's path. The expression computing a copyable value contains exactly the operations and inputs its definition names, gives that value as its first output, and is rejected exactly when it is not convex.",
 ["inputs","programs","histories"],
 "All regions and convex parts of them, all sequences of interval extensions, all boundaries of expressions.",
 "Tests use two small fixed circuits.",
 ["tket/src/resource/scope.rs","tket/src/resource/types.rs","tket/src/resource/flow.rs","tket/src/subcircuit/interval.rs","tket/src/subcircuit/expression.rs"],
 [("ResourceScope","tket/src/resource/scope.rs"),("Interval","tket/src/subcircuit/interval.rs"),("CopyableExpr","tket/src/subcircuit/expression.rs")],["scope, interval and expression queries"],"cfg(verif_hooks) re-exports Interval")
p("C19","Compiled native code behaves as the program says",
 "For every valid program that the hardware compiler accepts, the LLVM code it emits, at any optimisation level, verifies, and running it gives the program's semantics: the same results in the same order, panics and exits, with the same probabilities over measurement outcomes. The code keeps the rules of the runtime: it sets up and tears down once, never uses a freed qubit or future, and stays inside its memory. A program it cannot compile gives an error, not a crash.",
 ["inputs","programs","configurations"],
 "All structured programs over qubits, bools, rotations, integers, floats, arrays, futures, results, random numbers and runtime barriers; all optimisation levels and supported targets. Calls into GPU and WebAssembly modules, several random number contexts alive at once, and values returned by the entry point are not covered.",
 "Snapshot tests compare the emitted text for seven programs; the code is never executed.",
 ["qis-compiler/rust/lib.rs","tket/src/llvm/rotation.rs","tket/src/llvm/bool.rs","tket-qsystem/src/llvm/qsystem.rs","tket-qsystem/src/llvm/futures.rs","tket-qsystem/src/llvm/result.rs","tket-qsystem/src/llvm/prelude.rs","tket-qsystem/src/llvm/array_utils.rs"],
 [("compile_to_llvm_ir","qis-compiler/rust/lib.rs"),("codegen extensions","tket-qsystem/src/llvm")],["trace of runtime calls of the compiled code"])
p("C20","Storing and loading a circuit gives the same circuit back",
 "For every circuit and every envelope configuration that can represent it, storing it and loading it again gives a circuit equal in structure, types, constants, entrypoint and metadata with the same behaviour. Loading a function by name returns that function or an error naming the problem, and a circuit extracted as a stand-alone region computes the same as in place.",
 ["inputs","programs","configurations"],
 "All circuits and packages, all envelope formats and compressions. JSON writes decimal numbers, which may differ in the last place, and the binary model format of hugr-core keeps no metadata on input, output and case nodes.",
 "Tests round-trip one circuit per format and compare a count.",
 ["tket/src/serialize.rs","tket/src/circuit/extract_dfg.rs","tket/src/circuit.rs","tket/src/extension.rs"],
 [("Circuit::store / Circuit::load","tket/src/serialize.rs"),("extract_dfg","tket/src/circuit/extract_dfg.rs")],["bytes and loaded circuit"])
p("C21","Malformed input is rejected with an error, never a crash",
 "For every byte string or JSON document given to the loaders (pytket JSON, circuit envelopes, compiled rewriters, equivalence-class files), loading returns a value or an error; it never panics, overflows the stack or runs without bound. Whatever it accepts is a valid circuit. Reassembling an encoded circuit after its commands were edited gives a valid program or an error.",
 ["inputs","fault_sequences"],
 "All inputs, in particular mutations of valid files: truncated, bit-flipped, fields removed, duplicated or of another type, extreme numbers and nesting. Crashes inside hugr-core's own envelope readers and its capacity limits (2^16 ports or links per node) belong to that library.",
 "Tests try three malformed files.",
 ["tket/src/serialize/pytket.rs","tket/src/serialize/pytket/decoder.rs","tket/src/serialize/pytket/decoder/subgraph.rs","tket/src/serialize/pytket/circuit.rs","tket/src/serialize/pytket/decoder/param/parser.rs","tket/src/serialize/pytket/opaque/payload.rs","tket/src/serialize.rs","tket/src/rewrite/ecc_rewriter.rs","tket/src/optimiser/badger/qtz_circuit.rs"],
 [("error paths of the decoders","tket/src/serialize/pytket/error.rs")],["return values"])
p("C22","Published extension definitions match the implementation",
 "The operation and type definitions that the Rust code declares and those published in the Python package's data files are the same: every extension, version, operation, type, signature and parameter agrees. Every operation value serialises to an extension operation and is recognised again as the same operation.",
 ["configurations","programs"],
 "All extensions, all operations with all of their argument values.",
 "One test per extension compares a count or a single operation.",
 ["tket/src/extension.rs","tket-qsystem/src/extension","tket-exts/src/tket_exts/data","tket/src/ops.rs"],
 [("extension registries","tket/src/extension.rs")],["extension JSON"])
p("C23","Circuit costs are additive and ordered lexicographically",
 "For every circuit the reported cost, qubit count and operation counts equal what counting the graph gives, and cost differences satisfy (b - a) added to a equals b. Lexicographic costs compare first component first, and every comparison the strategies make agrees with that order.",
 ["inputs","programs"],
 "All circuits and all pairs of costs.",
 "Two tests compare hand-picked values.",
 ["tket/src/circuit/cost.rs","tket/src/circuit.rs"],
 [("CircuitCost, CostDelta, LexicographicCost","tket/src/circuit/cost.rs")],["costs reported"])

# ---- checks
CHECKS={}
def c(id,technique,note): CHECKS[id]=(technique,note)
NA={}
exec(open('/verif/tools/checks.py').read())
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
ids=[x['id'] for x in P]
man=dict(version=1,setup_cmd="./check.sh --build",
 checks=[dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",technique=CHECKS[i][0],level="exploration",level_note=CHECKS[i][1]) for i in ids if i in CHECKS],
 hooks=dict(guard="cfg(verif_hooks)",enable="rustflags in mon/.cargo/config.toml (RUSTFLAGS must be unset)",source_commits=["782b0558aa7a1f7c571428ab0cafe0dea7013d6f"]),
 not_applicable=[dict(property=i,reason=NA.get(i,"no check has been built for it yet")) for i in ids if i not in CHECKS],
 notes="All checks are one binary (/verif/mon) rebuilt from /repo's working tree; see DESIGN.md.")
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
