c("C04","runtime monitoring: every match reported by the real matcher compared with a brute-force search for occurrences",
  "The real PatternMatcher runs on generated hosts and pattern sets; an independent exhaustive search decides which matches have to be reported and which must not. Held on the executions listed in the evidence.")
c("C05","runtime monitoring: reference interpreter compares every transformed circuit with its original",
  "The real pass runs on generated circuits; a reference state-vector interpreter observes both programs on random entangled inputs over all measurement branches. Held on the executions listed in the evidence; trusts the interpreter in mon/src/interp.rs.")
c("C06","runtime monitoring: reference interpreter plus operation census over split, edited and reassembled circuits",
  "The real split/reassemble runs on generated circuits with chunk replacements made by the monitor; interpreter and graph census compare before and after. Held on the executions listed in the evidence; two known findings.")
c("C13","runtime monitoring: reference interpreter executes each program before and after lowering",
  "The real lowering pass runs on generated programs; the interpreter observes states, outcome distributions and results of both. Held on the executions listed in the evidence.")
c("C14","runtime monitoring: reference interpreter executes each program before and after the compilation pipeline",
  "The real pipeline runs with every subset of options on generated structured programs; the interpreter observes outcome distributions, results, panics and returned values of both. Held on the executions listed in the evidence; three known findings.")
c("C15","runtime monitoring: reference interpreter with an event monitor for barriers",
  "The real barrier insertion and unpacking run on generated programs over random container types; the interpreter follows every value and records the sequence of gates and barriers per qubit. Held on the executions listed in the evidence.")
c("C16","runtime monitoring: reference interpreter executes each program before and after the rewrite, with an exact monitor for panics and result order",
  "The real BorrowSquashPass, tuple rewrites and NormalizeGuppy run on generated and compiled Guppy programs; the interpreter observes both. Held on the executions listed in the evidence; five known findings, all in passes of hugr-passes that NormalizeGuppy calls.")
c("C12","runtime monitoring: reference interpreter runs modifiers natively and compares with the resolved program",
  "The real resolver runs on generated unitary functions under stacks of control and dagger modifiers; the interpreter computes the unitary of the body, its adjoint and its controlled form and compares with the resolved program on entangled inputs. Held on the executions listed in the evidence.")
c("C07","runtime monitoring: online checker over the command stream and its unit identifiers",
  "The real command iterator and unit iterators run on generated circuits, programs and regions of compiled Guppy files; a monitor follows every unit id against the HUGR's links and types. Held on the executions listed in the evidence.")
c("C08","runtime monitoring: hashes observed on isomorphic copies and single edits, judged by interned terms of the output's causal past",
  "The real circuit_hash runs on generated regions, on random isomorphic copies and after single structural edits; an independent term interner says when the hash must differ. One known collision is listed. Held on the executions listed in the evidence.")
c("C23","runtime monitoring: recount of the graph and an arithmetic monitor for the cost algebra",
  "The real cost functions, counts and strategies' thresholds run on generated regions and random costs; the monitor recounts and recomputes. Held on the executions listed in the evidence.")
c("C03","runtime monitoring: reference interpreter executes every proposed rewrite and strategy result; cost and node counts measured on the results",
  "The real ECCRewriter (built, saved and loaded, read from files) and strategies run on generated hosts; the interpreter executes the circuits before and after each rewrite, and the reported deltas are compared with measured ones. Held on the executions listed in the evidence.")
c("C01","runtime monitoring: reference interpreter executes the optimiser's input and every result, over recorded searches with injected delays",
  "The real Badger optimiser runs on generated rewriters, hosts, strategies, limits and thread counts; the interpreter executes input and output, and the surrounding program. One known finding. Held on the executions listed in the evidence.")
c("C02","runtime monitoring: recorded search history (every visit, cost and time) judged offline, with a watchdog for searches that wait for nothing",
  "The real optimiser runs on generated rewriters and on artificial search spaces with random delays at every visit; the recorded history decides limits, minimality, repetition and termination. Held on the executions listed in the evidence.")
c("C17","runtime monitoring: reference queue beside the real one through random operation sequences; recorded visits of the backtracking optimiser",
  "The real StatePQueue-based searches and BacktrackingOptimiser run on random state graphs; a monitor keeps what a bounded best-first queue has to hold and judges every recorded pop. Held on the executions listed in the evidence.")
c("C22","runtime monitoring: declared definitions, published files and Python classes read side by side, and random operation values observed through conversion, storage and loading",
  "Everything the Rust code declares is compared with the files and Python classes of tket-exts; random operation values are converted, recognised, stored and loaded with either definitions. One known finding. Held on the values listed in the evidence.")
c("C11","runtime monitoring: reference interpreter executes each program before and after being encoded to pytket and reassembled",
  "The real encoder and decoder (default and qsystem configurations, in place and stand-alone, with and without nested regions) run on generated programs and compiled Guppy files; the interpreter executes the program before and after. Explicit errors are allowed. Held on the executions listed in the evidence.")
c("C09","runtime monitoring: reference interpreter executes each circuit and an independent pytket executor the encoded one",
  "The real encoder runs on generated, lowered and decoded programs; independent executors observe the program and the pytket circuit on random entangled inputs. Circuits encoded with opaque payloads are left to C11. Held on the executions listed in the evidence.")
c("C10","runtime monitoring: independent pytket executor runs each circuit and the reference interpreter the decoded program",
  "The real decoder runs on generated pytket circuits with random options; independent executors observe both on random entangled inputs. Held on the executions listed in the evidence.")
c("C18","runtime monitoring: model of resource paths built from the graph beside the real view, through random interval and expression histories",
  "The real ResourceScope, Interval and CopyableExpr run on generated regions and convex parts of them; every query and every extension is compared with a model. Held on the executions listed in the evidence.")
c("C20","runtime monitoring: structural comparison and reference interpreter before and after storing, loading and extracting",
  "The real store, load and extraction functions run on generated programs and circuits in every envelope format and compression; structure, constants, entrypoint, metadata and behaviour are compared before and after. Held on the executions listed in the evidence.")
c("C21","runtime monitoring: mutated documents and bytes given to every loader under a panic, signal and time watch, results judged by the validator",
  "The real loaders (pytket JSON, in-place reassembly, envelopes, compiled rewriters, equivalence-class files, expressions) run on mutated valid files; a worker process is watched for panics, deaths and time. Crashes inside hugr-core's own readers are outside this repository and set aside. Held on the executions listed in the evidence.")
c("C19","runtime monitoring: compiled machine code executed on a monitored runtime beside the reference interpreter, every LLVM module verified",
  "The real qis-compiler compiles generated programs and compiled Guppy files at every optimisation level; the machine code runs in a watched child on a runtime that records every call, and the distribution over recorded results, panics and exits is compared with the reference interpreter's. Held on the executions listed in the evidence.")
