#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the JSON stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SIM = "sparsesim/src/lib.rs"; EXP = "sparsesim/src/exp.rs"; BE = "backend/src/lib.rs"; BEX = "backend/src/exp.rs"
RB = "backend/src/result_bool.rs"; STD = "stdlib/src/"; RUN = "runner/src/lib.rs"; CLI = "runner/src/cli.rs"

p("C01", "Gate sequences produce exactly the state linear algebra prescribes",
  "After any sequence of the simulator's named gates (Paulis, H, S, T and adjoints, Rx/Ry/Rz, multi-controlled forms with any number of controls, controlled phase, Pauli exponentials, qubit swap) on any allocated qubits, the reported quantum state equals, up to one global phase and rounding, the state obtained by multiplying the gates' textbook unitaries in program order. This holds however gates are deferred, merged, commuted or flushed internally, for any angle (including 0 and multiples of pi), any queue length and any register width.",
  ["inputs", "programs", "histories"], "every gate sequence over every number of qubits, every angle, every set of controls, with no intermediate observation required",
  "The unit tests compare fixed one- and two-qubit sequences through Choi-style checks; they do not compose long histories of pending H/Rx/Ry, op queues beyond the limit, ids past the initial capacity, or angles at the special-case boundaries.",
  [SIM, EXP, "sparsesim/src/index_map.rs", "sparsesim/src/nearly_zero.rs"],
  [("lazy H/Rx/Ry/op queues and their commutation rules", SIM), ("flush_queue / take_ops / apply_ops", SIM), ("mcrotation, apply_mch, mcphase", SIM), ("mcexp", EXP), ("swap_qubit_ids", SIM)],
  ["QuantumSim gate methods", "QuantumSim::get_state"],
  [("state", "sparse amplitudes", SIM), ("h_flag/rx_queue/ry_queue/op_queue", "pending gates", SIM), ("id_map", "qubit id to bit location", SIM)])

p("C02", "Observing the simulator never changes what it later does",
  "State snapshots, dumps, probability queries, is-zero queries and a forced collapse onto an outcome of probability zero or one may be inserted at any point of a program without changing any later state, probability, measurement outcome (for the same seed) or released/allocated qubit identifier. A query repeated at once gives the same answer.",
  ["programs", "histories"], "every program, every set of insertion points of observers, every seed",
  "No test runs the same program with and without observers; each observer flushes or permutes internal state, and the unit tests observe only at the end.",
  [SIM, BE], [("flush on observation, relocation of qubits to sorted order", SIM), ("maybe_flush_queue levels", SIM)],
  ["get_state, dump, joint_probability, qubit_is_zero, force_collapse", "capture_quantum_state, dumpmachine, qubit_is_zero of the backend"])

p("C03", "Measurement and collapse project the state and are repeatable",
  "A measurement of one qubit, or a joint parity measurement of several, returns only an outcome of non-zero probability and leaves the remaining state equal to the normalised projection of the previous state onto that outcome; repeating it at once gives the same outcome. The reported joint probability equals the weight of odd-parity basis states, and a forced collapse reports the probability of the requested value and projects onto it exactly when that probability is not zero.",
  ["inputs", "programs", "histories"], "every reachable state (with any gates still pending), every subset of qubits, every random draw",
  "Tests measure a handful of product or Bell states; projection of large entangled states, joint measurement with pending gates, and the collapse of qubits whose internal location differs from their id are not covered.",
  [SIM, "sparsesim/src/nearly_zero.rs"], [("check_joint_probability applies queued ops", SIM), ("joint_collapse normalisation", SIM), ("force_collapse guard", SIM)],
  ["measure, joint_measure, joint_probability, qubit_is_zero, force_collapse"])

p("C04", "Measurement outcomes follow the Born rule and are independent",
  "Over random draws, every single-qubit, joint and Pauli-basis measurement yields each outcome with the probability given by the state before it, successive measurements of unrelated qubits are statistically independent, and successive shots of one seeded run are independent samples rather than copies of each other.",
  ["inputs", "histories"], "every state and every seed, as frequencies over many seeds, shots and measurements",
  "Frequencies are not sampled at all by the tests: they check deterministic outcomes or loop until an outcome appears.",
  [SIM, BE], [("random_sample < prob", SIM), ("take_rng kept across initialize", BE)],
  ["measure, joint_measure, release", "mz, mresetz, m, reset, measure__body", "__quantum__rt__initialize"])

p("C05", "Seeded simulation is reproducible",
  "Two simulations given the same seed and the same sequence of calls return identical measurement outcomes, probabilities, qubit identifiers and dumps, within one process, on different threads and in different processes, whatever other simulations ran before or run alongside; different seeds give different outcome sequences.",
  ["programs", "histories", "configurations"], "every program, every seed, every surrounding activity",
  "Only the runner's integration tests (not runnable here) fix a seed, on one tiny program.",
  [SIM, BE], [("StdRng::seed_from_u64", SIM), ("deterministic hash maps (FxHash)", SIM), ("thread-local simulator", BE)],
  ["set_rng_seed, take_rng, QuantumSim::new(Some(rng))", "qir_backend::set_rng_seed"])

p("C06", "Qubit allocation and release preserve everyone else's state",
  "Allocation returns the lowest identifier not in use and the new qubit is in |0> and unentangled; releasing a qubit leaves the remaining qubits in the state they would have if that qubit had been measured, keeps their identifiers, and makes the identifier reusable with no gate, rotation or bit of the old qubit carried over. Releasing the last qubit returns the simulator to the clean initial state.",
  ["programs", "histories"], "every interleaving of allocations, releases (in any order), swaps, gates and observations, with any number of live qubits",
  "Tests release qubits in a few fixed orders from basis states; release of entangled qubits with pending rotations, and reuse of locations after relocation by dump/apply, are not explored.",
  [SIM, BE], [("allocate picks first free id and location", SIM), ("release measures and clears the bit", SIM), ("swap_qubit_ids exchanges pending queues", SIM)],
  ["allocate, release, swap_qubit_ids, get_state", "qubit_allocate(_array), qubit_release(_array)"])

p("C07", "User-supplied unitaries act exactly as their matrix says",
  "Applying a 2^k x 2^k unitary to k listed qubits, optionally with control qubits, transforms the state exactly as that matrix with the first listed qubit most significant, acting only where all controls are one, and leaves all other qubits untouched, whatever gates were pending and wherever qubits were allocated or released before. Helper construction of a controlled matrix gives the identity with the matrix in the lower-right block.",
  ["inputs", "programs", "histories"], "every unitary on up to six qubits, every list of targets and controls in any order, every allocation history",
  "The tests apply a few fixed matrices on freshly allocated qubits in order; target permutations, controls, gaps left by released qubits and sparsity after cancellation are not covered.",
  [SIM], [("relocation of targets to the low bits", SIM), ("controlled()", SIM), ("sparse matrix-vector fold", SIM)], ["QuantumSim::apply", "controlled"])

p("C08", "Misuse of qubit identifiers is reported, never silently accepted",
  "Measuring, jointly measuring, querying, force-collapsing, releasing, swapping, exponentiating or applying a unitary with an identifier that is not allocated fails loudly instead of returning, and so does a joint measurement, probability query, exponential, unitary or controlled gate given a duplicated qubit (for deferred controlled gates, no later than the next state snapshot; controlled rotations by an angle that makes them the identity excepted); matrices of the wrong shape are rejected.",
  ["inputs", "histories"], "every live-qubit set (including exactly one), every bad identifier or duplicate, every operation documented to check it",
  "Six tests cover duplicate ids on simple gates; unallocated ids, the one-live-qubit fast path and deferred detection are not covered.",
  [SIM, EXP], [("id_map lookups that panic", SIM), ("check_for_duplicates / resolve_and_check_qubits", SIM), ("sorted duplicate scan", EXP)], ["documented `# Panics` of QuantumSim methods"])

p("C09", "The reported state is a normalised, sorted, duplicate-free sparse vector",
  "After any program, the snapshot and the textual dump list each basis state at most once, in increasing order, with no zero-amplitude entry, only over allocated qubits (bit i is the i-th lowest identifier), with squared magnitudes summing to one; snapshot and dump agree with each other.",
  ["programs", "histories"], "every program of gates, unitaries, exponentials, measurements, allocations and releases",
  "Tests check probabilities or single amplitudes, not the structure of the whole vector, and no test parses a dump.",
  [SIM, EXP, BE], [("is_nearly_zero filters in state updates", SIM), ("sort before output", SIM), ("bit clearing on release", SIM)], ["get_state, dump", "capture_quantum_state, __quantum__qis__dumpmachine__body"])

p("C10", "Every QIR gate intrinsic performs its documented unitary",
  "Each quantum-instruction intrinsic (plain, adjoint, controlled and controlled-adjoint, two-qubit Ising rotations, Pauli-axis rotations, exponentials, SX, swap, barrier) changes the simulator state exactly as its name documents, up to global phase, for every angle, Pauli, number and order of controls, and operand order; adjoint forms invert their bodies and an empty control list equals the uncontrolled form. Qubits named by static identifier come into existence in |0> on first use, without disturbing others.",
  ["inputs", "programs", "histories"], "every program over the exported gate intrinsics with static or dynamic qubits, any number of controls, any angle",
  "Backend unit tests check three Ising rotations and pauli maps; the per-gate Choi tests live in the runner crate and cover a fixed number of controls on fresh qubits.",
  [BE, BEX], [("gate macros", BE), ("r__ctl identity case", BE), ("ensure_sufficient_qubits", BE), ("argument tuples laid out as repr(C)", BE)],
  ["__quantum__qis__*__{body,adj,ctl,ctladj}", "capture_quantum_state"])

p("C11", "Static measurement results are stored, read and reported faithfully",
  "A result identifier reads back the outcome of the last measurement (or explicit write) stored to it and false before any; storing to one identifier never affects another, whatever identifiers are used and in whatever order. Measure-and-reset and reset leave the qubit in |0>, recorded results and the dump of the result register show the stored values, and dynamic results compare and print as the outcome measured.",
  ["programs", "histories"], "every history of measurements, writes, reads, records and dumps over any identifiers",
  "One unit test touches three result identifiers; growth in arbitrary order, overwriting and recording are not covered.",
  [BE, RB], [("growing bit vector indexed by result id", BE), ("legacy and labelled record functions", BE)],
  ["mz, mresetz, m, reset, read_result, write_result, result_record_output, dumpmachine, result_equal, result_to_string"])

p("C12", "Pauli-basis measurement and probability assertions match the observable",
  "Jointly measuring qubits in given Pauli bases returns the eigenvalue sign of that Pauli product with non-zero probability and projects the state onto that eigenspace (identity factors ignored, an all-identity product is Zero); basis and qubit arrays of different sizes are refused. Asserting a measurement probability succeeds exactly when the true probability of the stated outcome is within the tolerance, aborts with the given message otherwise, and when it succeeds leaves the state unchanged.",
  ["inputs", "programs"], "every state, every list of Paulis and qubits, expected probability, tolerance, and result",
  "The tests only check that the basis mapping is self-inverse on one qubit; outcomes, projections and the assertion are never checked.",
  [BE], [("map_to_z_basis / unmap_from_z_basis", BE), ("assertmeasurementprobability", BE)], ["__quantum__qis__measure__body, __quantum__qis__assertmeasurementprobability__{body,ctl}"])

p("C13", "Shots are isolated: initialisation forgets everything but the random stream",
  "After the runtime is initialised, a program behaves exactly as on a fresh thread with the same random stream: no qubit, amplitude, pending gate, result bit or identifier of an earlier shot is observable, wherever the earlier shot stopped, and the random stream continues so that a seeded sequence of shots is reproducible without repeating itself.",
  ["programs", "histories"], "every pair (earlier shot, later shot), with any leftovers",
  "No test calls initialize after other activity.",
  [BE], [("__quantum__rt__initialize rebuilds simulator, results and qubit high-water mark", BE)], ["__quantum__rt__initialize, then any intrinsic"],
  [("SIM_STATE", "per-thread simulator, results, max qubit id", BE)])

p("C14", "Threads do not influence each other's simulations or output",
  "Programs executed concurrently on different threads each produce exactly the states, results, record output and seeded outcomes they produce when run alone, with no data race. Output that several threads send to standard output arrives as whole lines, each thread's records complete and in its order.",
  ["schedules", "programs"], "every set of programs on every number of threads under every schedule",
  "All tests are single-threaded.",
  [BE, STD + "output_recording.rs"], [("thread_local simulator state", BE), ("thread_local output recorder", STD + "output_recording.rs")], ["all intrinsics, from several threads"])

p("C15", "Reference-counted runtime objects are freed exactly once, never used after",
  "Any program that follows the reference- and alias-count protocol for arrays, tuples, strings, big integers, callables and qubit arrays never causes the runtime to access freed or out-of-bounds memory or to free twice, every object stays readable with unchanged contents while references remain, and once all references are given up all of its memory is returned. A request for more memory than the address space holds fails loudly.",
  ["programs", "histories"], "every protocol-respecting history of create, copy, concatenate, slice, count updates (by any amount), invoke and release",
  "Tests run a few balanced sequences without any memory checking, so leaks and use-after-free pass unnoticed.",
  [STD + "lib.rs", STD + "arrays.rs", STD + "tuples.rs", STD + "strings.rs", STD + "bigints.rs", STD + "callables.rs", BE],
  [("update_counts over Rc strong/weak counts", STD + "lib.rs"), ("tuple header back-pointer", STD + "tuples.rs"), ("qubit_release_array gives up the array", BE), ("temporary tuples in controlled rotations", BE)],
  ["all *_create/_copy/_concatenate/_update_*_count intrinsics"])

p("C16", "Runtime arrays behave as value sequences",
  "A new array (of elements of at least one byte) has the requested number of zeroed elements at distinct, stable, contiguous addresses; concatenation is the first array's elements followed by the second's, a slice is exactly the elements selected by start, step (positive or negative) and inclusive end, including empty selections, and neither aliases its sources; size always equals the element count. Concatenating arrays of different element sizes, slicing with a step of zero or outside the array, and creating an array larger than the address space fail loudly and never touch memory out of bounds.",
  ["inputs", "histories"], "every element size from one byte and every count, every range, every history of writes and derived arrays",
  "Tests use 1-byte and 8-byte elements, short arrays and a few ranges.",
  [STD + "arrays.rs", STD + "range_support.rs"], [("element-size scaled byte vector", STD + "arrays.rs"), ("byte-stepped slice iteration", STD + "range_support.rs")], ["__quantum__rt__array_*", "quantum__rt__array_slice_1d"])

p("C17", "Copies share only when allowed and never alias otherwise",
  "Requesting a copy of an array, tuple or callable returns the same object with one more reference exactly when the copy is not forced and the object's alias count is zero; otherwise it returns an independent object with equal contents, so that later writes to (or functor changes of) either are never visible through the other. Alias and reference counts move by exactly the requested amounts.",
  ["histories"], "every history of alias and reference updates of any size, forced and unforced copies, copies of copies, and writes",
  "Tests copy once with alias count zero or one.",
  [STD + "arrays.rs", STD + "tuples.rs", STD + "callables.rs", STD + "lib.rs"], [("weak count as alias count", STD + "lib.rs"), ("array_copy/tuple_copy/callable_copy", STD + "arrays.rs")], ["*_copy, *_update_alias_count, *_update_reference_count"])

p("C18", "Big integers compute exact integer arithmetic",
  "Every big-integer operation (from 64-bit and from little-endian two's-complement bytes, add, subtract, multiply, truncated division and remainder, power, negation, bitwise and/or/xor/not, shifts, comparison, byte export, decimal text) equals exact arithmetic on unbounded integers for every operand, and never modifies its operands.",
  ["inputs", "histories"], "every operand of every size and sign, every exponent and shift amount",
  "Tests check small constants for each function.",
  [STD + "bigints.rs", STD + "strings.rs"], [("num-bigint operations behind reference-counted handles", STD + "bigints.rs"), ("signed little-endian byte conversion", STD + "bigints.rs")], ["__quantum__rt__bigint_*"])

p("C19", "Runtime strings and conversions are exact",
  "Strings keep their bytes exactly, with length, data, equality and concatenation agreeing with the byte sequences; integers, Booleans, Paulis, results, qubits, big integers and ranges convert to their documented text, and doubles convert to text that parses back to the same double and shows a decimal point for whole numbers.",
  ["inputs"], "every byte string without NUL, every 64-bit integer, every double, every range",
  "Tests check a few constants per conversion.",
  [STD + "strings.rs", STD + "range_support.rs", RB, BE], [("C string wrapper", STD + "strings.rs"), ("double_to_string whole-number rule", STD + "strings.rs")], ["__quantum__rt__string_*, *_to_string, quantum__rt__range_to_string"])

p("C20", "Callables dispatch to the right specialisation with the right arguments",
  "Invoking a callable runs the body, adjoint, controlled or controlled-adjoint entry according to the parity of adjoint requests and the presence of controlled requests, with its captured tuple, the caller's result tuple and an argument tuple equal to the caller's with all nested control lists joined outermost first; the caller's argument tuples and control arrays are left intact. Functor changes on a copy never affect the original, and capture count updates reach the registered functions with the exact amount.",
  ["inputs", "histories", "programs"], "every history of make-adjoint, make-controlled (any nesting depth), copy, invoke, with any capture and argument sizes and control list lengths",
  "One unit test invokes each entry once without nesting or captures.",
  [STD + "callables.rs"], [("function table index from functor state", STD + "callables.rs"), ("flattening loop over nested control tuples", STD + "callables.rs")], ["__quantum__rt__callable_*, __quantum__rt__capture_*"])

p("C21", "Output records are framed, ordered and delivered exactly once",
  "Each recording or message call appends exactly one line in program order with the documented type, value and optional label (labels byte for byte, message text escaped so that it can never break the framing); buffered output drained or read by the host is exactly the records since the last drain, and direct standard-output mode emits the same bytes.",
  ["programs", "histories", "inputs"], "every sequence of record, message, dump and drain calls with any values and labels",
  "Tests call each function once, mostly without checking the text.",
  [STD + "output_recording.rs", STD + "lib.rs", BE], [("record_output / record_output_str", STD + "output_recording.rs"), ("OutputRecorder drain", STD + "output_recording.rs")], ["*_record_output, __quantum__rt__message, OUTPUT, dumpmachine"])

p("C22", "Mathematical intrinsics return the mathematically correct value",
  "Trigonometric, hyperbolic, inverse, logarithm and square-root intrinsics agree with the real function to within a few units in the last place and follow IEEE conventions at NaN, infinities, signed zeros and outside their domain; the NaN/infinity tests classify every double correctly; the IEEE remainder is exact for every pair of doubles, rounding the quotient to nearest with ties to even.",
  ["inputs"], "every double (or pair of doubles)",
  "Tests evaluate a handful of points.",
  [STD + "math.rs"], [("std f64 functions", STD + "math.rs"), ("ieeeremainder formula", STD + "math.rs")], ["__quantum__qis__{sin,cos,tan,arctan2,sinh,cosh,tanh,arcsin,arccos,arctan,sqrt,log,ieeeremainder,nan,isnan,infinity,isinf,isnegativeinfinity}__body"])

p("C23", "Random draws stay within inclusive bounds and cover them evenly",
  "A drawn integer or double always lies in the inclusive range requested, including ranges of one value, negative ranges and the full 64-bit range; every integer of a small range occurs, with equal frequency, a wide range is covered evenly down to the low bits, and doubles are spread evenly. A minimum above the maximum is reported as a failure.",
  ["inputs", "histories"], "every pair of bounds, as frequencies over many draws",
  "Tests draw a few values and check the bounds once.",
  [STD + "math.rs"], [("random_range(min..=max)", STD + "math.rs")], ["__quantum__qis__drawrandomint__body, __quantum__qis__drawrandomdouble__body"])

p("C24", "The runner emits one well-formed block per shot and runs the chosen entry",
  "For N shots the runner writes exactly N blocks, each being a START line, the entry point's string attributes as METADATA lines, the records of that shot in program order, and an END line; the entry run is the only function visible outside the module and marked as entry point, or the one named, and a missing, ambiguous, unmarked or parameterised entry, one that returns a composite value, an unsupported extension, empty input or unparsable module is reported as an error with nothing executed. Bitcode, text, file and stream inputs of one module give the same output.",
  ["inputs", "programs", "configurations"], "every program, shot count, entry-point choice and input form",
  "The integration tests use a few fixed modules and need the LLVM bindings that are not available to the baseline build.",
  [RUN, CLI], [("run_module shot loop", RUN), ("choose_entry_point", RUN), ("load_file / run_bytes", RUN)], ["run_file, run_bytes, run_bitcode, run_input, command line"])

p("C25", "Programs are linked to the right runtime function or rejected",
  "Every runtime intrinsic a program declares is bound to the runtime function of that name, so that the program's effect is that of calling it directly; a program that declares an unknown function, declares a known one with a different number of parameters, or mixes legacy and labelled output recording is rejected before anything runs. In particular a declaration whose parameters match the runtime function is always accepted.",
  ["programs", "inputs"], "every set of declared intrinsics with every parameter count",
  "The integration tests cover one unknown function, one mixed program and the intrinsics a few modules use; a wrong row of the binding table passes.",
  [RUN, BE], [("bind! table", RUN), ("legacy/labelled dispatch by parameter count", RUN), ("m__body dispatch", RUN)], ["run_bytes with generated modules"])

p("C26", "Seeded runs of a program are reproducible end to end",
  "Running the same program with the same seed, entry point and shot count produces byte-identical output every time, in the same process or another, whatever ran before; the first n shots of a longer run equal a run of n shots; and over shots and seeds the recorded results follow the program's exact outcome distribution.",
  ["programs", "histories", "configurations"], "every program, seed and shot count",
  "A single seeded test on one module.",
  [RUN, CLI, BE], [("set_rng_seed before the shot loop", RUN), ("initialize between shots keeps the random stream", BE)], ["run_bytes, command line --rngseed/--shots"])

p("C27", "The Python package gives the same results as the runner",
  "Calling run, run_bytes or main of the Python package on a module delivers exactly the bytes the runner prints for the same module, entry point, shots and seed: in order to the callback, as Output values, and then nothing to standard output; or, without a callback, to standard output. Left-out arguments mean one shot, the marked entry point and fresh randomness. Every input the runner refuses is raised as a RuntimeError with the runner's message and delivers nothing. A raising callback ends the call with an exception and no further callback. None of this depends on earlier calls in the process (refused, raising, with or without callbacks), on calls made from inside a callback (except that they draw from the same random stream), or on other threads running at the same time.",
  ["programs", "configurations", "histories", "schedules"], "every module, argument combination, history of calls and interleaving of threads",
  "Five Python tests run three fixed modules, and they need the extension module, which the stable suite does not build.",
  ["pip/src/python.rs", "pip/qirrunner/__init__.py", RUN, CLI], [("OptionalCallbackReceiver and the run/run_bytes/main wrappers", "pip/src/python.rs"), ("output recorder mode switch and draining", RUN)], ["qirrunner.run, qirrunner.run_bytes, qirrunner._native.main, OutputHandler, console script"])

p("C28", "Memory follows the state and never accumulates",
  "Repeating a program on one thread, with re-initialisation or release of everything in between, needs no more heap memory after many repetitions than after the first few, and neither does a long run of gates that nothing observes. Gates that have been undone and whose qubits have been looked at leave no trace: the heap needed stays in proportion to the number of non-zero amplitudes times the number of qubits. A raw block of memory handed to a program is zeroed, separate from everything else, and keeps what the program writes.",
  ["programs", "histories"], "every program repeated any number of times, every run of pending gates, every number of qubits",
  "Each test runs its few calls once; accumulation and growth with the register show only over long runs and are not asserted anywhere.",
  [SIM, BE, STD + "lib.rs", "sparsesim/src/index_map.rs"], [("QUEUE_LIMIT flush of the operation queue", SIM), ("release and initialize", BE), ("pruning of vanished amplitudes", SIM), ("memory_allocate", STD + "lib.rs")],
  ["heap of the process while QuantumSim and the runtime functions run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
