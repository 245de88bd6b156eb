"""What each check runs and what its numbers mean."""

OPS = "an evaluation is one operation executed on the real code and judged by the lock-step monitor"
CTX = (
    "distinct_nontrivial counts distinct contexts of an operation: its kind, control count and angle class, the position of the "
    "qubit in it, and the kinds of the two operations last applied to that qubit"
)
REF = (
    "the reference model (dense arithmetic on a hash map of basis states, written independently of the simulator) is right; "
    "floating-point agreement is judged at 1e-7 up to one global phase"
)


def sim(**kw):
    d = {"flavour": "normal", "shards": 8, "soft": 150}
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(
        technique="lock-step runtime monitor against an independent reference simulator, random and stress gate programs",
        note="Every executed gate program's states and probabilities are compared with a reference model; explores millions of operations per run, proves nothing beyond them. Trusts the reference model.",
        legs=[sim(scale=2.0)],
        evaluations=["ops_executed"],
        at_least={"ops_executed": 1_000_000, "state_comparisons": 50_000, "programs_long_queue": 8},
        rule=f"Random gate programs (small, medium, wide registers over 64 ids, reused ids, bursts beyond the operation queue limit); {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C02": dict(
        technique="twin-run monitor: the same seeded program with and without observers",
        note="Compares every later observation and the final state between twins; explores random insertion points. Trusts the comparison tolerance 1e-6 on amplitudes.",
        legs=[sim(scale=1.0)],
        evaluations=["observers_inserted", "observations_compared"],
        at_least={"twin_programs": 20_000, "observers_inserted": 200_000},
        rule="Each random program runs twice with one seed, with and without inserted snapshots, dumps, probability queries, is-zero queries and forced "
        "collapses onto certain outcomes; an evaluation is one inserted observer or one later observation compared between the twins; "
        "distinct_nontrivial counts distinct (operation before, observer, operation after) contexts.",
        assumptions=["a probability within 1e-13 of 0 or 1 counts as certain when choosing forced collapses"],
    ),
    "C03": dict(
        technique="lock-step runtime monitor of measurement, collapse and post-measurement states",
        note="Every outcome must have non-zero reference probability and the collapsed state must be the projected one; random programs.",
        legs=[sim(scale=3.0)],
        evaluations=["ops_executed"],
        at_least={"outcomes_judged": 100_000, "outcomes_random": 30_000, "state_comparisons": 50_000},
        rule=f"Random programs with measurements, joint measurements, forced collapses and repeated measurements, state compared after them; {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C04": dict(
        technique="statistical runtime monitor: chi-square of recorded outcomes against exact distributions",
        note="Frequencies and independence are tested at significance 1e-11; deviations under about 1% (or a factor of two for probabilities of 1e-4 and below) escape the quick run.",
        legs=[sim(scale=1.0)],
        evaluations=["samples_drawn"],
        at_least={"samples_drawn": 3_000_000, "programs_sampled": 100, "rare_streams": 40, "rare_outcomes_seen": 5_000},
        rule="Random programs with 1 to 9 visible outcomes are sampled tens of thousands of times (fresh seed per sample, or successive shots of one seeded stream); "
        "frequencies are compared with the exact distribution enumerated by the reference, and neighbouring samples with independence, by chi-square at significance "
        "1e-11 per test; an outcome of probability zero is a violation. Outcomes of probability 8e-3 to 8e-6 (8e-7 in the thorough run), and their complements, are drawn until 60 to 200 rare ones "
        "are expected, and counted (Chernoff bound, 1e-11). An evaluation is one sample; distinct_nontrivial counts distinct sampled programs and streams.",
        assumptions=[REF, "a deviation of less than about 1% in a probability (less than a factor of two in one of 1e-4 or below) is below the resolution of the quick run"],
    ),
    "C05": dict(
        technique="trace-equality monitor over re-runs in threads, processes and interleavings",
        note="Bit-exact traces are compared for thousands of seeded programs.",
        legs=[sim(scale=3.0)],
        evaluations=["traces_compared", "traces_compared_across_processes", "distinct_seed_strings"],
        at_least={"traces_compared": 30_000, "traces_compared_across_processes": 1_000},
        rule="Random programs traced bit for bit (outcomes, probabilities, ids, dumps, final amplitudes) and re-run with the same seed in the same thread, after unrelated "
        "simulations, interleaved with another simulation, on another thread and in fresh processes; an evaluation is one trace comparison; distinct_nontrivial counts distinct traces "
        "of programs with at least one random draw.",
        assumptions=["traces across processes are compared through 64-bit hashes"],
    ),
    "C06": dict(
        technique="lock-step runtime monitor of allocate/release/swap histories",
        note="Identifiers, states and remaining qubits are judged after random histories against the reference model.",
        legs=[sim(scale=2.0)],
        evaluations=["ops_executed"],
        at_least={"ops_executed": 800_000, "state_comparisons": 50_000},
        rule=f"Random allocate/release/swap histories mixed with gates and observers, on the simulator and through the runtime; {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C07": dict(
        technique="lock-step runtime monitor of arbitrary unitary application",
        note="Random unitaries and register layouts judged against the reference model.",
        legs=[sim(scale=6.0)],
        evaluations=["ops_executed", "controlled_matrices"],
        at_least={"ops_executed": 300_000, "state_comparisons": 30_000},
        rule=f"Random programs with arbitrary k-qubit unitaries (Haar-like, permutations, diagonals, Givens, Hadamards; 1 to 6 qubits, optional controls), and the controlled-matrix helper; {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C08": dict(
        technique="fault-injecting runtime monitor: one misuse after a random valid prefix must panic",
        note="Misuses are sampled across calls, id classes and live sets; runtime-interface misuse runs in child processes.",
        legs=[sim(scale=5.0)],
        evaluations=["misuse_calls", "wrong_shapes_rejected"],
        at_least={"misuse_calls": 50_000},
        rule="A valid random prefix (no, one or several live qubits, gaps, pending gates), then one call with a released, never allocated or duplicated qubit or a wrong matrix shape; "
        "it must panic (deferred gates: at the latest at the next snapshot; runtime interface: the process ends). An evaluation is one misuse; distinct_nontrivial counts distinct "
        "(misuse, number of live and released qubits, preceding operation).",
        assumptions=["panicking (aborting across the C interface) is the loud failure"],
    ),
    "C09": dict(
        technique="online invariant monitor on state snapshots and dumps",
        note="Each snapshot is checked for order, duplicates, norm, zero entries and agreement with the dump, on random programs.",
        legs=[sim(scale=2.0)],
        evaluations=["ops_executed", "snapshot_dump_pairs"],
        at_least={"state_comparisons": 100_000, "snapshot_dump_pairs": 5_000},
        rule=f"Random programs with frequent snapshots and dumps, rich in interference that cancels amplitudes; every snapshot must be sorted, duplicate-free, normalised, without zero "
        f"entries or bits beyond the allocated qubits, and agree with the dump; {OPS}; {CTX}.",
        assumptions=[REF, "an amplitude below 1e-14 counts as zero; programs avoid angles within 1e-9 of, but not equal to, a cancellation"],
    ),
    "C10": dict(
        technique="lock-step runtime monitor of runtime gate intrinsics",
        note="Body, adjoint, controlled and controlled-adjoint forms judged against the reference on random programs with dynamic and static ids.",
        legs=[sim(scale=3.0)],
        evaluations=["ops_executed"],
        at_least={"ops_executed": 500_000, "programs_first_use": 3_000},
        rule=f"Random programs of runtime gate intrinsics in body, adjoint, controlled and controlled-adjoint form, with dynamic and static qubit identifiers and first uses; {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C11": dict(
        technique="lock-step runtime monitor of result storage",
        note="Every read, record and dump of results is compared with a model of the stored values.",
        legs=[sim(scale=2.0)],
        evaluations=["ops_executed"],
        at_least={"result_reads_judged": 100_000, "histories_dynresults": 5_000},
        rule=f"Random programs of measure-into-result, measure-and-reset, write, read, record and dump over many result identifiers, and histories of dynamic results (compare, print, record); {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C12": dict(
        technique="lock-step runtime monitor of Pauli measurements and probability assertions",
        note="Outcomes and collapsed states are judged by the reference; passing and failing assertions are both exercised.",
        legs=[sim(scale=4.0)],
        evaluations=["ops_executed"],
        at_least={"outcomes_judged": 80_000, "assertions_passed": 50_000, "failing_assertions_judged": 100, "rejected_calls": 40},
        rule=f"Random programs with Pauli-basis measurements and probability assertions within the tolerance of the true value (must pass, state unchanged) and outside it (must print the message and end a child process), and with basis and qubit arrays of different sizes (must be refused); {OPS}; {CTX}.",
        assumptions=[REF],
    ),
    "C13": dict(
        technique="twin-run monitor: shot after initialisation against a fresh thread",
        note="Bit-exact comparison of random shot sequences with fresh threads and with the reference.",
        legs=[sim(scale=2.0)],
        evaluations=["steps_compared", "ops_executed"],
        at_least={"shot_pairs": 10_000, "steps_compared": 200_000},
        rule="A random shot cut off anywhere, initialisation, then a random program compared bit for bit with the same program on a fresh thread with the same seed; multi-shot programs are "
        "also judged by the reference and re-run on another thread; an evaluation is one step compared; distinct_nontrivial counts distinct (last operation before, first operation after) "
        "contexts and operation contexts.",
        assumptions=[REF],
    ),
    "C14": dict(
        technique="concurrent trace-equality monitor with injected delays, plus ThreadSanitizer",
        note="Observes the schedules that occur under stress; ThreadSanitizer reports races in those executions.",
        legs=[sim(scale=2.0, shards=4), sim(flavour="tsan", shards=4, scale=1.0, soft=120)],
        evaluations=["steps_compared", "output_groups"],
        at_least={"thread_groups": 2_000, "threads_run": 6_000},
        rule="Groups of 2 to 14 threads run random programs concurrently with injected delays; every thread's trace and output must equal the trace alone; repeated under ThreadSanitizer; "
        "an evaluation is one step compared; distinct_nontrivial counts distinct groups.",
        assumptions=["ThreadSanitizer sees the races of the schedules that occurred"],
    ),
    "C15": dict(
        technique="AddressSanitizer and LeakSanitizer plus a counting, poisoning allocator and a shadow model of every count",
        note="Random reference/alias histories; memory errors seen by ASan, early frees by poisoned reads, leaks by exact block balance.",
        legs=[sim(scale=6.0), sim(flavour="asan", scale=3.0, soft=150)],
        evaluations=["runtime_steps", "program_operations", "histories_repeated"],
        at_least={"histories_memory": 20_000, "histories_programs": 20_000, "histories_repeated": 1_000, "rejected_calls": 20},
        rule="Random histories that follow the reference/alias protocol over arrays, tuples, strings, big integers, callables and qubit arrays (short and long lived, nested, shared), run natively "
        "under a counting allocator that poisons freed blocks and under AddressSanitizer/LeakSanitizer; after every step the counts and the contents of the touched object are compared with the model, "
        "after every history all blocks must have been returned; an evaluation is one step; distinct_nontrivial counts distinct (operation, previous operation on the object, kind, count class) contexts.",
        assumptions=["objects the interface documents as caller-owned (bytes from bigint_get_data, memory_allocate) are excluded"],
    ),
    "C16": dict(
        technique="online model monitor of array histories (value sequences, addresses, counts)",
        note="Arrays of several element sizes judged element by element and by address after random histories; calls that must be refused run in child processes, natively and under AddressSanitizer.",
        legs=[sim(scale=6.0), sim(flavour="asan", scale=0.5, shards=4)],
        evaluations=["runtime_steps"],
        at_least={"histories_arrays": 50_000, "rejected_calls": 100},
        rule="Random histories of create, write, concatenate, slice (all sign and emptiness classes, extreme bounds) and copy; sizes, element addresses and contents of all live arrays compared with sequences; "
        "an evaluation is one step; distinct_nontrivial counts distinct operation contexts.",
        assumptions=["element sizes of at least one byte"],
    ),
    "C17": dict(
        technique="online model monitor of copy-on-write histories",
        note="Identity, counts and later writes through either object are judged after random histories.",
        legs=[sim(scale=12.0)],
        evaluations=["runtime_steps"],
        at_least={"histories_copies": 50_000},
        rule="Random histories of copies (forced or not), alias and reference changes by random amounts and writes on arrays, tuples and callables; identity, counts and contents compared with the model; "
        "an evaluation is one step; distinct_nontrivial counts distinct operation contexts.",
        assumptions=["reference counts are observed through frees, since the interface has no read access to them"],
    ),
    "C18": dict(
        technique="differential runtime monitor against an independent exact-integer implementation",
        note="Random and edge operands; every result and the untouched operands are compared with the oracle.",
        legs=[sim(scale=4.0)],
        evaluations=["operations_judged"],
        at_least={"histories_bigints": 20_000},
        rule="Random chains of every big-integer operation over operands from single bits to thousands of bits, both signs, powers of two and their neighbours, byte strings with redundant sign bytes; "
        "an evaluation is one operation judged through its bytes, text and comparisons; distinct_nontrivial counts distinct (operation, operand classes).",
        assumptions=["the harness' own schoolbook integer arithmetic is right"],
    ),
    "C19": dict(
        technique="online model monitor of strings and conversions",
        note="Random byte strings and values; text of every conversion compared with an independent formatter or parsed back.",
        legs=[sim(scale=6.0)],
        evaluations=["conversions_and_string_steps"],
        at_least={"histories_strings": 30_000},
        rule="Random string histories (create, concatenate, compare, read back, conversions of integers, Booleans, Paulis, results, qubits, big integers, ranges and doubles); an evaluation is one step; "
        "distinct_nontrivial counts distinct (operation, value class).",
        assumptions=["strings are UTF-8 without interior NUL, as the interface requires"],
    ),
    "C20": dict(
        technique="online monitor inside the invoked specialisations (recording entry points)",
        note="Entry points registered with the runtime record what they are called with; compared with the model over random functor histories.",
        legs=[sim(scale=6.0), sim(flavour="asan", scale=0.5, shards=4)],
        evaluations=["runtime_steps"],
        at_least={"histories_calls": 50_000},
        rule="Random callables with captures, copies, adjoint and (nested) controlled requests and invocations; the recording entries compare the specialisation, captured tuple, result tuple and argument tuple, "
        "including nested control lists; an evaluation is one step; distinct_nontrivial counts distinct (functor state, arguments) contexts.",
        assumptions=[],
    ),
    "C21": dict(
        technique="event-log monitor: emitted bytes against the recorded call history",
        note="Buffered drains and direct standard output are compared byte for byte with an independent formatter.",
        legs=[sim(scale=4.0)],
        evaluations=["records_judged", "processes_with_direct_output"],
        at_least={"histories_output": 30_000, "processes_with_direct_output": 300},
        rule="Random histories of all recording and message calls with hostile labels and texts, drained at random points, and the same histories written directly to standard output by child processes; "
        "an evaluation is one call; distinct_nontrivial counts distinct (call, value class) contexts.",
        assumptions=["message texts are UTF-8"],
    ),
    "C22": dict(
        technique="offline checker over a log of executed evaluations (multi-precision and exact rational oracle)",
        note="Every logged result is judged within 4 ulp (exactly for the remainder, the classification and special values); hundreds of thousands of arguments per run.",
        legs=[dict(py="math_leg", name="mathematics", n=50_000, shards=8)],
        evaluations=["evaluations_judged"],
        at_least={"evaluations_judged": 300_000, "ieeeremainder_judged": 150_000},
        rule="Arguments of every exponent, special values, neighbourhoods of 1 and of multiples of pi/4, halfway quotients and subnormals; an evaluation is one result judged; "
        "distinct_nontrivial counts distinct (function, argument classes: sign, exponent band, special value).",
        assumptions=["mpmath at 200 bits and Python's rational arithmetic are right", "a few units in the last place means 4"],
    ),
    "C23": dict(
        technique="statistical runtime monitor: bounds on every draw, chi-square over classes and pairs",
        note="Bounds are judged on every draw; evenness and independence at significance 1e-11.",
        legs=[sim(scale=1.0)],
        evaluations=["integers_drawn", "doubles_drawn"],
        at_least={"integers_drawn": 10_000_000, "doubles_drawn": 10_000_000, "rejected_calls": 10, "values_covered": 50_000, "fresh_generators_compared": 60},
        rule="Integer and double ranges of every class (single value, small, negative, full width, just not a power of two) are sampled; each draw must lie in the range, frequencies over up to 64 value classes "
        "and residues and pairs of successive draws are tested by chi-square at 1e-11; equal pairs are no more than chance allows; every value of ranges of up to 130,000 occurs; fresh threads and processes do not repeat each other; reversed ranges must end a child process. An evaluation is one draw; distinct_nontrivial counts distinct ranges.",
        assumptions=["deviations of less than about 1% of a class are below resolution"],
    ),
    "C24": dict(
        technique="trace monitor of the runner's output over generated modules, input forms and refused inputs",
        note="The runner itself (library and command line) runs generated modules; its bytes are judged against blocks assembled from direct runtime calls, all input forms against each other, refusals for leaving no trace.",
        legs=[dict(flavour="runner", shards=8, soft=150)],
        evaluations=["runs_compared", "inputs_refused"],
        at_least={"runs_compared": 5_000, "inputs_refused": 1_000, "command_line_runs": 100},
        rule="Random modules with 1 to 4 functions (quoted and unicode names, random attributes, decoys, several return types), entry chosen by mark or name, 0 to 7 shots, as text, bitcode and wrapped bitcode "
        "through every library function, short-reading streams, files and the command line; 15 families of inputs that must be refused with nothing written or recorded, each followed by a valid run; "
        "an evaluation is one run compared or refusal judged; distinct_nontrivial counts distinct (module shape, entry choice, shots, attributes) classes.",
        assumptions=["inkwell and LLVM 20 are replaced by a stand-in over LLVM 18", "METADATA lines are compared as a set (LLVM orders attributes)"],
    ),
    "C25": dict(
        technique="differential runtime monitor: linked programs against direct calls of the runtime; enumeration of declarations",
        note="Random programs over all 152 names, byte-identical output demanded; every name is declared with every parameter count from 0 to 8.",
        legs=[dict(flavour="runner", shards=8, soft=150)],
        evaluations=["programs_linked", "declarations_judged"],
        at_least={"programs_linked": 6_000, "declarations_judged": 1_400, "runtime_calls_compared": 200_000},
        rule="Random programs (gates, measurement and branching on it, loops, helper functions, strings, big integers, arrays, tuples, callables with compiled entry points, records) run by the runner and by calling the "
        "runtime functions directly with the same seed; declarations with every parameter count, unknown and near-miss names, C library names, and every legacy/labelled mixture must be accepted or rejected as specified, "
        "rejections with nothing executed; an evaluation is one program or declaration set; distinct_nontrivial counts distinct sets of functions used and distinct declarations.",
        assumptions=["inkwell and LLVM 20 are replaced by a stand-in over LLVM 18", "the System V calling convention of x86-64 is used for direct calls"],
    ),
    "C26": dict(
        technique="replay monitor (same seed, byte-equal output across repetitions, threads, processes, prefixes) and chi-square against exact outcome distributions",
        note="Distributions are exact (branch enumeration on a reference simulator); deviations judged at significance 1e-11 over shots, pairs of shots and neighbouring seeds.",
        legs=[dict(flavour="runner", shards=8, soft=150)],
        evaluations=["outputs_compared", "shots_judged", "seeds_judged"],
        at_least={"outputs_compared": 2_000, "processes_compared": 40, "shots_judged": 400_000, "seeds_judged": 5_000},
        rule="Random programs with mid-circuit measurement, feedback, reset and classical draws; the same run repeated, after other programs, in another thread, in another process, with fewer shots; "
        "recorded outcomes over 6000 shots, over successive pairs and over 1500 neighbouring seeds against the exact distribution; an evaluation is one output compared or one shot judged; "
        "distinct_nontrivial counts distinct programs.",
        assumptions=["inkwell and LLVM 20 are replaced by a stand-in over LLVM 18", "deviations below about 2% of an outcome's probability are under the resolution of one program"],
    ),
    "C27": dict(
        technique="trace monitor of the Python package's output, errors and call histories against the runner library and executable",
        note="The package's Rust and Python sources run inside a real CPython under random histories of calls; every byte delivered or printed is compared with the runner's own. pyo3 itself is a stand-in.",
        legs=[dict(py="py_leg", name="python", shards=8, cases=60, steps=220)],
        evaluations=["run_calls", "run_bytes_calls", "mode_main", "refusals_judged", "scripts_compared"],
        at_least={"nested_stdout": 5, "nested_main": 5, "nested_refused": 5, "steps": 1_500, "run_calls": 1_000, "run_bytes_calls": 1_000, "refusals_judged": 250, "callbacks_raised": 80, "nested_runs": 40, "thread_runs": 200, "scripts_compared": 20, "defaults_judged": 100, "pieces_delivered": 500, "bytes_delivered": 50_000},
        rule="Random modules (valid and refused) as text and bitcode; histories mixing run, run_bytes and main with callbacks, OutputHandler, standard output, positional, keyword and left-out arguments, raising callbacks, "
        "refused inputs and arguments, threads taking turns at callbacks, and the console script; an evaluation is one call or script judged; distinct_nontrivial counts distinct sequences of three kinds of step.",
        assumptions=["inkwell and LLVM 20 are replaced by a stand-in over LLVM 18", "pyo3 is replaced by a stand-in over the C API of CPython 3.12"],
    ),
    "C28": dict(
        technique="counting-allocator monitor of live and peak memory over repeated programs, plus AddressSanitizer",
        note="Live bytes at growing numbers of repetitions, of pending gates and of undone gate blocks; growth is judged over three successive doublings. Does not see memory allocated by LLVM.",
        legs=[sim(scale=5.0), sim(flavour="asan", scale=0.5)],
        evaluations=["repetitions", "gates_pending", "support_programs", "raw_block_sets"],
        at_least={"repetitions": 100_000, "gates_pending": 400_000, "support_programs": 300, "raw_block_sets": 100},
        rule="Random programs on the simulator and the intrinsics repeated 2000 times with re-initialisation or release in between; 60 000 unobserved gates in a row (growth of 4 bytes per gate counts); blocks of gates undone again on up to 400 qubits; raw blocks; an evaluation is one repetition, pending gate, circuit or set of blocks; distinct_nontrivial counts distinct repeated programs.",
        assumptions=["memory of LLVM and of the operating system is not counted"],
    ),
}
