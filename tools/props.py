HOOKS = ["b116b60"]
NOTES = ("Deterministic simulation: sim/rayon-core is a drop-in thread pool whose scheduler is seeded; sim/harness holds the "
 "scenarios, one binary per property. The thread-pool crate, the compute layer, the challenger, "
 "the allocator and the memory traits are the seams; one hook lets the prover carry on where it would refuse a false statement. Known and repaired defects: known_findings.json.")

prop("C01", "Every satisfying witness can be proved, and its proof is accepted",
 "For every constraint system that can be built through the public interface and every witness and boundary values that satisfy it, "
 "the prover returns a proof and the verifier accepts that proof. This holds for any number of worker threads, any order in which "
 "parallel work is executed, any hash-map iteration order and any table sizes, including empty and non-power-of-two tables.",
 ["programs", "inputs", "schedules"],
 "all constraint systems over the supported column kinds (committed, transparent, repeating, shifted, packed, projected, zero-padded, "
 "linear combinations, composite, structured), zero constraints, flushes with selectors and multiplicities, exponentiations and non-zero "
 "columns; all satisfying witnesses; all schedules of the fork/join pool",
 "The tests prove a few dozen hand-written systems with one schedule each; combinations of column kinds, sizes, flush "
 "patterns and thread interleavings are unbounded. The simulation found six completeness failures the tests did not.",
 ["crates/core/src/constraint_system/prove.rs", "crates/core/src/constraint_system/verify.rs", "crates/core/src/protocols", "crates/core/src/oracle",
  "crates/core/src/piop", "crates/core/src/ring_switch", "crates/fast_compute/src/layer.rs", "crates/math/src", "crates/hal/src"],
 mech(("proving pipeline", "constraint_system/prove.rs: prove"), ("verification pipeline", "constraint_system/verify.rs: verify"),
  ("greedy evaluation check", "protocols/greedy_evalcheck"), ("grand products and flushes", "protocols/gkr_gpa, constraint_system/prove.rs"),
  ("batched constraint sumchecks", "protocols/sumcheck")),
 "deterministic simulation: random constraint systems with a reference model, proved and verified under seeded schedules",
 "exploration",
 NOTE_SCHED + "The reference model (sim/harness/src/sys.rs) evaluates every column kind, constraint, flush and exponent independently. "
 "Systems are drawn up to 2^6 rows (quick) or 2^9 (thorough).",
 observe_at=["the returned proof and the verifier's answer"])

prop("C02", "A proof depends only on the statement and the witness",
 "Proving the same statement with the same witness always yields the same bytes. The number of threads, the order in which parallel work "
 "runs, hash-map iteration order, what the working memory held before, how much of it there is, and the SIMD width values are packed in "
 "have no influence.",
 ["schedules", "configurations", "inputs"],
 "all schedules and thread counts, hash seeds, memory contents and sizes, and the 128-, 256- and 512-bit packings, for all systems and witnesses",
 "Each test runs one schedule with one packing and never compares proof bytes across executions.",
 ["crates/core/src/constraint_system/prove.rs", "crates/core/src/protocols", "crates/fast_compute/src", "crates/hal/src", "crates/ntt/src", "crates/hash/src", "crates/math/src"],
 mech(("parallel reductions and collections", "maybe_rayon users throughout"), ("working memory", "compute/src/alloc.rs, fast_compute/src/layer.rs"),
  ("packed fields", "crates/field/src/arch")),
 "deterministic simulation: byte-for-byte comparison of proofs across seeded schedules, thread counts, packings and memory histories",
 "exploration",
 NOTE_SCHED + "The reference execution is one worker, no preemption, 128-bit packing, fresh memory.",
 observe_at=["the returned proof bytes"])

prop("C03", "No proof is accepted for a statement that does not hold",
 "If the committed data does not satisfy the constraint system and boundary values the verifier is given, no proof made by running the "
 "proving algorithm on that data, or on a different system or other boundary values, is accepted. Every constraint, every column "
 "definition, every flush value, selector, multiplicity and direction, every exponentiation, every non-zero requirement and every "
 "boundary value is enforced.",
 ["programs", "inputs", "fault_sequences", "schedules"],
 "all systems, all single and combined corruptions of committed or derived cells, all single-element differences between the prover's and "
 "the verifier's system, and all boundary alterations",
 "The tests contain almost no negative cases: they show that correct witnesses pass, not that each part of a statement is enforced. "
 "The simulation found two accepted false statements.",
 ["crates/core/src/constraint_system/verify.rs", "crates/core/src/constraint_system/exp.rs", "crates/core/src/constraint_system/channel.rs",
  "crates/core/src/protocols", "crates/core/src/oracle", "crates/core/src/transparent"],
 mech(("constraint enforcement", "protocols/sumcheck/zerocheck"), ("channel balance", "constraint_system/verify.rs: verify_channels_balance"),
  ("column definitions", "protocols/evalcheck/verify.rs"), ("exponentiation claims", "constraint_system/exp.rs")),
 "deterministic simulation with fault injection: dishonest provers (corrupted witness cells, another system, other boundaries) judged by a reference model",
 "fault_enumeration",
 NOTE_SCHED + "A run only counts when the independent model finds the attacked statement unsatisfied. Attackers are the real prover on "
 "wrong inputs; cryptographic attacks are out of scope.",
 observe_at=["the verifier's answer"])

prop("C04", "Altered, truncated, spliced or made-up proofs are rejected with an error",
 "A proof that was altered in any way, cut, extended, spliced from several proofs, or replayed against another digest or other boundary "
 "values is rejected. A prover that sends one wrong message and continues consistently is rejected too. Whatever bytes it is given, the "
 "verifier returns an error: it does not panic, hang or exhaust memory.",
 ["inputs", "fault_sequences"],
 "all byte strings in place of a proof, all alterations of valid proofs, and all single wrong messages followed by consistent continuation",
 "The tests never feed the verifier a damaged proof; the simulation made it panic, and made it accept an out-of-range hint.",
 ["crates/core/src/constraint_system/verify.rs", "crates/core/src/transcript", "crates/core/src/protocols/fri/verify.rs", "crates/core/src/merkle_tree/scheme.rs",
  "crates/core/src/protocols/sumcheck/verify_sumcheck.rs", "crates/core/src/protocols/evalcheck/verify.rs", "crates/core/src/ring_switch/verify.rs",
  "crates/core/src/protocols/gkr_gpa/verify.rs", "crates/core/src/protocols/gkr_exp/batch_verify.rs", "crates/core/src/piop/verify.rs"],
 mech(("reading messages", "transcript/mod.rs: TranscriptReader"), ("round checks", "protocols/sumcheck, protocols/gkr_*"),
  ("openings", "protocols/fri/verify.rs, merkle_tree/scheme.rs")),
 "deterministic simulation with fault injection on the message channel (corruption, truncation, duplication, reordering, splicing, replay) and adaptive wrong messages",
 "fault_enumeration",
 NOTE_SCHED + "The wrong-message fault wraps the challenger so that all later challenges are those the verifier will draw. Statements "
 "whose honest messages do not depend on any challenge (nothing constrained) are only judged on not panicking.",
 observe_at=["the verifier's answer"])

prop("C05", "Every challenge depends on everything said before it, alike for both parties",
 "Prover and verifier absorb the same bytes and draw the same challenges in the same order; before the first draw the system digest, "
 "all boundary values, the table sizes and the commitment have been absorbed, and every message is absorbed before the next draw. Changing "
 "any absorbed byte, or how much was drawn, changes all later challenges and no earlier one, however the streams are cut up. Enough "
 "positions are spot-checked for the requested security level, and a tape that is too short, too long or altered is noticed.",
 ["histories", "programs", "inputs"],
 "all sequences of observations, messages, openings and draws of any length and field, and all proofs of all systems",
 "The tests run two fixed message sequences; whether each message of each protocol is bound is not tested at all.",
 ["crates/core/src/fiat_shamir", "crates/core/src/transcript/mod.rs", "crates/core/src/constraint_system/prove.rs", "crates/core/src/constraint_system/verify.rs", "crates/core/src/protocols/fri/common.rs"],
 mech(("hash-based challenger", "fiat_shamir/hasher_challenger.rs"), ("message and opening tapes", "transcript/mod.rs"),
  ("number of queries", "protocols/fri/common.rs")),
 "deterministic simulation: both parties' event logs recorded and compared under seeded schedules; seeded transcript histories with one deviation injected",
 "fault_enumeration",
 NOTE_SCHED + "The challenger is wrapped by a recorder. That openings (not absorbed) come after all messages is checked through the prefix relation between the absorbed stream and the proof.",
 observe_at=["the absorbed and drawn byte streams"])

prop("C06", "Every compute layer computes the documented result, or reports an error",
 "Any program of device operations (copies, fills, inner products, tensor expansion, folds, FRI folds, line extrapolation, composites, "
 "product reductions, parallel maps and joins, kernels with local buffers and chunked buffers) gives exactly the documented values on every "
 "compute layer, for every slice length and view, every field tower level and every SIMD width; elements outside the written slices keep "
 "their values. Inputs documented as invalid, and failures of user kernels, come back as errors, not as panics or as success.",
 ["programs", "inputs", "schedules", "fault_sequences"],
 "all sequences of layer operations on all slices and views of device memory, with valid and documented-invalid inputs, on the reference layer and the fast layer at widths 1, 2 and 4",
 "The layer tests run each operation alone with one size and one tower level, on whole buffers and never with failing kernels. The simulation found "
 "wrong values for short slices, lost kernel errors and panics on invalid input.",
 ["crates/compute/src/layer.rs", "crates/compute/src/cpu/layer.rs", "crates/compute/src/memory.rs", "crates/fast_compute/src/layer.rs", "crates/fast_compute/src/memory.rs", "crates/fast_compute/src/arith_circuit.rs"],
 mech(("operation contracts", "compute/src/layer.rs: ComputeLayerExecutor, KernelExecutor"), ("memory views", "fast_compute/src/memory.rs: PackedMemorySliceMut"),
  ("kernel chunking", "fast_compute/src/layer.rs: process_kernels_chunks, compute/src/cpu/layer.rs: map_kernels")),
 "deterministic simulation: seeded operation programs with failing kernels and invalid inputs on every layer, compared with an executable model of device memory",
 "exploration",
 NOTE_SCHED + "The model is a flat array per buffer with scalar arithmetic (sim/harness/src/bin/c06.rs). Tower levels 1 and 2 are documented as "
 "unsupported and not drawn. Two recorded findings: pairwise_product_reduce is not implemented in the fast layer, and to_owned_mut of part of a packed element loses writes.",
 observe_at=["values read back from device memory, returned errors"])

prop("C07", "Failures of memory, device and backend surface as errors and do no harm",
 "Whatever single or repeated failure occurs while proving (an allocation on host or device, a copy, a kernel, any operation of the compute "
 "layer or of the computation backend, or simply too little memory), the prover returns an error: it neither panics nor returns a proof as if nothing "
 "had happened. Afterwards the same layer and memory prove the statement again with the same bytes. Allocators hand out disjoint slices of the requested "
 "size to concurrent tasks, refuse exactly when too little is left, and get nested memory back.",
 ["fault_sequences", "schedules", "inputs"],
 "all positions and repetitions of every kind of failing operation, all memory budgets, all concurrent and nested allocation histories, for all systems",
 "No test injects a failure into the layer, the allocator or the backend. The simulation found two panics.",
 ["crates/compute/src/alloc.rs", "crates/core/src/constraint_system/prove.rs", "crates/core/src/protocols/sumcheck/prove", "crates/core/src/protocols/sumcheck/v3",
  "crates/core/src/piop/prove.rs", "crates/core/src/ring_switch/prove.rs", "crates/core/src/protocols/fri/prove.rs", "crates/hal/src"],
 mech(("bump allocation", "compute/src/alloc.rs: BumpAllocator"), ("error propagation", "constraint_system/prove.rs, piop/prove.rs, ring_switch/prove.rs, protocols/sumcheck/prove")),
 "deterministic simulation with fault injection: failing operations and allocations at seeded positions, memory budgets, concurrent allocation histories",
 "fault_enumeration",
 NOTE_SCHED + "Failures are injected by wrappers around the real layer, allocators and backend (sim/harness/src/faulty.rs).",
 observe_at=["the prover's answer, the proof bytes after recovery, allocated slices"])

prop("C10", "Protocol reductions keep true claims true and false claims false",
 "Every interactive reduction (batched sumcheck in both evaluation orders, eq-indicator sumcheck, zerocheck with univariate skip, grand product, "
 "exponentiation, device-side bivariate sumcheck and MLE-check, and the evaluation-check reduction of virtual columns to committed ones) turns true claims, whatever their number, sizes, compositions, field levels, packing width, "
 "points and hints (advice, constant suffixes, partial expansions), into evaluation claims that are true and on which both parties agree; a batch that "
 "contains one false claim, or a prover that sends one wrong message (or a wrong reference to another claim) and carries on consistently with it, is rejected or leaves a "
 "false evaluation claim. This holds on every thread schedule.",
 ["inputs", "fault_sequences", "schedules"],
 "all batches of claims, compositions and multilinears of all sizes and subfields, all claimed values and points, all schedules of both parties",
 "The tests run each reduction on a few random instances of one shape; the failing cases need coincidences: a coordinate equal to one, claims of unequal "
 "sizes in one batch, a constant suffix, a zero-variable claim, a combination of a combination with an offset. The simulation found defects of this kind in "
 "the device prover and in the evaluation-check prover.",
 ["crates/core/src/protocols/sumcheck", "crates/core/src/protocols/gkr_gpa", "crates/core/src/protocols/gkr_exp", "crates/core/src/protocols/evalcheck",
  "crates/math/src", "crates/hal/src"],
 mech(("sumcheck family", "core/src/protocols/sumcheck: prove, verify, eq_ind, zerocheck, front_loaded, v3"),
      ("product and exponent circuits", "core/src/protocols/gkr_gpa, gkr_exp"),
      ("evaluation check", "core/src/protocols/evalcheck: EvalcheckProver, EvalcheckVerifier")),
 "deterministic simulation with fault injection: both parties over a transcript under seeded schedules, false claims and wrong messages injected, reduced claims checked against a dense model",
 "fault_enumeration",
 NOTE_SCHED + "A prover that gives up on a false claim is not judged.",
 observe_at=["verifier answer, reduced evaluation claims, challenges of both parties"])

prop("C09", "Commitments bind and openings prove exactly what was committed",
 "A Merkle commitment, an interleaved FRI commitment and a batched commitment of columns of mixed sizes and fields each have exactly the root the plain "
 "serial construction gives, on every schedule and layer. True openings (leaves, layers, whole vectors, FRI final values, evaluation claims through ring "
 "switching, product sums) are accepted for all admissible parameters. Openings of anything else are rejected: wrong values, indices, branches, layers and "
 "lengths, words that are not codewords, substituted oracles, wrong folding challenges, false or mutually cancelling evaluation claims, altered partial "
 "evaluations, other data than committed, altered, short or long proofs. The number of queries meets the requested security.",
 ["inputs", "fault_sequences", "schedules"],
 "all trees, codes, rates, interleavings, fold arities, column batches, evaluation claims and points, all deviations of a dishonest prover, all schedules",
 "The tests run one shape each with an honest prover; no test has a dishonest one. The simulation found a schedule and size dependent panic in parallel "
 "hashing and a wrong size formula.",
 ["crates/core/src/merkle_tree", "crates/core/src/protocols/fri", "crates/core/src/piop", "crates/core/src/ring_switch", "crates/core/src/reed_solomon",
  "crates/ntt/src/fri.rs", "crates/hash/src/multi_digest.rs"],
 mech(("vector commitment", "core/src/merkle_tree: build, branch, verify_opening, verify_layer"), ("FRI", "core/src/protocols/fri: FRIFolder, FRIVerifier"),
      ("batched opening", "core/src/piop, core/src/ring_switch")),
 "deterministic simulation with fault injection: committing and opening parties under seeded schedules, dishonest prover moves injected, answers checked against a dense model",
 "fault_enumeration",
 NOTE_SCHED + "The oracle-substituting FRI prover is the harness's own; a prover that gives up on false claims is not judged.",
 observe_at=["roots, layers, verifier answers, FRI final value"])

prop("C11", "Parallel kernels compute what their serial definitions say",
 "Every additive NTT (single or multithreaded, any thread count, twiddles computed or stored, any packing, batch shape, coset and number of skipped rounds) "
 "gives the evaluations of the novel-basis polynomials on its domain, and the inverse transform undoes it; the Reed-Solomon encoder gives the message "
 "polynomial's values on the whole domain for every dimension, rate, batch and packing; parallel and sliced digests equal the serial hash of each row for any "
 "number and length of rows, prefix and history of updates; multilinear evaluation, partial evaluation of low, high and middle variables, zero padding, "
 "subcubes, tensor expansions and piecewise evaluation equal the plain definition for every field, packing and size. Arguments outside the documented range "
 "give an error and never a panic or a partial result. None of this depends on the schedule.",
 ["inputs", "schedules"],
 "all fields, packings, shapes, sizes (also smaller than a packed element), thread counts, points and schedules",
 "The tests compare two implementations with each other on a few shapes; a fault common to both, or one at sizes below a packed element, or one that needs a "
 "thread count the test machine does not have, is invisible to them. The simulation found two of the second kind.",
 ["crates/ntt/src", "crates/core/src/reed_solomon", "crates/hash/src", "crates/math/src/multilinear_extension.rs", "crates/math/src/mle_adapters.rs",
  "crates/math/src/fold.rs", "crates/math/src/tensor_prod_eq_ind.rs", "crates/math/src/piecewise_multilinear.rs", "crates/hal/src/cpu.rs"],
 mech(("transforms", "ntt/src/multithreaded.rs, single_threaded.rs, twiddle.rs"), ("encoder", "core/src/reed_solomon"), ("digests", "hash/src/multi_digest.rs, vision, groestl"),
      ("multilinears", "math/src")),
 "deterministic simulation: the kernels run on the simulated thread pool under seeded schedules with seeded shapes and injected invalid arguments, against dense definitions",
 "fault_enumeration",
 NOTE_SCHED + "Digests are compared with the repository's serial hash, not with the published hash specification.",
 observe_at=["returned values and errors"])

prop("C12", "M3 gadgets and tables compute exactly what they document",
 "Filling an M3 table (sequentially, in parallel, in any segment size and schedule) gives for every row the documented function of its event and a witness that "
 "satisfies every constraint and every column definition, for every gadget: adders and subtractors of all widths and flags, incrementers, two's complement and "
 "sign conversion, multiplication, division, barrel shifters, SHA-256, Keccak-f (stacked and by lookups), Groestl, incrementing columns, indexed lookups with their tallied "
 "multiplicities, Merkle inclusion of any number of overlapping paths. Conversely no assignment "
 "of the committed columns that satisfies the compiled constraints gives any input and output pair outside that function, and no false leaf, index, depth or root balances. A filler that fails or panics, a wrong "
 "number of events, a missing or doubly initialised table, a column of another table or a doubly borrowed one give an error and leave no table half filled as if it were whole.",
 ["inputs", "fault_sequences", "schedules"],
 "all gadgets, parameters, events, row counts, segment sizes, fill modes and schedules, all corrupted assignments of committed columns, all filler failures",
 "The tests fill each gadget with a few random rows and check the honest witness only; a missing constraint is invisible to them, and rows beyond one segment or "
 "particular operands are not drawn. The simulation found unconstrained carries and borrows, a rejected honest division and four defects in filling.",
 ["crates/m3/src/gadgets", "crates/m3/src/builder"],
 mech(("witness filling", "m3/src/builder/witness.rs"), ("compilation", "m3/src/builder/constraint_system.rs, table.rs"), ("gadgets", "m3/src/gadgets"),
      ("lookups", "m3/src/builder/indexed_lookup.rs, m3/src/gadgets/lookup.rs, m3/src/gadgets/indexed_lookup")),
 "deterministic simulation with fault injection: tables filled under seeded schedules, filler failures and corrupted committed values injected and greedily repaired, judged by a dense model of the compiled constraints",
 "fault_enumeration",
 NOTE_SCHED + "The proof system is replaced by the model of the compiled constraints (C01 covers the rest); soundness is a search for a satisfying corrupted row, not a proof.",
 observe_at=["witness columns, the compiled constraint system, errors"])

prop("C13", "Witness validation and column definitions accept exactly what is well-formed",
 "validate_witness accepts a witness exactly when the statement holds for it: every constraint, non-zero requirement, channel balance, boundary value and column "
 "definition (shifted, packed, projected, zero-padded, linear combination, repeating, composite, transparent), in every row. A witness that lacks a column, has one of "
 "another size, multiplicities of any magnitude or a channel out of range gives an error, not a panic and not acceptance. Defining a column with arguments in the documented "
 "range succeeds and yields the defined column, in the plain and in the symbolic column set alike; arguments out of range are refused when the column is defined.",
 ["inputs", "programs", "fault_sequences"],
 "all systems, all witnesses, boundary values and multiplicities, all arguments of column definitions, all schedules of the parallel checks",
 "The tests call it on honest witnesses. The simulation found eight defects: padding values never looked at, multiplicities that wrap around, panics on malformed witnesses, "
 "out-of-range definitions accepted.",
 ["crates/core/src/constraint_system/validate.rs", "crates/core/src/constraint_system/channel.rs", "crates/core/src/oracle", "crates/core/src/witness.rs"],
 mech(("validation", "constraint_system/validate.rs: validate_witness"), ("channel balance", "constraint_system/channel.rs: validate_witness"),
      ("definitions", "oracle/multilinear.rs, oracle/symbolic.rs")),
 "deterministic simulation with fault injection: corrupted columns, boundaries, statements and malformed witnesses under seeded schedules, judged by a reference model of the statement",
 "fault_enumeration",
 NOTE_SCHED + "Exponentiation results are computed by the prover and not judged here.",
 observe_at=["the answers of validate_witness and of the column definitions"])

prop("C14", "What is serialized reads back the same and damaged bytes give errors",
 "A constraint system, boundary value, field element (every tower and packing), circuit, transparent polynomial or composite value written in any mode reads back as the same "
 "value, from memory that hands out its bytes in any fragments, and leaves what follows unread; different statements have different bytes and digests; a proof made for a system is "
 "accepted with the system read back. A buffer that is full or a source that ends early gives an error, and no bytes, however damaged, make reading panic, exhaust memory or "
 "yield a value that breaks when used.",
 ["inputs", "fault_sequences"],
 "all systems and values, all serialization modes, all fragmentations, buffer sizes, truncations and damages of the bytes",
 "The tests write and read back a handful of values from contiguous memory. The simulation found a lossy encoding and circuits that could be read but not used.",
 ["crates/core/src/constraint_system/mod.rs", "crates/core/src/transparent", "crates/math/src/arith_expr.rs", "crates/utils/src/serialization.rs",
  "crates/field/src", "crates/macros/src", "crates/core/src/oracle"],
 mech(("derive and primitives", "utils/src/serialization.rs, macros/src"), ("statement", "constraint_system/mod.rs, constraint_system/common.rs"),
      ("polynomials", "transparent, math/src/arith_expr.rs")),
 "deterministic simulation with fault injection on the byte channel: short, fragmented, cut, damaged and full buffers, answers compared with the written value",
 "fault_enumeration",
 NOTE_SCHED + "Damaged bytes that still parse are judged only on usability of circuits and polynomials.",
 observe_at=["bytes written, values read back, errors, the verifier's answer"])

prop("C08", "Field arithmetic is exact in every representation",
 "Addition, multiplication, squaring, inversion, embedding and conversion agree between scalar, packed, bit-sliced, AES and POLYVAL representations on every architecture.",
 ["inputs"], "all field elements of all fields and packings",
 "Two 128-bit operands cannot be enumerated.", ["crates/field/src"], mech(("arithmetic", "field/src/arch, field/src/binary_field.rs")),
 "none", "exploration", "", claim=False,
 reason="Pure functions of their operands: no scheduling, time, I/O, failure or second party is involved, so a simulated execution has nothing to vary. (Errors in fields used by the provers surface in C01, C06, C10 and C11 as a side effect.)")

prop("C15", "Hash functions match their published specifications",
 "Groestl-256, Vision-32b, SHA-256 and Keccak compute the published functions for every message.",
 ["inputs"], "all messages", "Messages cannot be enumerated.", ["crates/hash/src"], mech(("permutations", "hash/src/groestl, hash/src/vision")),
 "none", "exploration", "", claim=False,
 reason="Pure functions with a published definition; conformance is a question of test vectors or proof, not of schedules or faults. That parallel and serial hashing agree is part of C11.")
