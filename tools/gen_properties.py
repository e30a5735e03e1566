#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
B="crates/logicaffeine_base/src/"; D="crates/logicaffeine_data/src/"; K="crates/logicaffeine_kernel/src/"
P="crates/logicaffeine_proof/src/"; R="crates/logicaffeine_runtime/src/"; S="crates/logicaffeine_system/src/"
C="crates/logicaffeine_compile/src/"; L="crates/logicaffeine_lsp/src/"
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=False,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Arbitrary-precision integers compute exactly",
 "For all integers of any size, the big-integer type's addition, subtraction, multiplication, truncated division with remainder, power, comparison, gcd, negation and absolute value return the mathematically exact result. Decimal text and little-endian byte conversions are exact inverses, conversion to a 64-bit integer succeeds exactly when the value fits, and every value has one representation, so equality and hashing mean numeric equality.",
 ["inputs"],"all pairs of integers of unbounded magnitude, including every carry/borrow pattern at limb boundaries and the single-limb/multi-limb representation boundary",
 "The operand space is infinite and the interesting faults live at carry, borrow and representation boundaries that examples rarely hit.",
 [B+"numeric.rs"],[("magnitude kernels",B+"numeric.rs: limb add/sub/mul/shift/divide/compare"),("sign dispatch",B+"numeric.rs: BigInt add/sub/mul/div_rem/cmp"),("text and bytes",B+"numeric.rs: parse_decimal, Display, to/from_le_bytes")],
 ["BigInt public methods and Display"],False,[("sign","sign of the number; zero has a dedicated sign",B+"numeric.rs"),("mag","normalised little-endian limbs, inline for one limb",B+"numeric.rs")])
p("C02","Rational, decimal, complex and modular arithmetic is exact",
 "Rational, fixed-point decimal, complex and modular numbers compute the exact mathematical result of every operation they offer, stay in canonical form (reduced fraction with positive denominator; residue in [0, modulus)), and refuse (rather than approximate) undefined operations such as division by zero or inverting a non-unit. Where a result must be rounded, the returned value is the one the requested rounding mode defines for that exact quotient, for positive and negative values and exact ties. Parsing the printed form gives back an equal value.",
 ["inputs"],"all operand values of unbounded size, all scales, all moduli and all rounding modes",
 "Rounding and normalisation faults appear only for particular sign/tie/scale combinations in an infinite operand space.",
 [B+"numeric.rs"],[("normalisation",B+"numeric.rs: Rational::new"),("rounding",B+"numeric.rs: round_rational_to_bigint"),("scale alignment",B+"numeric.rs: Decimal rescale/aligned"),("modular inverse",B+"numeric.rs: bigint_egcd, Modular")],
 ["Rational, Decimal, Complex, Modular public methods"])
p("C03","Mixed-type numeric comparison is exact and agrees with hashing",
 "Comparing a machine integer, big integer or rational with a 64-bit float orders them by their exact mathematical values, with no rounding of either side. Whenever two numbers of different types are equal under that comparison their unified numeric hashes are equal.",
 ["inputs"],"all 2^64 integers, all 2^64 float bit patterns, and big integers/rationals of unbounded size",
 "The failing inputs are adjacent to 2^53, 2^63 and subnormal limits; random or hand-picked tests practically never land on them.",
 [B+"numeric.rs",D+"ops.rs",C+"semantics/compare.rs"],[("float decomposition",B+"numeric.rs: decompose_f64, rational_from_f64_exact"),("exact compare",B+"numeric.rs: cmp_*_f64_exact"),("hash",B+"numeric.rs: numeric_hash_*")],
 ["cmp_i64_f64_exact, cmp_bigint_f64_exact, cmp_rational_f64_exact","numeric_hash_*"])
p("C04","Calendar dates and day numbers are exact inverses",
 "For every supported year, the mapping from a Gregorian date to a day number is a bijection that advances by exactly one per calendar day and agrees with the leap-year rule; the Julian calendar and ISO-week mappings are likewise exact inverses, and weekdays advance cyclically. Adding a calendar span clamps to the end of the month and never produces an invalid date, and month and year differences count complete periods under that same rule. Business-day counting and stepping agree with visiting the days one by one.",
 ["inputs"],"all years in the supported range (proleptic, negative included), all months and days, all spans",
 "There are billions of dates; errors sit at century, 400-year and negative-year boundaries.",
 [B+"temporal.rs"],[("civil/day conversion",B+"temporal.rs: days_from_civil, civil_from_days"),("ISO week",B+"temporal.rs: iso_week_from_days"),("Julian",B+"temporal.rs: jdn_from_julian, julian_from_jdn"),("spans",B+"temporal.rs: add_span, months_between")],
 ["temporal public functions"])
p("C05","Instants, durations and zones convert losslessly",
 "Every instant survives decomposition into civil fields and back, every duration and every instant with a four-digit year survives formatting and parsing, and malformed text is rejected. Conversions between the civil, atomic and terrestrial time scales are exact inverses away from inserted leap seconds and monotone. A zone's local time differs from UTC by the offset in force, and resolving a local time yields an instant that reads back as that local time whenever one exists, choosing the earlier or later one as requested.",
 ["inputs","configurations"],"all 64-bit nanosecond instants away from overflow, all duration values, all zones with sorted transitions",
 "The instant space is 2^64; failures are at sign changes, offset transitions and sub-second trimming boundaries.",
 [B+"temporal.rs"],[("decompose/compose",B+"temporal.rs: civil_from_unix_nanos, unix_nanos_from_civil"),("text",B+"temporal.rs: format/parse_rfc3339, format/parse_duration"),("scales",B+"temporal.rs: tai/tt conversions"),("zones",B+"temporal.rs: offset_at, to_local, from_local")],
 ["temporal public functions"])
p("C06","An accepted refutation certificate implies unsatisfiability",
 "If a clausal refutation checker (unit-propagation, LRAT text, or propagation-redundancy form) or the parity-refutation checker accepts a certificate for a formula, then no assignment satisfies that formula. A malformed, truncated, out-of-range or irrelevant certificate for a satisfiable formula is never accepted.",
 ["inputs","programs"],"all formulas over any number of variables and all candidate certificates, including adversarial ones",
 "Soundness is a universally quantified claim over certificates; tests only show that some good certificates pass and some bad ones fail.",
 [P+"rup.rs",P+"pr.rs",P+"proof_emit.rs",P+"xorsat.rs"],[("unit propagation",P+"rup.rs: propagate"),("step check",P+"rup.rs: is_rup"),("LRAT",P+"proof_emit.rs: check_lrat"),("PR witness",P+"pr.rs: is_pr, check_pr_refutation"),("parity",P+"xorsat.rs: is_refutation")],
 ["check_refutation, check_lrat, check_pr_refutation, check_pr_refutation_fast, is_refutation"])
p("C07","Solver verdicts are right: models satisfy, UNSAT and entailment are real",
 "When the propositional solvers return a model, that model satisfies every clause or equation given; when they answer unsatisfiable, equivalent, or entailed, no counter-assignment exists. This holds under every restart, simplification and budget setting, and a definite answer is never changed by solving the same problem again or by adding clauses one at a time.",
 ["inputs","configurations"],"all CNF formulas, parity systems and propositional formulas, under all solver configurations",
 "Learning, backjumping and inprocessing bugs need particular clause interactions; expected answers in tests cover few structures.",
 [P+"cdcl.rs",P+"cnf.rs",P+"sat.rs",P+"xorsat.rs",P+"rup.rs"],[("search",P+"cdcl.rs: Solver"),("clausification",P+"cnf.rs: Cnf"),("front end",P+"sat.rs: find_model, prove_unsat, prove_equivalence"),("parity solving",P+"xorsat.rs: solve")],
 ["Solver::solve, find_model, prove_unsat, prove_equivalence, cdcl_entails, xorsat::solve"])
p("C08","Cutting-plane steps only derive implied constraints",
 "Every pseudo-Boolean derivation step (addition, multiplication, rounding division, saturation) yields a constraint satisfied by every 0/1 assignment that satisfies its premises, and a constraint reported contradictory has no satisfying assignment. Building a constraint from at-least, at-most or clause form preserves exactly the intended solutions.",
 ["inputs"],"all constraints over any number of 0/1 variables with any admissible coefficients and degrees, including zero and negative degrees, and all assignments",
 "The rules must hold for every coefficient vector and assignment; example-based tests exercise small positive degrees only.",
 [P+"pseudo_boolean.rs"],[("derivation rules",P+"pseudo_boolean.rs: add, multiply, divide_round, saturate"),("terminal check",P+"pseudo_boolean.rs: is_contradiction")],
 ["PbConstraint public methods"])
p("C09","Arithmetic decision procedures never certify a false statement",
 "When the rational elimination procedure reports a constraint set unsatisfiable no rational assignment satisfies it, and when the integer procedure does so no integer assignment satisfies it. Two expressions accepted as equal polynomials evaluate equally at every integer point, and polynomial and linear-expression operations commute with evaluation.",
 ["inputs"],"all finite sets of linear constraints with unbounded coefficients, all polynomials, and all assignments",
 "A wrong 'unsat' or 'equal' for some coefficient pattern makes false theorems provable; the space of constraint sets is unbounded.",
 [K+"lia.rs",K+"omega.rs",K+"ring.rs"],[("Fourier-Motzkin",K+"lia.rs: fourier_motzkin_unsat"),("integer elimination",K+"omega.rs: omega_unsat, normalize"),("polynomial normal form",K+"ring.rs: Polynomial")],
 ["fourier_motzkin_unsat, omega_unsat, Polynomial::canonical_eq"])
p("C10","The kernel admits no negative or non-terminating definition",
 "An inductive definition is accepted only if the defined types occur strictly positively in every constructor argument, and a recursive definition is accepted only if every recursive call is on a structurally smaller argument. A proof certificate is accepted only if its term really has the claimed type, so no closed certificate of falsity is ever accepted.",
 ["inputs","programs"],"all constructor types, all fixpoint bodies and all certificates expressible as kernel terms",
 "One unsound acceptance makes everything provable; terms are unbounded trees and tests only contain known paradoxes.",
 [K+"positivity.rs",K+"termination.rs",K+"certificate.rs",K+"recheck.rs",K+"type_checker.rs"],[("positivity",K+"positivity.rs: check_positivity"),("guardedness",K+"termination.rs: check_termination"),("certificate recheck",K+"certificate.rs: recheck")],
 ["check_positivity, check_positivity_mutual, check_termination, recheck"])
p("C11","Replicated data types converge whatever the delivery order",
 "Replicas that have received the same set of updates, in any order, grouping and multiplicity of merges, report the same value and then stay equal under further merging; merging never loses an update nor resurrects a removed one against the type's stated conflict rule. Applying the delta computed against a peer's version gives the peer the same value as merging the full state would for additions it lacked.",
 ["histories","schedules"],"all operation histories over any number of replicas, all merge orders, duplications and regroupings",
 "Divergence needs particular interleavings of concurrent operations and merges; unit tests fix two or three replicas and one order.",
 [D+"crdt/gcounter.rs",D+"crdt/pncounter.rs",D+"crdt/lww.rs",D+"crdt/mvregister.rs",D+"crdt/orset.rs",D+"crdt/ormap.rs",D+"crdt/sequence/rga.rs",D+"crdt/sequence/yata.rs",D+"crdt/causal/context.rs",D+"crdt/causal/vclock.rs",D+"crdt/delta_buffer.rs"],
 [("joins",D+"crdt/*: Merge::merge"),("causal context",D+"crdt/causal: DotContext, VClock"),("delta sync",D+"crdt/delta.rs: DeltaCrdt")],
 ["Merge::merge and value accessors of every CRDT"])
p("C12","Encoded values decode to themselves and hostile bytes are rejected",
 "Every value the system can send decodes to an equal value under every encoding option, and integer and length codings are inverse to each other over their whole range. Decoding arbitrary or truncated bytes terminates with a rejection or a value, without crashing and without reading past the input.",
 ["inputs","configurations"],"all values, all encoder options, and all byte strings presented to the decoders",
 "Encoders pick among many column and integer layouts by content; tests cannot enumerate the value shapes or malformed inputs.",
 [D+"wire.rs",C+"concurrency/marshal.rs",R+"payload.rs"],[("varint/zigzag",D+"wire.rs"),("typed messages",D+"wire.rs: WireEncode/WireDecode"),("dynamic messages",C+"concurrency/marshal.rs: encode/decode")],
 ["wire encode/decode functions","encode_value_raw/decode_value_raw, message_to_wire/message_from_wire"])
p("C13","Fixed-width word and lane arithmetic is the modular ring",
 "Each fixed-width word operation returns the mathematical result modulo two to the width for every operand pair and every shift or rotation count, and mixed widths are refused. Every lane-vector operation gives, in each lane, what the corresponding word operation gives, on whichever code path the build selects.",
 ["inputs","configurations"],"all operand bit patterns, all shift and rotate counts, all lane positions",
 "Operand spaces are 2^64 and larger; vector code paths differ from the scalar ones only on special shift counts or lanes.",
 [B+"word.rs",S+"word_rt.rs"],[("word ring",B+"word.rs: Word8..Word64, WordVal"),("lanes",B+"word.rs: Lanes*")],
 ["Word*/WordVal/Lanes* public methods"])
p("C14","Cryptographic primitives match their standards and reject tampering",
 "Hash, extendable-output and authenticated-encryption results equal those of the published standards for every input length; decapsulation recovers the encapsulated key and verification accepts genuine signatures for every seed. Any change to a sealed message, tag, key or signature is rejected, and modular reductions used inside return a congruent value in the documented range for every input.",
 ["inputs"],"all messages of any length, all keys and seeds, all single-bit modifications, all reduction inputs",
 "Known-answer tests fix a few lengths; block-boundary lengths and reduction corner inputs are not covered by them.",
 [S+"keccak.rs",S+"aead.rs",S+"mlkem.rs",S+"mldsa.rs",S+"ntt.rs"],[("sponge",S+"keccak.rs"),("AEAD",S+"aead.rs"),("reductions and transforms",S+"ntt.rs"),("KEM",S+"mlkem.rs"),("signatures",S+"mldsa.rs")],
 ["public functions of keccak, aead, mlkem, mldsa, ntt"])
p("C15","A journaled value survives a crash at any point",
 "After a crash that leaves any prefix of the last write on disk, remounting recovers the state after the last update that had been acknowledged (or a later one), never an older or a mixed state. Updates made after such a recovery survive later remounts too, compaction never changes the recovered state, and damaged contents are reported instead of being accepted as data.",
 ["crash_points","histories","fault_sequences"],"all update/compaction histories, every byte position at which a write can be cut short, repeated crashes, and single-byte corruption",
 "The failing point is one byte offset in one step of a history; tests exercise a couple of hand-made truncations.",
 [S+"storage/mod.rs",S+"distributed.rs",S+"fs/mod.rs"],[("journal framing",S+"storage/mod.rs: JournalHeader"),("replay",S+"storage/mod.rs: replay_journal"),("append and compact",S+"storage/mod.rs: Persistent::mutate/compact"),("bridge",S+"distributed.rs: Distributed")],
 ["Persistent::mount/mutate/compact/get over a virtual file system"],False,[("journal","append-only sequence of length+checksum framed operations",S+"storage/mod.rs")])
p("C16","File access never leaves the configured root directory",
 "Whatever path string is given to the native virtual file system, the file it reads, writes, lists, renames or removes lies inside the configured root directory. Paths that stay inside keep addressing the same file.",
 ["inputs"],"all path strings, including absolute paths, repeated separators, and parent-directory components in any position",
 "Path strings are unbounded and a test list only contains the traversals its author thought of.",
 [S+"fs/mod.rs",S+"fs/uring.rs"],[("resolution",S+"fs/mod.rs: NativeVfs path resolution")],
 ["NativeVfs read/exists/list_dir/write"])
p("C17","Scheduling is deterministic, replayable and loses no message",
 "Running the same tasks with the same seed and policy gives the same outcome and the same decision trace, and replaying the trace reproduces the run; every decision is within the number of options offered. Values sent on a channel are each received at most once, in send order, never invented or lost, bounded channels never hold more than their capacity, and a run is reported finished or deadlocked exactly when that is the case.",
 ["schedules","configurations"],"all task programs over channels, select, timers, spawn/await/abort and close; all seeds and policies; sliced and unsliced driving",
 "The number of interleavings is exponential and a lost wake-up or reordered value shows only under a particular one.",
 [R+"scheduler.rs",R+"seed.rs",R+"channel.rs",R+"executor.rs"],[("decision point",R+"seed.rs: Chooser::decide"),("generator",R+"seed.rs: SeededRng"),("channels",R+"scheduler.rs: send/recv/select"),("timers",R+"scheduler.rs: advance_timers")],
 ["Scheduler::run/run_slice/snapshot, run_with_seed, run_with_trace"])
p("C18","Any k of n erasure-coded shards rebuild the message",
 "For all admissible k and n, any k distinct intact shards produced for a message reconstruct exactly that message, independent of order, duplicates and extra shards; fewer than k give no answer. Frames of several interleaved messages never mix, and malformed frames are ignored.",
 ["inputs","fault_sequences"],"all messages, all 1 <= k <= n <= 256, all loss patterns that leave k shards, all orders and duplications",
 "The number of k-subsets is astronomical and one singular sub-matrix or field-table error affects only some of them.",
 [C+"concurrency/fec.rs"],[("field arithmetic",C+"concurrency/fec.rs: GF(256) multiply/divide"),("matrix inversion",C+"concurrency/fec.rs"),("framing",C+"concurrency/fec.rs: frame_redundant/reconstruct_redundant")],
 ["fec::encode/decode, frame_redundant/reconstruct_redundant"])
p("C19","All execution engines compute the same program result",
 "A deterministic program prints the same output and fails in the same way whether it is run by the tree-walking interpreter, the bytecode machine, or the machine with native-code tiers and optimisations enabled. Integer results are mathematically exact on every engine, promoting beyond 64 bits instead of wrapping, and division and remainder truncate consistently.",
 ["programs","inputs","configurations"],"all programs in the imperative fragment and all engine and optimisation settings",
 "Miscompilations depend on particular loop shapes, operand ranges and optimisation interactions, an unbounded space.",
 [C+"semantics/arith.rs",C+"vm/machine.rs",C+"vm/value.rs",C+"vm/nanbox.rs",C+"optimize/fold.rs",C+"interpreter.rs","crates/logicaffeine_jit/src/lib.rs"],[("arithmetic kernel",C+"semantics/arith.rs"),("compact values",C+"vm/nanbox.rs"),("optimiser",C+"optimize/"),("bytecode machine",C+"vm/machine.rs")],
 ["tw_outcome, vm_outcome, vm_outcome_tiered","semantics::arith public functions"])
p("C20","One-based indexing selects exactly the element the program names",
 "Indexing a list, text or array with position i returns the i-th element counting from one (negative positions count from the end where supported), for text counted in characters, and a position outside the collection fails instead of returning another element. Writing through an index changes that element and no other, and numeric keys select an entry only if exactly equal to its key.",
 ["inputs"],"all collections, all texts including multi-byte characters, all 64-bit indices and float keys",
 "Fast paths diverge from the definition only for particular mixes of multi-byte characters, lengths and boundary indices.",
 [D+"indexing.rs",D+"ops.rs",D+"types.rs"],[("index resolution",D+"indexing.rs"),("float keys",D+"ops.rs"),("checked ops",D+"ops.rs")],
 ["LogosIndex/LogosIndexMut implementations","logos_get and related helpers"])
p("C21","Editor positions and source offsets map back and forth exactly",
 "For every document, converting a character-boundary offset to an editor position (line and UTF-16 column) and back returns the same offset, positions are ordered like offsets, and positions beyond a line or the document clamp to its end. No position sent by an editor makes the conversion fail.",
 ["inputs"],"all documents (any mix of line endings and multi-byte or surrogate-pair characters), all offsets and all positions",
 "Documents are unbounded and the off-by-one cases involve surrogate pairs next to line ends.",
 [L+"line_index.rs"],[("line table",L+"line_index.rs: LineIndex::new"),("conversion",L+"line_index.rs: position, offset, utf16_length")],
 ["LineIndex public methods"])
p("C22","Hybrid clocks respect causality and clock knowledge merges as a lattice",
 "A timestamp issued for a local event or a receipt is strictly greater than every timestamp it follows and never behind the physical clock, for stalled, backward or equal clocks. Merging clock knowledge is commutative, associative and idempotent, never widens what is known, and keeps every node known to either side.",
 ["inputs","histories"],"all timestamps and physical clock readings below counter exhaustion, all knowledge maps, all merge orders",
 "Causality must hold for every combination of clock readings; tests pick a few.",
 [B+"temporal.rs"],[("stamping",B+"temporal.rs: Hlc::tick, Hlc::recv"),("knowledge",B+"temporal.rs: EstimateInterval, SyncClock")],
 ["Hlc, EstimateInterval, SyncClock public methods"])
p("C23","Equality closure answers exactly what the stated equations imply",
 "After any sequence of unions, two elements are reported in the same set exactly when a chain of stated unions connects them, and element ids and counts are never disturbed by queries. Congruence closure reports two terms equal exactly when equality follows from the merged pairs by reflexivity, symmetry, transitivity and congruence, regardless of the order of insertions and merges.",
 ["histories","inputs"],"all sequences of insert, union/merge and query operations over any number of elements and terms",
 "Missed congruences and wrong merges depend on operation order; a test fixes one order.",
 [B+"union_find.rs",K+"cc.rs"],[("disjoint sets",B+"union_find.rs: find, union"),("congruence propagation",K+"cc.rs: EGraph add/merge/equivalent")],
 ["UnionFind and EGraph public methods"])
p("C24","Unification returns a substitution that really unifies",
 "When two terms or formulas are reported unifiable, applying the returned substitution to both gives the same result and the substitution contains no cyclic binding; when one-way matching succeeds, only the pattern is instantiated. Two terms that have a common instance are never reported non-unifiable.",
 ["inputs"],"all pairs of first-order terms over any signature, with shared and repeated variables",
 "Occurs-check and shared-variable faults need particular nested patterns; term pairs are unbounded.",
 [P+"unify.rs"],[("unification",P+"unify.rs"),("substitution application",P+"unify.rs")],
 ["unify_terms, unify_exprs, apply_subst_to_term and relatives"])
p("C25","Sentence readings: parsed logic means what the English says",
 "For every sentence in the supported fragment, the first-order formulas produced are well scoped and are truth-conditionally the readings of that sentence.",
 ["inputs"],"all sentences of the supported English fragment",
 "There are unboundedly many sentences and the intended reading is a linguistic judgement.",
 ["crates/logicaffeine_language/src/parser/mod.rs"],[("parser","crates/logicaffeine_language/src/parser/")],
 ["compile entry points of the language crate"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(props))
