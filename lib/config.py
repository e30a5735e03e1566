"""Which proof units, Kani harnesses and executable contracts decide which property."""
CFG = {
 "C01": dict(level="proof", harness="h_base", units=[dict(file="bigint.vrs", canary="ax_len(s); ax_limbs(m);", canary_params="s: &[u64], m: Mag")],
   rule="both operands nonzero; distinct by decimal text", technique="Verus contracts on the limb kernels and BigInt operations; exact oracle on the public API",
   level_note="Limb kernels, sign dispatch, comparison, power and gcd proved for all operands; text/byte conversion checked by bounded executable contract.",
   assumptions=["operands fit the 48-bit address space", "derived Clone returns an equal value"]),
 "C02": dict(level="proof", harness="h_base", units=[dict(file="bigint.vrs", canary="ax_len(s); ax_limbs(m);", canary_params="s: &[u64], m: Mag"), dict(file="rational.vrs", canary="", canary_params="")],
   rule="operands nonzero; distinct by printed operands", technique="Verus contracts on Rational, Decimal, Complex and Modular over the reals, on top of the proved BigInt contracts; exact oracle on the public API",
   level_note="Arithmetic, rounding in every mode, comparison, normalisation, power and inverse proved exact for all operands, with one representation per value; parsing and printing checked by bounded executable contract.",
   assumptions=["derived PartialEq and Clone of BigInt agree with its value (one representation per value is proved)", "i32::unsigned_abs and mem::replace follow their documentation", "the scales of two multiplied decimals add up within u32"]),
 "C03": dict(level="exploration", harness=["h_base", "h_data"], rule="all cases; distinct by operands", technique="executable contracts with exact oracle", level_note="bounded"),
 "C04": dict(level="proof", harness="h_base", units=[dict(file="calendar.vrs", canary="", canary_params="")], rule="date inside the representable range; distinct by operands", technique="Verus contracts on the calendar functions (bijection, successor, ISO weeks, Julian calendar, spans, month and year differences, business days); executable contracts against an independent calendar oracle",
   level_note="All calendar functions proved for |year| <= 5e15 (days <= 1.85e18); executable contract on the public API.",
   assumptions=["i64::div_euclid, rem_euclid and abs follow their documentation", "sort_unstable and dedup keep the set of holidays", "|year| <= 5*10^15"]),
 "C05": dict(level="proof", harness="h_base", units=[dict(file="calendar.vrs", canary="", canary_params="")], rule="distinct by text or instant", technique="Verus contracts on instant decomposition/composition, zone offset lookup and local-time resolution; executable contracts against an independent calendar oracle for text formats and time scales",
   level_note="civil_from_unix_nanos/unix_nanos_from_civil exact inverses, offset_at, to_local and from_local proved for all inputs in range; text formats, TAI/TT scales and ZoneSpec transition generation checked by bounded executable contract.",
   assumptions=["i64::div_euclid, rem_euclid and abs follow their documentation"]),
 "C06": dict(level="proof", harness="h_proof", units=[dict(file="certs.vrs", canary="", canary_params=""), dict(file="xorsat.vrs", canary="", canary_params="")], rule="satisfiable formula with an adversarial certificate; distinct by formula and certificate", technique="Verus contracts on the RUP, propagation-redundancy and parity checkers (acceptance implies unsatisfiable, for every formula and certificate); exhaustive evaluation for the rest",
   level_note="RUP, PR and parity checkers proved sound for all inputs; the indexed PR checker and the LRAT text checker checked by bounded executable contract.",
   assumptions=["sorting and removing equal neighbours keeps the set of elements", "the hash set built from the clause keys contains exactly those keys", "every variable index is below the stated number of variables (otherwise the checkers panic, which accepts nothing)", "usize::div_ceil rounds up"]),
 "C07": dict(level="exploration", harness="h_proof", rule="distinct by formula and solver configuration", technique="executable contracts against exhaustive evaluation and planted models", level_note="bounded"),
 "C08": dict(level="proof", harness="h_proof", units=[dict(file="pb.vrs", canary="", canary_params="")], rule="premise not empty; distinct by premises and step", technique="Verus contracts on the pseudo-Boolean constraint operations (every assignment satisfying the premises satisfies the result; a reported contradiction has no model); exhaustive evaluation for the proof search and the other cutting-plane systems",
   level_note="PbConstraint construction, addition, multiplication, division, saturation, weakening and contradiction test proved sound for all inputs; refutation search, Groebner, SOS and LP certificates checked by bounded executable contract.",
   assumptions=["i64::div_euclid and rem_euclid follow their documentation", "copying a coefficient map gives an equal map", "distinct variables in the literal list and no i64 overflow of a coefficient sum", "nonnegative coefficients for saturate and is_contradiction, as construction gives them"]),
 "C11": dict(level="exploration", harness="h_data", rule="history with at least two operations and a merge; distinct by history", technique="executable contracts: random histories and merge schedules against the value the received operations determine", level_note="bounded"),
 "C12": dict(level="proof", harness="h_data", units=[dict(file="wire.vrs", canary="", canary_params="")], rule="distinct by value or byte string", technique="Verus contracts on the varint and zig-zag codings, the stream frame header and the i64/bool/list message codings (decode inverts encode, every byte string terminates in range); executable contracts for the remaining layouts",
   level_note="Integer and length codings in all three crates, frame headers and i64/bool/list messages proved for every value and byte string; text, map, record and column layouts checked by bounded executable contract."),
 "C14": dict(level="proof", harness="h_system", units=[dict(file="poly1305.vrs", canary="", canary_params=""), dict(file="mldsa.vrs", canary="", canary_params="")], kani=[dict(file="crypto.krs")], rule="non-empty input; distinct by operands", technique="Verus contracts on Poly1305 (the tag is the polynomial of the standard modulo 2^130-5) and the ML-DSA Montgomery reduction; Kani full-domain contracts on the ML-KEM and ML-DSA coefficient arithmetic; executable contracts against other implementations and the definitions in the standards",
   level_note="Scalar Poly1305 proved for every key and message; modular reduction, rounding, hint and centred-binomial coefficient functions proved for all inputs in their range; the ciphers, hashes, transforms, AVX2 paths and whole schemes checked by bounded executable contract.",
   assumptions=["u32::from_le_bytes and copy_from_slice follow their documentation", "i64 wrapping product truncated to 32 bits as documented", "the AVX2 code paths are compared by bounded check only"]),
 "C15": dict(level="exploration", harness="h_system", rule="history with at least one mutation; distinct by history and fault", technique="executable contracts: journals with injected faults against the state the acknowledged operations determine", level_note="bounded"),
 "C16": dict(level="exploration", harness="h_system", rule="path that is not plain; distinct by path and operation", technique="executable contracts: every operation on adversarial paths, run as an unprivileged user over a scratch tree", level_note="bounded"),
 "C17": dict(level="proof", harness="h_runtime", units=[dict(file="sched.vrs", canary="", canary_params="")], rule="at least two tasks; distinct by scripts, policy and seed", technique="Verus contracts on the scheduler's channel, select, timer and choice functions (first in first out, nothing lost or duplicated, decisions a function of seed and trace); executable contracts: a reference scheduler model fed with the observed decisions",
   level_note="Seeded choice, trace recording and replay, pick_ready, send, try_send, receive, try_receive, close, select and timer firing proved for every scheduler state satisfying the invariant; advance_timers, abort, await, task completion and the work-stealing executor checked by bounded executable contract.",
   assumptions=["HashMap lookup, insertion and retain act on the stated key only", "task bodies, results and awaiters are opaque", "the running task is registered nowhere and the channel it names exists"]),
 "C18": dict(level="proof", harness="h_compile", units=[dict(file="fec.vrs", canary="", canary_params="")], rule="non-empty payload; distinct by payload, shape and loss pattern", technique="Verus contracts on the field operations and matrix inversion over a proved theory of GF(2^8); executable contracts against an independent field and reference decoding for the framing",
   level_note="Field tables, multiply, divide, power, Gauss-Jordan inversion, encode (each byte column a codeword) and decode (any k distinct intact shards give exactly the message, fewer give none) proved for all inputs; frame parsing and reassembly checked by bounded executable contract.",
   assumptions=["Vec::swap exchanges two elements", "usize::div_ceil rounds up", "message length + 256 fits usize"]),
 "C21": dict(level="exploration", harness="h_compile", rule="text with at least one line end or wide character; distinct by text and edit", technique="executable contracts against a reference text model", level_note="bounded"),
 "C20": dict(level="proof", harness="h_data", units=[dict(file="index.vrs", canary="", canary_params="")], rule="non-empty collection; distinct by collection and index", technique="Verus contracts on index resolution, checked list access and the open-addressing integer map (a map from keys to last written values); executable contracts against reference indexing",
   level_note="resolve_logos_index, get and set on lists and slices, and every LogosI64Map operation proved for all inputs; the other maps, text and range indexing checked by bounded executable contract.",
   assumptions=["get_unchecked inside bounds equals indexing (bounds proved)", "a freshly allocated table is all empty", "i64::unsigned_abs, next_power_of_two and mem::replace follow their documentation", "the refusal (panic) never returns"]),
 "C13": dict(level="proof", harness=["h_base", "h_base@avx2"], kani=[dict(file="word.krs")], rule="operands not both zero; distinct by operand bits and count", technique="Kani full-domain contracts on every word and lane operation of word.rs as compiled (all operands, all counts); executable contracts against 128-bit arithmetic on both code paths",
   level_note="Every Word8..64, WordVal and lane-vector operation proved for all operands and counts on the portable path; montmul32, the SHA-1 lane steps, the LanesVal dispatch and the AVX2/SSSE3/SHA code path checked by bounded executable contract.",
   assumptions=["the portable code path is the one Kani compiles; the intrinsic path is compared by bounded check only"]),
 "C24": dict(level="exploration", harness="h_proof", rule="at least one compound term; distinct by problem", technique="executable contracts against a reference unifier", level_note="bounded"),
 "C09": dict(level="exploration", harness="h_kernel", rule="goal with at least one atom; distinct by goal", technique="executable contracts: every verdict compared with evaluation over a grid of assignments", level_note="bounded"),
 "C10": dict(level="exploration", harness="h_kernel", rule="term accepted by the kernel; distinct by term", technique="executable contracts against an independent de Bruijn type checker, guard checker and positivity checker, and a corpus of attacks", level_note="bounded"),
 "C23": dict(level="proof", harness="h_kernel", units=[dict(file="egraph.vrs", canary="", canary_params="")], rule="at least two merges; distinct by history", technique="Verus contracts on UnionFind and EGraph: the reported classes are exactly the least congruence containing the merged pairs; executable contracts against naive closure on the public API",
   level_note="UnionFind and EGraph operations proved for every history.",
   assumptions=["derived Clone, Hash and Eq of ENode agree with structural equality"]),
 "C19": dict(level="exploration", harness="h_compile", units=[dict(file="interval.vrs", canary="", canary_params=""), dict(file="fastdiv.vrs", canary="", canary_params="")], rule="distinct by program text or operands", technique="Verus contracts on the optimiser's interval arithmetic (every concrete result lies in the computed interval) and on constant division by reciprocal; executable contracts: generated programs on every engine and tier against an exact interpreter",
   level_note="Interval and bound operations and the reciprocal division (generation, evaluation, recovery of the divisor) proved for all integers; the passes that use them, the other optimisations, the bytecode machine and the native tiers checked by bounded executable contract on generated programs.",
   assumptions=["i64 truncating division, remainder and unsigned_abs follow their documentation", "derived equality of Bound and Ordering is structural", "trailing_zeros and leading_zeros follow their documentation"]),
 "C22": dict(level="proof", harness="h_base", units=[dict(file="clock.vrs", canary="", canary_params="")], rule="distinct by clock history", technique="Verus contracts on Hlc, EstimateInterval and SyncClock (strictly later, never behind; merge is the pointwise meet, whose lattice laws are lemmas); executable contracts with reference model",
   level_note="Hlc::{tick,recv,after}, EstimateInterval and SyncClock operations proved for all states with physical time below i64::MAX.",
   assumptions=["derived Ord of Hlc is lexicographic", "cloning the knowledge map gives an equal map", "physical time below i64::MAX", "interval width does not overflow i64"]),
}
NA = {"C25": "No specification of what an English sentence means exists apart from the parser itself, so there is no contract a verifier could discharge: the property is about agreement with human readings."}
HOOKS = {"guard": "none", "enable": "none", "source_commits": []}
NOTES = "Every check extracts the functions under contract from /repo on each run (lib/vx.py), verifies them with Verus, and runs the executable contracts of the same property on the built crates."
