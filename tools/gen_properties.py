#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

R = "src/rand/"
B = "src/bigint/"
p("C01", "Seeded generators emit their documented streams, isolated from each other",
  "After seeding, the n-th word of a linear congruential, Mersenne Twister or subtract-with-carry generator (any supported word type, any accepted parameters, and the named presets minstd, mt19937, mt19937_64, ranlux24/48) is exactly the n-th term of the documented recurrence for that seed. This holds however calls to the generator and to short-lived iterators over it are interleaved with calls on other live generators, and a cloned generator continues as an independent checkpoint of the original's position.",
  ["schedules", "histories", "inputs"], "all interleavings of draw / iterate / clone / drop / reseed over any number of live generators, all seeds and all accepted parameter sets",
  "The suite has no test of the rand module at all; the examples only print a few words. State wrap-around (index reset after 624/312/r words), lazily initialised state and clone points are only reached by long mixed histories.",
  [R+"linear_congruential_rand.rs", R+"mersenne_twister_rand.rs", R+"lagged_fibonacci_rand.rs", R+"iter.rs", R+"mod.rs"],
  [("recurrence and lazy state initialisation", "gen/check_init/gen_rand in the three engine files"), ("derived Clone of engine state", R)],
  [("engine state", "lag table, index, carry, pending seed", R+"*_rand.rs")],
  ["Source::gen", "IterSource::iter_mut", "Clone::clone"])
p("C02", "Reseeding is atomic: a new seed restarts exactly, a failed seed changes nothing",
  "Resetting a generator with a seed, at any point of its life, makes its future output identical to that of a freshly built generator with the same parameters and seed; if the seed source reports an error, construction and reset return that same error and an existing generator continues its old stream as if reset had not been called. Parameters outside the documented ranges are refused with an error instead of a generator or a panic, and each construction or reset takes exactly one value from the seed source.",
  ["histories", "fault_sequences"], "all placements of successful and failing reseeds in any generator history, all seed-source failure sequences",
  "No test constructs a generator, none supplies a failing Seed; the atomicity only shows when a failure lands between two draws with state half way through a block.",
  [R+"linear_congruential_rand.rs", R+"mersenne_twister_rand.rs", R+"lagged_fibonacci_rand.rs", R+"mod.rs"],
  [("seed().map(..) before touching state", "reset/new of each engine"), ("parameter validation", "new of each engine")],
  [("pending seed", "Err(seed) until the table is built", R+"mersenne_twister_rand.rs, lagged_fibonacci_rand.rs")],
  ["Seed::seed", "Source::reset", "constructors"])
p("C03", "Random iterators are fail-stop and deliver every word exactly once",
  "An iterator over a random source yields the source's words in order, each exactly once and only on demand; when the source fails it yields nothing more and does not touch the source again until the error is cleared, exposing that very error meanwhile. After the error is cleared, or the iterator is dropped and a new one taken, iteration resumes with the next word of the source, none lost or repeated.",
  ["fault_sequences", "histories"], "all sequences of source successes and failures interleaved with next / last_error / clear_error / drop / re-create",
  "The suite never iterates over a source that fails.",
  [R+"iter.rs", R+"mod.rs", R+"rand_error.rs"],
  [("last_err latch", R+"iter.rs Iter::next")], [("last_err", "latched error", R+"iter.rs")],
  ["Iter::next", "Iter::last_error", "Iter::clear_error"])
p("C04", "Random integers stay in range and are unaffected by entropy failures",
  "Drawing a random integer below a bound returns a well-formed value in the documented interval ([0,n) for n>0, (n,0] for negative n, not-a-number for 0 and not-a-number), every value of the interval being equally likely when the source is uniform. The result depends only on the words the source delivered: any failures in between leave it unchanged, lose no word, disturb neither bound nor other values, and once failures stop the call completes after a bounded number of further draws.",
  ["fault_sequences", "inputs"], "all bounds, all word streams and all failure bursts of the source",
  "The tests never call random(); results with zero high words and failures inside a multi-word draw need particular streams.",
  [B+"nat.rs", B+"bigint.rs", R+"iter.rs"],
  [("rejection sampling loop with clear_error retry", B+"nat.rs random_inner"), ("sign handling", B+"bigint.rs random")],
  [("partially drawn words", "limbs pushed so far", B+"nat.rs random_inner")], ["Nat::random", "BigInt::random"])
p("C05", "Prime generation yields a prime of the exact size under any entropy faults",
  "Generating a prime of b>=2 bits returns a number of exactly b bits whose two top bits are set, for any stream of words and any pattern of source failures, without panicking, and an error for b<2; the number is prime when the source is uniform and at least 16 rounds are asked for, and in every other case at least a prime or an odd Lucas pseudoprime. The result depends only on the delivered words, and once failures stop the call completes after a bounded number of further draws.",
  ["fault_sequences", "inputs"], "all bit lengths, round counts, word streams and failure patterns, including failures on the first word of a candidate",
  "Only one fault-free call with hardware randomness is made by the benches; a failure in the middle of a candidate is never injected.",
  [B+"nat.rs"], [("candidate construction, trial division and primality test loop", B+"nat.rs generate_prime")],
  [("candidate", "limbs drawn so far", B+"nat.rs generate_prime")], ["Nat::generate_prime"])
p("C06", "Primality verdicts do not depend on luck or entropy failures",
  "A prime is always reported prime, whatever words the source delivers, however it fails and however many rounds are asked for. A composite is reported composite whenever it fails the Lucas test, for any words and rounds, and every composite is reported composite when at least 16 rounds are drawn from a uniform source; small numbers, even numbers, 0, 1 and not-a-number are decided without error.",
  ["fault_sequences", "inputs"], "all candidates, all word streams (including adversarial ones such as all-zero words) and failure patterns",
  "The tests use hardware randomness and a fixed list; the bad bases (0, multiples of n, n-1) have negligible probability there and shift counts beyond one word are not present in the list.",
  [B+"nat.rs", B+"bigint.rs"], [("Miller-Rabin bases and witness loop", B+"nat.rs prime_validate_by_miller_rabin"), ("Lucas test", B+"nat.rs prime_validate_by_lucas")],
  [], ["Nat::probably_prime_test"])
p("C07", "Value operations never disturb their operands, however storage is shared",
  "An operation that returns a new number (arithmetic, shifts, bit operations, powers, gcd, square root, conversion, comparison, formatting) on natural numbers, integers, rationals or floats leaves every other live handle reading exactly what it read before, also when operands share storage with each other or with third parties. Its result equals the result on independent copies of the operands and, for naturals, integers and rationals, the exact mathematical value (naturals and integers in canonical form), and later in-place changes to the result or the operands do not reach each other.",
  ["histories", "schedules", "programs"], "all sharing graphs (clone vs deep copy) and all interleavings of operations issued by several owners of the shared numbers",
  "Tests use each value once with literal operands; sharing between operands, results and bystanders needs multi-step histories with several owners.",
  [B+"nat.rs", B+"bigint.rs", B+"rat.rs", B+"float.rs", B+"nat_macro.rs", B+"bigint_macro.rs", B+"nat_avx2.rs", B+"nat_amd64.rs"],
  [("deep copy of the left operand before the in-place kernel", B+"nat_macro.rs, bigint_macro.rs, float.rs, rat.rs")],
  [("shared limb vector", "Rc<Cell<Vec<u32>>> aliased by clones", B+"nat.rs struct Nat")], ["operators", "deep_clone", "clone"])
p("C08", "In-place operations reach exactly the sharing handles with the exact result",
  "An in-place operation on a natural number or integer changes the value seen through every handle that shares its storage (clones, and the magnitude handle of an integer) and through no other handle; deep copies are unaffected. Any history of in-place operations, including ones whose right operand shares storage with the left, leaves each handle reading the exact mathematical value that the same history gives on ordinary unshared variables; a rational that is changed in place holds the exact value, and for rationals and floats a self-operand gives the same value as an independent copy of it.",
  ["histories", "schedules", "programs"], "all interleavings of in-place operations by several owners over all sharing graphs, including self-aliased operands",
  "Tests assign once and compare with a literal; a self-aliased right operand or a shared handle going through a carry, borrow, trim or NaN transition is not exercised.",
  [B+"nat.rs", B+"bigint.rs", B+"rat.rs", B+"float.rs", B+"nat_avx2.rs", B+"nat_amd64.rs", B+"nat_generic.rs"],
  [("in-place kernels on the shared limb vector", B+"nat_amd64.rs, nat_avx2.rs, nat.rs *_inner"), ("alias detection before kernels", B+"nat.rs div/rem/pow paths")],
  [("shared limb vector", "Rc<Cell<Vec<u32>>> aliased by clones", B+"nat.rs struct Nat"), ("sign", "per-handle sign of an integer", B+"bigint.rs struct BigInt")],
  ["op-assign operators", "clone", "deep_clone", "AsRef"])
p("C09", "A caught panic leaves every live number and generator intact",
  "When an operation is abandoned by a panic (division by zero, a random source, seed source or output sink supplied by the caller that panics part way), every number and generator that existed before reads exactly as before the call, except that a source may have advanced by the words it delivered. All of them remain usable: later operations give the same results as in a history in which the abandoned call had never been made.",
  ["crash_points", "histories", "fault_sequences"], "all points at which a caller-supplied source or sink can panic inside every consumer, and every documented panicking operation, at any place in a history",
  "No test catches a panic and goes on using the operands.",
  [B+"nat.rs", B+"bigint.rs", B+"rat.rs", B+"float.rs", B+"nat_macro.rs", R+"mod.rs"],
  [("panic raised before the shared storage is modified", "div/rem kernels and random/prime loops in "+B+"nat.rs")],
  [("shared limb vector", "must not be left half written", B+"nat.rs")], ["catch_unwind around public calls"])
p("C10", "Formatting to a failing sink reports the error and only ever writes a prefix",
  "Formatting a number (decimal, hex, octal, binary, scientific, debug) into a sink that fails, writes short or is interrupted at any byte returns the error instead of panicking or reporting success, and what reached the sink is a prefix of the text produced for a healthy sink. The number itself is unchanged, and formatting it again afterwards yields the complete text.",
  ["fault_sequences", "crash_points", "inputs"], "all values, formats and sink failure points (every byte offset), short writes, interruptions",
  "Tests only format into Strings, which cannot fail.",
  [B+"nat.rs", B+"nat_macro.rs", B+"bigint_macro.rs", B+"rat.rs", B+"float_fmt.rs", B+"decimal.rs"],
  [("propagation of write! results", "fmt impls")], [], ["core::fmt::Write", "std::io::Write"])
p("C11", "Kernel entropy bytes are delivered exactly once, in order, under short reads",
  "In the portable configuration each cryptographic random word is made of the next bytes the kernel returned to that generator, in order, none dropped, repeated or invented, across short reads, failed system calls and interruptions; a word is refused with an error only if the kernel did not deliver enough bytes. A cloned generator never replays bytes its original holds, and once the kernel delivers again every request succeeds.",
  ["fault_sequences", "histories"], "all sequences of full, short and failed getrandom results over any number of interleaved generators and clones",
  "The code is not even compiled in the tested x86 configuration, and the real kernel never returns short for such small requests.",
  ["src/os/linux/mod.rs", R+"crypto_rand.rs"],
  [("leftover queue", "src/os/linux/mod.rs BCrypt::gen_random")], [("buf", "bytes received but not yet delivered", "src/os/linux/mod.rs")],
  ["CryptoRand::gen", "syscall(SYS_getrandom)"], "cfg rmath_portable selects the non-x86 modules; the syscall is interposed at link time")
p("C12", "Hardware entropy failures are reported, never papered over",
  "A word from the hardware generator or seed source is exactly a value the processor reported as valid during that call, each such value being used at most once and in order; when the processor reports that none is available the call returns the matching error (no-new-number for generators, no-new-seed for the seed source) instead of a stale, zero or partial value. Failures leave nothing behind: the next valid value is delivered normally, and constructing or reseeding these generators never fails or consumes hardware words.",
  ["fault_sequences", "histories"], "all sequences of success/failure of the rdrand and rdseed steps, any interleaving of generators, seeds and word types",
  "rdrand/rdseed underflow cannot be provoked in a unit test; the carry-flag path never runs.",
  [R+"default_rand_amd64.rs", R+"default_seed_amd64.rs", R+"crypto_rand_amd64.rs"],
  [("carry flag check", "gen_u32/gen_u64/rdseed_u32/rdseed_u64")], [],
  ["DefaultRand", "DefaultSeed", "CryptoRand"], "cfg rmath_sim routes the two intrinsics through a simulated processor")
p("C13", "Clock-derived seeds are total and depend only on the clock readings",
  "In the portable configuration the clock-based seed source and generator return a value for every clock reading, including times before the epoch, backward jumps and a frozen clock, and identical readings give identical values while any change of the wall-clock reading changes a 64-bit seed and the 64-bit word drawn at it. The generator's output is a function of its seed and the readings only: equal seeds and readings give equal streams, different seeds never give the same word at the same position, a reset equals fresh construction with that seed and a failed reset changes nothing.",
  ["fault_sequences", "histories"], "all sequences of wall-clock and monotonic readings (skew, jumps, stalls) and generator histories",
  "The code is not compiled in the tested configuration and tests cannot steer the clock.",
  [R+"default_seed.rs", R+"default_rand.rs"], [("hash of both clocks", R+"default_seed.rs time_hash")], [("state", "running xor", R+"default_rand.rs")],
  ["DefaultSeed::seed", "DefaultRand::gen"], "cfg rmath_portable selects the non-x86 modules; clock_gettime is interposed at link time")
p("C14", "Results never depend on what the heap holds, and no write leaves its buffer",
  "Every operation on naturals, integers, rationals and floats, and every generator, computes the same result whatever garbage fresh memory contains, wherever blocks are placed, whether growing a block moves it and whatever happens to freed memory. No operation writes outside the memory it owns or into memory it has released.",
  ["configurations", "histories", "inputs"], "all initial heap contents, block placements and reallocation decisions, for all operation histories and operand sizes including the recursive multiplication paths",
  "Tests run on one allocator whose fresh memory is mostly zero; raw-pointer kernels that read or write one word too far pass unnoticed.",
  [B+"nat.rs", B+"nat_avx2.rs", B+"arith_generic.rs", B+"float.rs"], [("raw pointer kernels with explicit lengths", B+"nat.rs karatsuba/basic_mul/basic_sqr, "+B+"nat_avx2.rs")],
  [("scratch buffers", "sizes computed by hand", B+"nat.rs")], ["global allocator"])
p("C15", "Memory is given back whatever a history met on the way",
  "Once every number, generator and iterator of a history has been dropped, the process holds no more memory than before it, however often the history is repeated. This includes histories in which calls were abandoned by a caught panic, refused by a failing random source, seed source or sink, retried after errors or ended early.",
  ["histories", "fault_sequences", "crash_points"], "all operation histories with failures and panics of sources, seed sources and sinks at any point, repeated any number of times",
  "Tests drop everything at process exit and never count; a loss on an error or unwinding path shows only after the fault, in a long-running process.",
  [B+"nat.rs", B+"bigint.rs", B+"rat.rs", B+"float.rs", R+"iter.rs", R+"rand_error.rs"],
  [("shared limb vector owned by Rc, scratch space owned by Vec", B+"nat.rs"), ("errors owned by the iterator until cleared", R+"iter.rs")],
  [("live heap blocks", "what the library has allocated and not released", "global allocator")], ["drop", "catch_unwind", "global allocator"])
p("C16", "Every configuration computes the same",
  "The same history of operations on naturals, integers, rationals and floats, fed the same words and failures by the caller's sources and sinks, gives the same values, texts, verdicts, errors and panics in the configuration with the x86 kernels and in the portable configuration.",
  ["configurations", "histories", "inputs"], "all operation histories and operand values and sizes, in each of the two sets of kernels",
  "The tests are only ever compiled for one configuration and compare with literals, so a kernel that exists twice may differ in any value they do not list.",
  [B+"nat_avx2.rs", B+"nat_amd64.rs", B+"nat_generic.rs", B+"nat.rs", B+"mod.rs"],
  [("two sets of kernels selected by cfg", B+"mod.rs")], [], ["all public operations of Nat, BigInt, Rat, Float"], "cfg rmath_portable selects the non-x86 modules")
p("C17", "Owners on other threads and calls nested in callbacks do not affect each other",
  "Numbers and generators of different owners influence each other in no way. A history of operations on an owner's own numbers and generators gives the same values, texts, errors and panics whether it runs alone, is interleaved at any point with histories of other owners on other threads, or is called from inside another call's random source, seed source, reader or sink; and neither the call in progress nor any bystander notices it.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of owners' histories on any number of threads, and all calls nested in the callbacks of other calls",
  "Tests run each call alone and to its end; state shared behind the interface shows only when another call starts at one particular point inside the first.",
  [B+"nat.rs", B+"nat_macro.rs", B+"bigint.rs", B+"float.rs", B+"rat.rs", R], [("no hidden state: every call works on its operands, its locals and freshly allocated memory", B+"nat.rs"), ("callbacks into the caller's RngSource, SeedSource and fmt::Write", B+"nat.rs")],
  [("statics and thread-locals", "none today outside the guarded simulated processor", "src")], ["threads", "IterSource::next", "SeedSource", "fmt::Write", "io::Read"])
# ---- properties this technique does not decide
def na(id, title, statement, files, mech):
    p(id, title, statement, ["inputs"], "all operand values", "Tests sample a few dozen literals; the input space is unbounded.", files, [mech])
na("C20", "Number-theoretic functions are exact", "gcd with Bezout coefficients, modular inverse, linear congruences, Jacobi symbol, modular square roots, modular exponentiation, binomials and range products return the mathematically defined value for every argument, or the documented absence of one.", [B+"bigint.rs", B+"nat.rs"], ("pure algorithms", B+"bigint.rs"))
na("C21", "Text and byte conversions round-trip", "Parsing the text or bytes produced from a number gives back the same number in every supported base and byte order, malformed text is refused with an error and never panics.", [B+"nat.rs", B+"bigint.rs", B+"rat.rs", B+"float_fmt.rs"], ("parsers and formatters", B))
na("C22", "Rationals are canonical and form a field", "Every rational is kept in lowest terms with positive denominator and obeys the field laws; conversion to machine floats is correctly rounded with a truthful exactness flag.", [B+"rat.rs"], ("norm after each operation", B+"rat.rs"))
na("C23", "Float operations round correctly", "Each float operation returns the exact result rounded to the operand precision in the selected mode and reports the direction of the error.", [B+"float.rs", B+"decimal.rs"], ("round", B+"float.rs"))
na("C24", "Ordering and equality agree with mathematical order", "Comparison between numbers, and between numbers and machine integers, is the mathematical order; not-a-number compares equal to nothing.", [B+"nat.rs", B+"bigint.rs", B+"rat.rs", B+"float.rs"], ("PartialOrd/PartialEq impls", B))
na("C25", "Generator streams are statistically sound", "The streams of the generators are equidistributed and uncorrelated to the degree claimed for the algorithms.", [R], ("choice of published parameters", R))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
