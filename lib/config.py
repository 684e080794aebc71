"""What each check runs."""
TRUSTED_COMMON = [
 "rustc/LLVM compile the source the verifiers read; Z3, CBMC, Verus and Kani are sound",
 "hooks in /repo under cfg(any(kani, sunscreen_verif)) expose private items and change no behaviour",
 "the extraction of verus/extract keeps the meaning of the code it rewrites (what it drops is listed per unit under verus_units.dropped)",
]
CHECKS = {}
V = "contract-based deductive verification: Verus contracts on functions extracted mechanically from /repo on every run"
def c(id, crate, level="exploration", **k):
    if k.get("verus"): level = "proof"; k.setdefault("technique", V + (", with Kani contracts for the parts named in the note" if k.get("kani") else ""))
    CHECKS[id] = dict(crate=crate, level=level, **k)
def both(*u): return [x + w for x in u for w in ("", ":u32")]
c("T01", "tfhe", verus=both("t01"), note="encode/decode and the round-trip theorem proved for u64 and u32 words, every plaintext width; contracts of the Torus operators proved in the same unit.")
c("T02", "tfhe", verus=both("t02"), note="round, digit extraction and the complete decompose loop proved for every word and every radix with radix_log*count <= BITS.")
c("T03", "tfhe", verus=both("t03"), note="The level-by-level polynomial decomposition proved, level after level and coefficient after coefficient, to give the digits of the scalar decomposition, for every degree and radix.")
c("T04", "tfhe", verus=both("t04"), trusted=["the inline-asm AVX-512 kernels behave as the contracts of the scalar kernels say (they run only where the CPU has the features; sampled natively when it does)", "AVX2 intrinsics behave as modelled lane by lane", "bytemuck slice casts are identities on the words"], note="Scalar and AVX2 kernels and the dispatching entry points proved to compute the scalar definition element by element for every length.")
c("T05", "tfhe", verus=both("t05"), trusted=["slice::rotate_left/rotate_right and power-of-two masks have the contracts stated in prelude poly"], note="Multiplication by a monomial, its negation variants and the rotation proved coefficient by coefficient for every power-of-two degree and every exponent.")
c("T06", "tfhe", verus=both("t06"), trusted=["the bytemuck casts between slices of words and of wrapping words are the identity", "the f64 scratch copy of the FFT variant is dropped"], note="Polynomial addition, subtraction, negation, scalar and schoolbook negacyclic multiplication proved coefficient by coefficient for every degree.")
c("T07", "tfhe", verus=both("t07"), note="LWE add/sub/scalar-mad/rotate proved element by element for every dimension, and the phase-linearity lemmas over those contracts.")
c("T08", "tfhe", verus=both("t08"), trusted=["component iterators of a GLWE ciphertext are modelled as slice + stride with a chunk accessor (their next/next_back/len are property T13)", "the repr(transparent) slice casts are the identity"], note="GLWE add/sub/negate/scalar-mad/plaintext-mad/mod-switch/rotation proved coefficient by coefficient for every dimension and degree.")
c("T09", "tfhe", verus=both("t09"), trusted=["component iterators of a GLWE ciphertext are modelled as slice + stride (their behaviour is property T13)", "the transparent slice casts (from_slice) are the identity"], note="sample_extract proved coefficient by coefficient, and the phase equation of the extracted ciphertext proved from it, for every dimension, degree and index.")
c("T10", "tfhe", verus=both("t10"))
c("T11", "tfhe", verus=both("t11"), trusted=["normal_torus/uniform_torus return some draw of their distribution (exactly 0 when the deviation is 0); the theorem is about every possible draw", "Polynomial::zero/new allocate the polynomial their arguments say", "component iterators of ciphertext and key are slice + stride (property T13)"], note="Encryption, trivial encryption and decryption proved for LWE and GLWE, every key, mask, noise draw, dimension and degree.")
c("T12", "tfhe", verus=["t12r", "t12:u32"], note="Every field operation, both reductions, exponentiation (u64 and u32 exponents) and the roots of unity proved against arithmetic modulo the prime; inverse proved to be the (p-2)nd power (primality of p, hence Fermat, is assumed).", trusted=["2^64-2^32+1 is prime (only for reading the (p-2)nd power as the inverse)", "refify_binary_op forwards (property M05)"])
c("T13", "tfhe", verus=["t13"], trusted=["raw pointer offset and slice::from_raw_parts_mut name the storage range their arguments say (every dereferenced range is proved to lie inside the storage)", "the repr(transparent) slice casts are the identity", "storage never exceeds isize::MAX elements (a Rust slice invariant)"], note="The dst_iter! iterators (shared, mutable over raw pointers, and both parallel producers), the size of every entity and every component accessor proved for all dimensions; a lemma over the contracts shows that any mix of next/next_back yields each component once.")
c("T14", "tfhe", verus=["t14"], trusted=["raw pointers made by Box::into_raw are fresh and, until Box::from_raw, name the allocation they were made from; distinct allocations occupy disjoint memory", "avec_rt! returns memory of the length and alignment asked for", "alignments are powers of two", "SIMD_ALIGN is 64 (asserted natively)", "LinkedList pop_back/push_back are a stack", "allocate_scratch reaches the one Scratch of its thread"], note="allocate, as_slice, as_mut_slice and the release on drop proved over a ghost heap: every buffer handed out owns a live allocation of its own, large enough and aligned, and no history of requests and releases makes two live buffers share memory.")
c("T15", "tfhe", verus=["t15"], note="get_linear_index proved equal to the row-major index, the index proved a bijection onto 0..n(n+1)/2 for every n, and TriangularPairs::next proved to yield the pairs in exactly that order.")
c("T16", "tfhe", verus=[f"t16{s}:{w}" for s in ("", "s") for w in ("u8", "u16", "u32", "u64", "u128", "usize")], note="Every instance of both macros proved for every dividend and divisor.")
c("T20", "tfhe", verus=both("t20"), trusted=["component iterators of the entities are modelled as slice + stride (their behaviour is property T13)", "the transparent slice casts are the identity", "scratch allocations name a region of the length their type asks for, with arbitrary content"], note="External product, glwe_ggsw_mad, the scheme switch and its components proved coefficient by coefficient against the gadget sums, for every dimension, degree and radix.")
c("T18", "tfhe", verus=both("t18"), trusted=["component iterators of the entities are modelled as slice + stride (their behaviour is property T13)", "the transparent slice casts are the identity", "scratch allocations name a region of the length their type asks for, with arbitrary content", "normal_torus/uniform_torus return some draw of their distribution"], note="LWE and GLWE key switching proved word by word equal to the defining gadget sum, for every dimension, degree, radix, key and prior output; key generation proved to hold the scaled key plus one noise draw in every entry; with noiseless rows the phase equation of the LWE switch is proved, with the rounding bound per mask element.")
c("T17", "tfhe", verus=both("t17"), trusted=["avec![zero; n] allocates n zeros", "an owned table dereferences to the table over its data", "the transparent slice casts are the identity", "scratch allocations name a region of the length their type asks for, with arbitrary content", "a map may return different values for the same message; the contract is about whichever it returned"], note="generate_lut, generate_bivariate_lut and the table constructors proved position by position for every function, every number of functions, every degree and message width; that every phase within half a step of a message meets its value is a lemma over those contracts.")
c("T19", "tfhe", verus=both("t19"), trusted=["component iterators of the entities are modelled as slice + stride (their behaviour is property T13)", "the transparent slice casts are the identity", "scratch allocations name a region of the length their type asks for, with arbitrary content", "normal_torus/uniform_torus/binary return some draw of their distribution"], note="GLev/GGSW encryption (secret, trivial, scalar), their decryptions and the round trip, RLWE public keys and public encryption, RLev and the GLWE key-switching key proved for every dimension, degree, radix and message: each component encrypts exactly the message scaled by its gadget factor.")
UINT = "crypto_bigint::Uint operations have the contracts of prelude uint (exact integer arithmetic modulo 2^(64N), constant-time selection and comparison)"
c("M01", "math", verus=["m01"], trusted=[UINT, "the derive macro's constants R, S, T equal their defining formulas (checked natively for 17 moduli of 1, 2 and 4 limbs)"], note="The inner correction step, the reduction and the product proved equal to the remainder for every modulus up to half the word range, every limb count and every input below the square of the modulus.")
c("M02", "math", verus=["m02"] + ["m02z:u" + b for b in ("8", "16", "32", "64", "128")], trusted=[UINT, "num-traits wrapping operations on machine words are arithmetic modulo 2^BITS", "refify_binary_op forwards (property M05)"], note="Every operation, conversion and the inverse of Zq proved against integers modulo the modulus for every modulus and limb count, ring laws as lemmas; ZInt proved for all five word sizes.")
c("M03", "math", verus=["m03"], trusted=["the coefficient type satisfies the laws of a commutative ring (for Zq and ZInt that is property M02)", "refify_binary_op forwards (property M05)"], note="Every operation of Polynomial proved over an arbitrary commutative ring, for every pair of lengths; that evaluation is a homomorphism and that division is consistent are lemmas over those contracts.")
c("M04", "math", verus=["m04"], note="Counting, ranking, unranking, stepping and insertion proved for every n and t whose counts fit in a word; that the enumeration is complete, ordered and free of duplicates follows from rank and unrank being inverse bijections.")
c("M05", "math", verus=["m05"], trusted=["the attribute macro treats every carrier type as it treats the three it is expanded for (plain, generic with bounds, mixed operand types)"], note="The impls the macro generates, as rustc expands them on this run, proved to return what the user's implementation returns for the same operands in the same order, for any (non-commutative) operation.")
c("C01", "conc", verus=["c01"], trusted=["std atomics are linearizable per location and acquire/release pairs order memory", "a guard's destructor runs exactly once and only for a guard that was granted", "std fetch_update retries until its read and write form one step"], note="Each of borrow, borrow_mut and the two releases proved to take exactly one state-changing atomic step of the required form and ordering (a refused request takes none); an invariant over every interleaving of such steps gives the exclusion.")
c("C02", "conc", verus=["c02"], trusted=["std atomics are linearizable per location and acquire/release pairs order memory", "a guard's destructor runs exactly once", "mem::forget runs no destructor"], note="Each of lock, try_lock, release and keep_locked proved to take exactly the atomic step of the required form and ordering; an invariant over every interleaving of such steps gives mutual exclusion and release. lock() is proved to return only with the lock (termination of the spin is not claimed).")
BDD = ["biodivine_lib_bdd's operations are the Boolean operations they are named for, and a variable is the function that returns its input", "MuxCircuit::from and optimize give a circuit whose outputs are the functions of the diagrams (the circuits are evaluated gate by gate natively, sampled)"]
SH = " The crate is built from a mirror of /repo with an empty file where the repository misses a data file."
c("X01", "mux", verus=["x01"], trusted=BDD, note="The diagrams of the ripple-carry adder, the subtractor and the negator proved to be the sum, difference and negation modulo two to the width, with exact carry and borrow, for every width and every assignment." + SH)
c("X02", "mux", verus=["x02"], trusted=BDD, note="The diagrams of equality, inequality and signed and unsigned order proved to be the comparisons they are named for, for every width and every assignment." + SH)
c("X03", "mux", verus=["x03"], trusted=BDD, note="The diagrams of the shifter (logical, arithmetic, rotation, both directions) and of the bitwise circuits proved against machine semantics for every width, shift width and assignment." + SH)
c("X04", "mux", verus=["x04"], counts={"x04_partition": 1}, trusted=BDD + ["remap_inputs rewires inputs as its documentation says (evaluated natively, sampled)", "the three precomputed multiplication circuits that are files are data (8x8, 16x16 and the 64x64 reduction are evaluated natively, sampled)"], note="Bit conversion and subtraction with borrow proved for every value and width; the input interleaving (encode and decode) and the multiplication circuit proved to compute the product for every width and every operand; the partial-product reduction circuit is only sampled natively, gate by gate." + SH)
GUEST = ["a Mutex is a cell (one thread at a time; the lock is never taken twice by one operation)", "Byte::clone gives a byte with the same content", "vec![x; n], from_le_bytes and to_le_bytes are what their names say"]
c("P01", "cpu", verus=["p01"], trusted=["u32::next_power_of_two and ilog2 on the number of registers are what their names say", "PhantomData has one value", "rustc's expansion of define_op! is the code it compiles (identifiers renamed by their macro context, as the compiler tells them apart)"], note="The encoder, the decoder, the opcode table and the width and offset conversions that define_op! generates are proved equal to an independent table of machine words for every instruction, operand and 64-bit word; that an instruction comes back from its word and no two share one are lemmas over those contracts, and the decoder is proved never to panic." + SH)
c("P02", "cpu", verus=["p02", "p02m"], trusted=GUEST + ["a register guard gives the register it names and retire is called with the result it is given; encrypted bits are opaque shared handles that are moved around", "a value's to_bytes, size and alignment agree (property P03)", "the symbol table is dropped (it takes no part in loads, stores or allocation)"], note="Paging, load, store, allocation (pages, page ranges, sub-allocation), the stack pointer and typed reads and writes proved byte by byte for every address, length and history: what a store changes, what every failure leaves unchanged, which pages an allocation takes. The load and store instructions move exactly the bytes of a register, plaintext or encrypted, report misaligned, unmapped and mixed accesses and then change nothing. That the last store wins and that allocations never overlap are programs verified against those contracts." + SH)
c("P03", "cpu", verus=["p03", "p03b", "p03c"], trusted=GUEST + ["to_le_bytes, from_le_bytes, size_of and align_of are what the language says they are", "encrypted bits are opaque shared handles that are moved around", "chunks, flatten and collecting into an array give the elements they say, in order", "renaming a register gives the entry it names"], note="Every supported argument and return type (the ten primitive integers, bool and void, guest pointers, plaintext and encrypted fixed-width and dynamic integers, arrays of these) proved to come back from its bytes as it was, for every value, width and array length; the argument builder, the layout arithmetic and the call set-up proved to put every argument at its own aligned address above the stack pointer, with the return slot below no other, to change no other guest byte, and to read the return value back from exactly the slot that was reserved." + SH)
REGS = ["a register guard gives the register it names and a destination is not an operand (the reorder buffer renames it)", "retire is called with the result it is given", "branches for encrypted operands are dropped, each proved unreachable for plaintext operands", "wrapping and overflowing operations of u128 are arithmetic modulo 2^128"]
c("P04", "cpu", verus=["p04", "p04d"], trusted=REGS, note="Every arithmetic, logic, shift, rotate, comparison, cast, move, select and immediate instruction proved on plaintext registers to put the word-modular result of its width in its destination and to retire exactly once, or to report a width error and change nothing, for all values, widths 1 to 128 and shift amounts; the dispatcher is proved to send each instruction to its operation with its operands in order, and the next program counter to be what the branch says." + SH)
c("R01", "cpu", verus=["r01"], counts={"r01_listed_widths": 1, "r01_unsigned": 30, "r01_signed": 30}, trusted=["petgraph's StableGraph is the list of its nodes and edges", "FheCircuit::insert_mux_circuit computes the circuit on the given nodes (sampled)", "the multiplier, adder, negator and reduction circuits compute what X01 and X04 say", "what each operation of a graph computes of its operands is what its documentation says (evaluated through the runtime it is property R10)"], note="Converting between ciphertext types proved for every pair of types and every graph: the result has the requested type and the value of what was converted, the nodes already there are untouched, every new node has operands of the types it needs, and the new equations always have a solution. The multiplications are proved too, for every width and every graph: the recursive unsigned product (each of its three cases, the swap of operands, the conversions in between), negation, absolute value, the sign selection, and the split into low and high halves; what they take from the circuits (the 16-bit multiplier, adder, negator, grade-school reduction) is those circuits' contract, checked by X01 and X04. The copying of a circuit into the graph is an assumed contract; it and pruning are evaluated node by node on the built graphs (sampled, not counted as proved).")
NA = {}
NA.update({
 "T30": "The failure probability of bootstrapping is a statement about the distribution of Gaussian noise through an f64 Fourier transform; the verifiers here have neither probability nor usable floating-point reasoning. Its exact parts are claimed separately (T05, T09, T10, T17, T18, T20).",
 "T31": "A bound on accumulated f64 rounding error through an FFT; Verus treats floats as opaque and CBMC's bit-blasted f64 does not finish beyond a handful of operations. The exact products it approximates are T06.",
 "T32": "Statistical property of the output of an external random generator; not expressible as a contract on one call.",
 "X05": "The optimiser and the BDD conversion walk pointer graphs of third-party types (petgraph, biodivine_lib_bdd) that the verifier's front end does not accept; the circuits they produce are evaluated gate by gate in X01-X04's sampled layer only.",
 "P10": "Tokio/rayon tasks with shared interior-mutable registers: whole-program schedules, outside function-by-function contracts for sequential Rust.",
 "R10": "Concerns encrypted execution through the FFT and a rayon task graph with noise: no contract within reach decides decryption of the result.",
 "M10": "Floating-point polynomial fits to tabulated lattice-attack estimates; the true attack cost is not available to a contract.",
})
