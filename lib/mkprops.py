#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "sunscreen_tfhe/src/"
p("T01", "Message encoding on the torus survives any error below half a step",
  "For every message width that fits the word and every message of that width, encoding a message on the torus and decoding it again returns the message. Decoding still returns the message when any error strictly smaller in magnitude than half an encoding step is added, also across the wrap-around at the top of the word. The same holds coefficient by coefficient for polynomials and for 32-bit and 64-bit words.",
  "all message widths 1..=bits-1, all messages of the width, all errors in (-q/2^(w+1), q/2^(w+1)), both word sizes",
  "The tests round-trip a few widths and samples with no error or Gaussian error; the claim quantifies over 2^64 words and every width, and the boundary is at exact half steps.",
  [T+"math/torus.rs", T+"entities/polynomial.rs"],
  [("encode: shift the message to the top bits", "Torus::encode"), ("decode: round to nearest with carry, then mask", "Torus::decode"), ("polynomial encode/decode", "PolynomialRef::encode/decode")],
  observe=["decoded message"])
p("T02", "Gadget decomposition yields bounded digits that recompose to the value",
  "Decomposing a torus element with radix 2^l and k digits yields exactly k digits, each between minus half the radix and half the radix. Their weighted sum with the gadget factors differs from the element, modulo the word, by at most half of the smallest gadget factor.",
  "all torus elements, all (l, k) with l*k within the word, both word sizes",
  "Tests use a few radices with random elements; carries between digits and the rounding at the bottom digit are reached only by specific bit patterns.",
  [T+"math/radix.rs"],
  [("rounding of the state to the top l*k bits", "ScalarRadixIterator::new / Torus rounding"), ("balanced digit and carry extraction", "ScalarRadixIterator::next"), ("recomposition", "math::radix recompose")],
  observe=["digit sequence"])
p("T03", "Polynomial gadget decomposition is the scalar one, coefficient by coefficient",
  "Decomposing a polynomial yields in each round the polynomial whose every coefficient is the digit that scalar decomposition of that coefficient yields in the same round, and exactly as many rounds as the decomposition has digits. Recomposing those digits gives back each coefficient up to half of the smallest gadget factor.",
  "all polynomials of all sizes, all decomposition parameters",
  "Tests check a handful of random polynomials at one or two parameter sets.",
  [T+"math/radix.rs"],
  [("per-coefficient state", "PolynomialRadixIterator"), ("digit scaling", "scale_by_decomposition_factor / recompose_and_add")],
  state=[("iterator state", "rounded remaining coefficients plus current round", T+"math/radix.rs")], observe=["digit polynomials"], hook="scratch allocation without thread-local storage for the verifier")
p("T04", "Vector kernels equal exact word arithmetic for every length and CPU path",
  "Elementwise vector addition, subtraction, negation, scaled accumulation and rounding shifts give, in each element, exactly the word-modular result of the corresponding scalar operation, for every vector length including ones that do not fill a SIMD register. The result does not depend on which CPU-specific code path is chosen, and no other memory changes.",
  "all vectors of all lengths, all element values, every dispatch path available",
  "Tests run only the path of the host CPU, with a few lengths and in the overflow-wrapping build profile.",
  [T+"math/simd/mod.rs", T+"math/simd/scalar.rs", T+"math/simd/x86_64/mod.rs", T+"math/simd/x86_64/avx2.rs", T+"math/simd/generic/mod.rs"],
  [("runtime dispatch", "math/simd/x86_64/mod.rs avx2_available/fma_available"), ("AVX2 kernels with scalar tail", "math/simd/x86_64/avx2.rs"), ("scalar kernels", "math/simd/scalar.rs")], over=("inputs","configurations"), observe=["output vector"])
p("T05", "Monomial multiplication is the signed rotation of coefficients",
  "Multiplying a polynomial by X^d modulo X^N+1 moves the coefficient at position i to position (i+d) mod N and negates it exactly when (i+d) div N is odd. This holds for every power d, however much larger than N, and for the signed-power form with negative powers.",
  "all polynomials, all sizes N, all powers d of the machine word",
  "Tests use a few degrees on small examples; sign and wrap interplay depend on d mod 2N.",
  [T+"entities/polynomial.rs", T+"ops/polynomial/mod.rs"],
  [("rotate and negate wrapped part", "PolynomialRef::mul_by_positive_monomial_negacyclic"), ("negative powers", "PolynomialRef::mul_by_monomial_negacyclic")], observe=["rotated polynomial"])
p("T06", "Polynomial products are exact negacyclic convolutions",
  "Schoolbook polynomial multiplication, and its multiply-accumulate form, compute the exact product modulo X^N+1 and modulo the word, leaving earlier accumulator contents included in the sum. Applying the substitution X to X^k moves the coefficient at position i to position i*k mod N with the sign of (i*k) div N.",
  "all polynomial operands, all sizes, all accumulators, all odd k",
  "Tests compare against small literals; sign handling depends on each index pair.",
  [T+"ops/polynomial/mod.rs", T+"math/polynomial.rs", T+"entities/polynomial.rs", T+"ops/automorphisms/mod.rs"],
  [("schoolbook loop with wrap sign", "math/polynomial.rs polynomial_external_mad"), ("substitution", "ops/polynomial polynomial_pow_k")], observe=["output polynomial"], hook="scratch allocation without thread-local storage for the verifier")
p("T07", "LWE ciphertext operations are linear on every component",
  "Adding, subtracting, negating, scaling and rotating LWE ciphertexts act on every mask element and on the body as the same word-modular linear map, so the phase under any key is transformed by that map. Operators on owned values give the same result as the in-place forms, and operands are not modified.",
  "all ciphertext contents, all LWE dimensions, all keys, all scalars",
  "Tests decrypt a few sums with one key; a dropped or misplaced mask element is hidden when the key bit is 0.",
  [T+"ops/ciphertext/lwe_ciphertext_ops.rs", T+"entities/lwe_ciphertext.rs"],
  [("in-place addition", "add_lwe_inplace"), ("subtraction", "sub_lwe_ciphertexts"), ("scaled accumulation", "scalar_mul_ciphertext_mad"), ("operators", "LweCiphertext Add/Sub/Neg impls"), ("mask/body split", "LweCiphertextRef::a_b")], observe=["ciphertext words", "phase"], hook="access to the crate-private subtraction and scaling functions")
p("T08", "GLWE ciphertext operations are linear on every polynomial",
  "Adding, subtracting, negating, scaling, rotating and multiplying GLWE ciphertexts by plaintext polynomials act on every mask polynomial and on the body polynomial as the same linear map modulo X^N+1 and the word. Accumulating forms add to what the output held; non-accumulating forms overwrite it whatever it held.",
  "all ciphertext contents, all GLWE sizes and polynomial degrees, all scalars and plaintext polynomials, all prior output contents",
  "Tests decrypt a few results with one mask polynomial and fresh outputs.",
  [T+"ops/ciphertext/glwe_ciphertext_ops.rs", T+"ops/bootstrapping/blind_rotation.rs", T+"entities/glwe_ciphertext.rs"],
  [("linear operations", "ops/ciphertext/glwe_ciphertext_ops.rs add/sub/negate/mad/rotate"), ("component split", "GlweCiphertextRef::a_b")], observe=["ciphertext words"], hook="scratch allocation without thread-local storage for the verifier")
p("T09", "Extracted LWE samples carry exactly the chosen coefficient",
  "Extracting position h of a GLWE ciphertext yields an LWE ciphertext whose phase, under the LWE key that lists the GLWE key's coefficients, equals coefficient h of the GLWE phase, modulo the word. This holds for every position, every key and every ciphertext.",
  "all GLWE ciphertexts, all keys, all positions h < N, all sizes and degrees",
  "Tests extract a few positions of fresh encryptions and accept any result within the noise margin.",
  [T+"ops/ciphertext/glwe_ciphertext_ops.rs", T+"entities/glwe_secret_key.rs"],
  [("coefficient reversal and negation", "sample_extract"), ("key reinterpretation", "GlweSecretKeyRef::to_lwe_secret_key")], observe=["LWE phase"])
p("T10", "Modulus switching rounds every component to the nearest grid point",
  "Switching an LWE or GLWE ciphertext to a power-of-two modulus maps each word to the nearest multiple of the step, so no component moves by more than half a step modulo the word. The result is expressed in the smaller modulus exactly as the caller's parameters say.",
  "all words, all target moduli up to the word size",
  "Tests check a few moduli through noisy end-to-end bootstraps only.",
  [T+"ops/homomorphisms/mod.rs", T+"ops/ciphertext/lwe_ciphertext_ops.rs", T+"math/simd/scalar.rs", T+"ops/ciphertext/glwe_ciphertext_ops.rs"],
  [("rounding shift", "math::simd vector_mod_pow2_q / modswitch functions")], observe=["switched words"])
p("T11", "Decryption returns message plus exactly the encryption noise",
  "Encrypting under any binary key and removing the mask with the same key returns the encoded message plus exactly the noise that was drawn, for LWE and GLWE, and with zero noise the message itself. Trivial encryptions decrypt to their message under every key, and the outcome does not depend on what the output buffer held before.",
  "all keys, masks, messages, noise draws, sizes, prior output contents",
  "Tests encrypt random messages into fresh zeroed outputs with one parameter set.",
  [T+"ops/encryption/lwe_encryption.rs", T+"ops/encryption/glwe_encryption.rs", T+"entities/lwe_secret_key.rs", T+"entities/glwe_secret_key.rs"],
  [("LWE encrypt / phase", "encrypt_lwe_ciphertext / LweSecretKeyRef::decrypt_without_decode"), ("GLWE encrypt / phase", "encrypt_glwe_ciphertext_secret / decrypt_glwe_ciphertext"), ("trivial encryption", "trivially_encrypt_*")], observe=["phase"])
p("T12", "Goldilocks field arithmetic is exact and canonical",
  "Addition, subtraction, negation, multiplication and multi-word reduction in the 2^64-2^32+1 field agree with integer arithmetic modulo that prime, and every value handed out is below the prime.",
  "all pairs of field elements, all 64/96/159-bit reduction inputs",
  "Tests sample uniform elements; the carry corners near 2^32 and the prime have probability about 2^-32.",
  [T+"math/goldilocks_field.rs"],
  [("modular add/sub/mul", "Fg operators"), ("Solinas reduction", "Fg96::reduce / Fg159::reduce")], observe=["field elements"], hook="access to the crate-private field module")
p("T13", "Components of packed ciphertexts and keys partition their storage",
  "The component views of every packed ciphertext and key (masks, bodies, rows, levels) are disjoint, cover the storage exactly once in order, and their number matches the parameters. Iterating them by reference, mutably, or in parallel visits the same components in the same order and reports exact remaining lengths.",
  "all entity kinds, all dimensions and digit counts",
  "Tests construct entities at two or three parameter sets and mostly read them back through the same accessors.",
  [T+"dst.rs", T+"macros.rs", T+"entities/glwe_ciphertext.rs"],
  [("slice-backed entities", "dst! macro"), ("chunk iterators", "dst_iter! macro"), ("per-entity sizes", "OverlaySize impls")], over=("inputs","configurations"), observe=["storage offsets"])
p("T14", "Scratch buffers are aligned, sized, and never alias a live buffer",
  "Every scratch buffer handed out is aligned for wide vectors, has exactly the requested number of elements, and does not overlap any other buffer that is still alive, for every nesting of allocations and releases.",
  "all element types and counts, all sequences of allocations and releases that follow scope order",
  "Tests allocate a few fixed shapes; reuse after growth depends on the history.",
  [T+"scratch.rs"],
  [("bump allocation with alignment", "Scratch::allocate"), ("release on drop", "ScratchBuffer Drop")], over=("inputs","histories"),
  state=[("allocation stack", "owned blocks and which are in use", T+"scratch.rs")], observe=["buffer pointers and lengths"], hook="access to the crate-private allocator with its own pool")
p("T15", "Symmetric key-product indexing is a bijection",
  "Indexing the packed upper triangle of a symmetric table is a bijection between unordered index pairs and storage slots, it is symmetric in its arguments, and enumeration of pairs visits the slots in storage order, each exactly once.",
  "all table sizes n, all pairs",
  "Tests enumerate one or two sizes.",
  [T+"iteration/triangular_pairs.rs", T+"entities/scheme_switch_key.rs"],
  [("pair enumeration", "TriangularPairs iterator"), ("slot computation", "get_linear_index")], observe=["slot numbers"], hook="access to the crate-private index function")
p("T16", "Rounded division returns the nearest integer",
  "Rounded division of two machine integers returns the integer nearest to the exact quotient, ties rounding away from zero, for every numerator and every non-zero divisor whose quotient is representable, for signed and unsigned words of every width.",
  "all numerators and non-zero divisors of the word types",
  "Tests check a handful of literals with even divisors.",
  [T+"math/mod.rs"],
  [("rounding", "RoundedDiv::div_rounded")], observe=["quotient"])
p("T17", "Lookup tables repeat each function value over its whole rounding window",
  "The table built for a function holds, for every message, the encoded function value at every table position that can be reached from that message by a phase error smaller than half an encoding step, including the negated window at the wrap-around.",
  "all functions on the message space, all message widths and polynomial degrees, all positions",
  "Tests run one or two functions end to end and accept any value that survives noise.",
  [T+"entities/univariate_lookup_table.rs", T+"entities/bivariate_lookup_table.rs", T+"ops/bootstrapping/programmable_bootstrapping.rs"],
  [("table fill", "generate_lut / generate_bivariate_lut"), ("half-window rotation", "generate_lut")], observe=["table coefficients"])
p("T18", "Key switching is the defining gadget sum",
  "Switching an LWE ciphertext to another key yields the trivial ciphertext of its body minus the sum, over all mask elements and digits, of digit times the corresponding key-switching row, exactly modulo the word. With a noiseless key the phase is preserved up to the decomposition rounding; the outcome does not depend on what the output held before.",
  "all ciphertexts, all key contents, all dimensions and decompositions, all prior output contents",
  "Tests switch a few fresh encryptions and accept anything within a wide noise margin.",
  [T+"ops/keyswitch/lwe_keyswitch.rs", T+"ops/keyswitch/glwe_keyswitch.rs", T+"ops/keyswitch/public_functional_keyswitch.rs", T+"entities/lwe_keyswitch_key.rs"],
  [("digit/row pairing", "keyswitch_lwe_to_lwe / keyswitch_glwe_to_glwe"), ("level order", "LweKeyswitchKeyRef::rows")], observe=["ciphertext words", "phase"])
p("T19", "Leveled encryptions hold the message at every gadget scale",
  "Each level of a leveled (gadget) encryption of a message decrypts to the message scaled by that level's gadget factor plus exactly the noise drawn, and each row of a matrix encryption additionally carries the matching secret-key polynomial. Rows appear in the order in which decomposition produces its digits.",
  "all messages, keys, sizes, decompositions and prior output contents",
  "Tests only check products of such encryptions end to end at one parameter set.",
  [T+"ops/encryption/rlwe_encryption.rs", T+"ops/encryption/glev_encryption.rs", T+"ops/encryption/ggsw_encryption.rs", T+"entities/glev_ciphertext.rs", T+"entities/ggsw_ciphertext.rs"],
  [("gadget factor per level", "encrypt_rlev/glev/ggsw functions"), ("factor", "scale_by_decomposition_factor / RadixDecomposition")], observe=["row phases"])

p("T20", "External product and scheme switch apply the gadget product exactly",
  "The exact (non-Fourier) multiply-accumulate of a GLWE ciphertext with a GGSW ciphertext adds to every component of the output the sum over components and gadget digits of digit polynomial times the matching GGSW row, and nothing else; a sum over a gadget with the digits of a polynomial equals the digit-weighted sum of the rows. Switching a leveled GLWE encryption to a GGSW ciphertext fills every row, from any previous contents of the output: the body row copies the input level, and the row of key polynomial j holds the input body in component j plus the exact gadget products of the input masks with the key entries for j.",
  "all ciphertext and key contents, sizes, decompositions and prior output contents",
  "Tests decrypt products of fresh encryptions of small messages at one parameter set and within the noise margin.",
  [T+"ops/ciphertext/glwe_ciphertext_ops.rs", T+"ops/homomorphisms/mod.rs", T+"ops/bootstrapping/scheme_switch.rs"],
  [("gadget product", "glwe_polynomial_mad / decomposed_polynomial_glev_mad"), ("external product", "glwe_ggsw_mad"), ("row layout", "GgswCiphertextRef::rows, GlevCiphertextRef::glwe_ciphertexts")], observe=["output polynomials", "row phases"])

M = "sunscreen_math/src/"
p("M01", "Barrett reduction equals the true remainder",
  "For every modulus up to the supported size and every input up to the square of the modulus, Barrett reduction with the precomputed constants returns exactly the remainder. Modular multiplication built on it agrees with integer multiplication modulo the modulus.",
  "all moduli of the supported width, all inputs in range",
  "Tests fix a few moduli and sample products; an off-by-one in the correction step shows only near multiples of the modulus.",
  [M+"ring/barrett.rs", M+"ring/mod.rs"],
  [("precomputed ratio", "BarrettConfig"), ("estimate and correct", "barrett reduction in ring/mod.rs / barrett.rs")], observe=["remainder"])
p("M02", "Modular integer arithmetic forms a ring with canonical values",
  "Addition, subtraction, negation and multiplication of modular integers agree with integer arithmetic modulo the modulus, in place and by value, and every result is canonical. Conversions from machine integers (negative ones down to minus the modulus) reduce modulo the modulus and conversions back return the canonical value.",
  "all operand pairs, all supported moduli",
  "Tests sample a few moduli and operands.",
  [M+"ring/mod.rs"],
  [("add/sub with conditional correction", "Zq operators"), ("multiplication", "Zq Mul through Barrett"), ("conversions", "Zq From impls")], observe=["canonical values"])
p("M03", "Polynomial arithmetic, evaluation and division are consistent",
  "Polynomial sum, difference and product have exactly the coefficients of the mathematical result, evaluation is a ring homomorphism, and division by a monic divisor returns the quotient and remainder with the remainder of lower degree. Two polynomials are equal exactly when all their coefficients, ignoring leading zeros, are equal.",
  "all polynomials of all degrees over the supported rings",
  "Tests compare small literals; none compares unequal polynomials that differ only in the leading coefficient.",
  [M+"poly/mod.rs"],
  [("coefficient loops", "Polynomial Add/Sub/Mul"), ("Horner evaluation", "Polynomial::evaluate"), ("long division", "Polynomial::vartime_div_rem_restricted_rhs"), ("equality", "PartialEq for Polynomial")], observe=["coefficients"])
p("M04", "Enumeration of combinations is complete, ordered and duplicate free",
  "Enumerating the t-element combinations of n elements visits each t-element subset exactly once, in lexicographic order, and the number visited is the binomial coefficient. The position of a combination in that order and the combination at a position are inverse to each other, and inserting an element into a reduced combination keeps the order.",
  "all n and t",
  "Tests compare a few small literal lists.",
  [M+"combination.rs"],
  [("index stepping", "combination iterators")], observe=["enumerated index tuples"])
p("M05", "Values passed by reference and by value give the same result",
  "Operators generated for references and for owned values, in every combination, return the same result as the fundamental implementation with the operands in the same order.",
  "all operand values, all four owned/borrowed combinations, including non-commutative operators",
  "Tests exercise one operator on one type.",
  ["sunscreen_math_macros/src/lib.rs", M+"ring/mod.rs", M+"poly/mod.rs"],
  [("operator generation", "refify_binary_op attribute")], observe=["operator results"])

C = "parasol_concurrency/src/"
p("C01", "Dynamically checked borrows never alias a writer",
  "Through any history of shared and exclusive borrow requests and releases, an exclusive borrow never coexists with any other borrow. A refused request panics and leaves the cell exactly as it was, and after all borrows are released a new exclusive borrow succeeds.",
  "all histories of borrow, borrow_mut, failed requests and drops on one cell",
  "Tests check single refused requests, never a request after a refused one.",
  [C+"lib.rs"],
  [("borrow state transitions", "AtomicRefCell::borrow / borrow_mut and guard Drop")], over=("histories",),
  state=[("borrow counter", "number of shared borrows or exclusive marker", C+"lib.rs")], observe=["granted guards", "panics"])
p("C02", "A spin lock is held by at most one guard and is released on drop",
  "While a guard is alive every attempt to take the lock fails, dropping the guard always makes the lock available again, and data written under the guard is what the next holder reads.",
  "all histories of lock, try-lock and release",
  "Tests run two threads briefly.",
  [C+"lib.rs"],
  [("acquire/release flag", "Spinlock::lock / try_lock, guard Drop")], over=("histories","schedules"),
  state=[("lock flag", "held or free", C+"lib.rs")], observe=["granted guards"])

X = "mux_circuits/src/"
p("X01", "Adder, subtractor and negation circuits compute modular arithmetic",
  "For every width, the generated addition, subtraction and negation circuits output the exact word-modular result and the correct carry or borrow, for every input assignment, with the documented input and output bit order.",
  "all widths, all input assignments, with and without carry-in",
  "The tests of this crate do not build here and enumerate only a few widths.",
  [X+"add.rs", X+"sub.rs", X+"neg.rs"],
  [("ripple carry", "ripple_carry_adder / full_adder"), ("ripple borrow", "full_subtractor"), ("two's complement", "negator")], over=("inputs","configurations"), observe=["output bits"])
p("X02", "Comparison circuits decide order and equality",
  "For every width, the generated comparison circuits output exactly the truth of the equality, inequality or unsigned/signed order they are named for, for every pair of inputs.",
  "all widths, all input pairs, signed and unsigned",
  "The tests of this crate do not build here and enumerate only a few widths.",
  [X+"comparisons.rs"],
  [("bit recurrences", "compare_* functions")], over=("inputs","configurations"), observe=["output bit"])
p("X03", "Shift, rotate and bitwise circuits match machine semantics",
  "For every width, the generated shift, rotate, and bitwise circuits output the bits that the corresponding machine operation gives, for every input and every shift amount, including amounts at or beyond the width.",
  "all widths, inputs and shift amounts",
  "The tests of this crate do not build here and enumerate only a few widths.",
  [X+"bitshift.rs", X+"and.rs", X+"or.rs"],
  [("barrel shifter", "bitshift::bitshift"), ("bitwise circuits", "and.rs / or.rs")], over=("inputs","configurations"), observe=["output bits"])
p("X04", "Arbitrary-width arithmetic helpers and multiplication circuits are exact",
  "Converting a value to bits, subtracting with borrow at a given width, and the multiplication and partial-product reduction circuits give the exact result and exact carry or borrow flags, for every width they accept. A value that does not fit the asked width is refused.",
  "all widths and all operands",
  "The tests of this crate do not build here and try only a few widths and operands.",
  [X+"util.rs", X+"mul.rs", X+"lib.rs"],
  [("masking and borrow", "arbitrary_width_borrowing_sub"), ("bits of a value", "try_to_bits, convert_value_to_bits"), ("multiplier array and input interleaving", "multiplier_bdd, mul_bdd_encode, mul_bdd_decode"), ("divide and conquer", "partition_integer, encode_gradeschool_reduction, gradeschool_reduce_impl")], observe=["results, flags and circuit outputs"])

U = "parasol_cpu/src/"
p("P01", "Instruction encoding and decoding are inverse",
  "Encoding any instruction to its machine word and decoding that word returns the same instruction, and distinct instructions have distinct encodings. Decoding an arbitrary word never crashes: it yields an instruction or a reported error.",
  "all instructions with all operand values; all 64-bit words",
  "No buildable test covers the encoder here; the crate's own tests sample a few instructions.",
  ["parasol_cpu_macros/src/lib.rs", U+"proc/assembly.rs"],
  [("bit packing", "define_op! macro / isa definitions")], observe=["decoded instruction"])
p("P02", "Guest memory reads return what was last written, faults leave it unchanged",
  "A load of a mapped, aligned address returns the last value stored there, storing affects only the addressed bytes, and allocations handed out never overlap. An access outside mapped or permitted memory is reported as an error and changes nothing.",
  "all histories of allocations, stores and loads at all addresses and widths",
  "The crate's tests do not build here and check a few addresses.",
  [U+"memory/mod.rs"],
  [("page mapping and permission check", "Memory::check_range / try_load / try_store"), ("bump allocation", "Memory::try_allocate")], over=("inputs","histories"), observe=["loaded bytes", "errors"])
p("P03", "Call arguments are laid out exactly as the calling convention says",
  "Converting a value to argument bytes and back returns the value, sizes and alignments match the declared type, and pushing arguments places each at its aligned offset without overlapping another.",
  "all argument types, values and argument sequences",
  "The crate's tests do not build here and use a few argument lists.",
  [U+"proc/args.rs", U+"memory/mod.rs"],
  [("byte conversion", "ToArg impls"), ("offset computation", "Args layout / try_push_arg_onto_stack")], observe=["stack bytes"])
p("P04", "Plaintext instructions compute what the machine defines",
  "On plaintext operands, arithmetic, shift, rotate, logic, cast and comparison instructions produce the word-modular result for the operand width, with correct flags, for every width the instruction set allows, and never abort the emulator.",
  "all operand values, widths and shift amounts",
  "The crate's tests do not build here and use a few values.",
  [U+"proc/ops/add.rs", U+"proc/ops/sub.rs", U+"proc/ops/mul.rs", U+"proc/ops/bitshift.rs", U+"proc/ops/comparisons.rs", U+"proc/ops/casting.rs"],
  [("masking to the operand width", "proc/ops/*.rs plaintext branches")], observe=["destination register"])

p("T30", "Bootstrapping evaluates the lookup table on the encrypted message",
  "Programmable bootstrapping of an encryption returns a fresh encryption of the table's value at the message, for every message, whenever the input noise is below half an encoding step, except with the failure probability of the parameter set.",
  "all messages, tables, keys and noise below the bound",
  "Tests run few samples at few parameter sets; the failure probability is a tail event.",
  [T+"ops/bootstrapping/programmable_bootstrapping.rs", T+"ops/bootstrapping/blind_rotation.rs", T+"ops/fft_ops.rs"],
  [("blind rotation", "blind_rotation"), ("external product through FFT", "ops/fft_ops.rs")], observe=["decrypted message"])
p("T31", "Fourier products approximate the exact negacyclic product",
  "The floating-point transform, pointwise multiply-accumulate and inverse transform return the exact negacyclic product up to an error that stays below the noise budget of the parameter sets.",
  "all polynomial pairs within the parameter ranges",
  "Tests compare a few random products with a tolerance.",
  [T+"math/fft/negacyclic/mod.rs", T+"math/polynomial.rs"],
  [("twisted complex FFT", "math/fft/negacyclic")], observe=["product polynomial"])
p("T32", "Fresh masks and noise follow the prescribed distributions",
  "Masks are uniform, noise is Gaussian with the parameter set's deviation, and secret keys are uniform binary, so ciphertexts hide their messages.",
  "all keys and draws, as distributions",
  "A distribution cannot be settled by examples.",
  [T+"rand.rs", T+"entities/lwe_secret_key.rs"],
  [("sampling", "rand.rs uniform/normal/binary")], observe=["drawn samples"])
p("R01", "Graphs of encrypted operations compute the arithmetic they are built for",
  "A graph built to multiply two encrypted integers, unsigned or two's complement, computes every bit of their product, low half and high half, for every pair of operand widths and for both output ciphertext types. Converting a bit between ciphertext types inside a graph leaves its value unchanged and yields the requested type, and every operation in the built graph receives operands of the types it works on. Pruning a graph keeps exactly what the requested outputs depend on and changes none of their values.",
  "all pairs of operand widths, all operand values, all pairs of ciphertext types, all graphs",
  "The tests of this crate do not build here, multiply at a few equal widths, and never at a width where only one operand is split.",
  ["parasol_runtime/src/circuits/mul.rs", "parasol_runtime/src/fhe_circuit.rs"],
  [("recursive multiplication", "mul_impl, append_uint_multiply, append_int_multiply"), ("type conversion", "insert_ciphertext_conversion"), ("circuit instantiation", "FheCircuit::insert_mux_circuit"), ("pruning", "prune")], observe=["the value of every output node of the graph"])
p("X05", "Circuit optimisation preserves the computed function",
  "Converting decision diagrams to mux circuits and optimising or merging circuits never changes any output bit for any input assignment.",
  "all circuits and input assignments",
  "The crate's tests do not build here and compare a few circuits.",
  [X+"lib.rs", X+"opt.rs"],
  [("graph rewriting", "opt.rs"), ("BDD conversion", "lib.rs")], over=("programs","inputs"), observe=["output bits"])
p("P10", "Out-of-order execution equals sequential execution",
  "The emulator's renamed, asynchronous execution of any program yields the same registers and memory as executing its instructions one after another, for every timing of the encrypted operations.",
  "all programs and all completion orders",
  "The crate's tests do not build here and run a few programs.",
  [U+"tomasulo/mod.rs", U+"proc/fhe_processor.rs", U+"tomasulo/registers.rs"],
  [("register renaming and scoreboard", "tomasulo/*")], over=("programs","schedules"), observe=["final registers and memory"])
p("R10", "Encrypted circuits decrypt to the plaintext evaluation",
  "Executing a circuit graph on encrypted inputs and decrypting gives the plaintext evaluation of the circuit, whatever order worker threads finish in.",
  "all circuits, inputs and schedules",
  "The crate's tests do not build here.",
  ["parasol_runtime/src/circuit_processor/mod.rs", "parasol_runtime/src/fluent/mod.rs"],
  [("task graph scheduling", "circuit_processor")], over=("programs","schedules"), observe=["decrypted outputs"])
p("M10", "Security estimates bound the attack cost",
  "The estimated security level for given lattice parameters never exceeds the modelled attack cost and decreases when the noise shrinks or the modulus grows.",
  "all parameter triples in the supported range",
  "Tests compare a few published values.",
  [M+"security.rs"],
  [("fitted polynomial", "security.rs")], observe=["estimated bits"])

with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
