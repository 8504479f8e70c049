#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FIELDS = ["src/fields/mod.rs", "src/fields/fp.rs", "src/fields/fq.rs"]
CURVES = ["src/curves/mod.rs", "src/curves/ec0.rs", "src/curves/ec1.rs"]

p("F01", "Both prime fields compute exact integer arithmetic modulo their primes",
  "For every pair of field elements, addition, subtraction, negation, doubling, squaring, multiplication (every operator form, including the assigning ones), exponentiation by any 256-bit exponent and conversion from small integers, booleans and 512-bit wide strings give exactly the residue that integer arithmetic modulo that field's prime gives. Results are always fully reduced, whatever the operands, including 0, 1, p-1 and values whose internal limbs carry in every position.",
  ["inputs"], "all operands in both fields, all operator forms, all 64-byte strings and 256-bit exponents",
  "Unit tests check a handful of constants and largest-element cases; carries and the conditional final subtraction depend on limb patterns a sample does not hit.",
  FIELDS + ["src/util.rs"],
  [("Montgomery multiplication and reduction", "src/fields/fp.rs, src/fields/fq.rs: mul, square, montgomery_reduce"),
   ("conditional subtraction after additive operations", "src/fields/fp.rs, src/fields/fq.rs: add, sub, neg"),
   ("operator forwarding macros", "src/util.rs: impl_binops_*")],
  ["to_bytes() of each result against a 512-bit integer model"])

p("F02", "Field encodings are canonical: one encoding per element, nothing else accepted",
  "Encoding a field element yields the little-endian bytes of its unique representative below the prime, decoding accepts exactly the 32-byte strings that encode an integer below the prime and returns that element, and every other string is refused. Equality, the low-128-bit projection, constant-time selection and formatting agree with that canonical representative for every element.",
  ["inputs"], "all 32-byte strings and all elements of both fields, with emphasis on values around the modulus",
  "Tests decode a few fixed strings; the acceptance boundary is a multi-limb borrow chain over 2^256 strings.",
  FIELDS,
  [("range check by borrow chain on decode", "src/fields/fp.rs, src/fields/fq.rs: from_bytes"),
   ("reduction out of the internal form on encode", "src/fields/fp.rs, src/fields/fq.rs: to_bytes, get_lower_128")],
  ["from_bytes / to_bytes / == / get_lower_128 / Debug output"])

p("F03", "Inversion, square roots, batch inversion and field constants are exact",
  "Inversion succeeds exactly on non-zero elements and returns the true inverse, square root succeeds exactly on squares and returns a root, and batch inversion replaces every non-zero element by its inverse, leaves zeros alone and returns the product of the inverses, for slices of every length and zero pattern. The published constants (two-adicity, roots of unity and their orders, cube root of unity, power-map exponents) satisfy their defining equations in both fields.",
  ["inputs"], "all elements, all slices (length, zero positions, duplicates)",
  "Tests exercise one or two values; a square-root algorithm with a deep two-adic subgroup has 32 distinct loop depths and batch inversion depends on where the zeros fall.",
  FIELDS,
  [("Tonelli-Shanks over the 2^32 subgroup", "src/fields/fp.rs, src/fields/fq.rs: sqrt"),
   ("Fermat inversion and Montgomery's trick", "src/fields/mod.rs: batch_invert; invert")],
  ["return values multiplied / squared back, Euler criterion by the integer model"])

p("F04", "Operations not declared variable-time take no branch or index from operands",
  "The field operations built on constant-time selection leak nothing about operand values through control flow or memory addresses. In both fields: addition, subtraction, negation, multiplication, squaring and doubling in every operator form, constant-time equality, zero test, conditional selection / assignment / swap, inversion, square root, pow (base and exponent), pow_vartime with a public exponent (base only), byte encoding and decoding, 128-bit projection and the integer conversions. On both curves: point addition, doubling, multiplication by a scalar (point and scalar), constant-time equality, identity test, conditional selection, get_xy. Everything that decides a branch or an index in them is independent of the operands' values. Not promised: the exponent of pow_vartime, == and conversions to or from bool, batch inversion, and curve negation, subtraction, encoding, decoding, from_xy and is_on_curve, which the code marks as variable time or answers with a plain bool.",
  ["inputs"], "all operand values; observed by tracking the operands' dependents, so that one execution speaks for every value that shares its control flow",
  "A timing leak changes no result, so no test comparing values can see it; it appears as an early exit, a skipped iteration or a table lookup added for speed.",
  FIELDS,
  [("variable time only where the documentation says so", "src/fields/mod.rs: pow, pow_vartime"),
   ("constant-time Tonelli-Shanks, masks instead of branches", "src/fields/fp.rs, src/fields/fq.rs: sqrt, invert, sub, neg, ct_eq, conditional_select"),
   ("double-and-add by conditional selection over all bits", "src/curves/ec0.rs, src/curves/ec1.rs: Mul, Add, double, ct_eq")],
  ["branches and addresses taken while the operands are marked undefined under valgrind's memcheck, in an unoptimised and an optimised build"])

p("C01", "Curve arithmetic is the elliptic-curve group law",
  "On both curves, addition, subtraction, doubling, negation, every assigning form and scalar multiplication agree with the textbook affine group law for every pair of points in every projective representation: equal points, opposite points, the identity on either side, and rescaled representatives included. Results always lie on the curve, and multiplication by the group order gives the identity.",
  ["inputs"], "all pairs of points and scalars on both curves, all representatives",
  "Tests add random generic points; the exceptional cases and rescaled coordinates are measure-zero under random sampling.",
  CURVES + ["src/util.rs"],
  [("projective addition/doubling formulas", "src/curves/ec0.rs, src/curves/ec1.rs: Add, double"),
   ("double-and-add over scalar bits", "src/curves/ec0.rs, src/curves/ec1.rs: Mul")],
  ["affine coordinates against an independent affine model"])

p("C02", "Point equality and identity tests decide equality of group elements",
  "Two points compare equal, in either argument order and in both the plain and constant-time comparison, exactly when they are the same group element, independent of their projective representation. The identity equals only the identity and is recognised as such however it was produced; constant-time selection returns exactly the selected operand.",
  ["inputs"], "all pairs of points including the identity, opposites and rescaled representatives",
  "Tests never compare the identity with a non-identity operand on each side.",
  CURVES,
  [("cross-multiplied comparison with identity flags", "src/curves/ec0.rs, src/curves/ec1.rs: ct_eq"),
   ("is_identity", "src/curves/ec0.rs, src/curves/ec1.rs")],
  ["==, ct_eq, is_identity, conditional_select"])

p("C03", "Point encodings round-trip and only canonical on-curve points decode",
  "Every group element has exactly one 32-byte encoding and decoding it returns that element; decoding accepts exactly the strings that are such encodings (canonical x on the curve plus a sign, or the identity's) and refuses everything else. Coordinates given directly are accepted exactly when they satisfy the curve equation or denote the identity, and the coordinates read back from a point are those of the group element whatever its representation.",
  ["inputs"], "all 32-byte strings and all coordinate pairs, both curves",
  "Tests round-trip a few points; non-canonical x, wrong sign bits and off-curve x are not sampled.",
  CURVES,
  [("sign bit plus canonical x plus square root", "src/curves/ec0.rs, src/curves/ec1.rs: to_bytes, from_bytes"),
   ("on-curve check", "src/curves/ec0.rs, src/curves/ec1.rs: from_xy, get_xy")],
  ["from_bytes, to_bytes, from_xy, get_xy against the integer model"])

p("C04", "The curve endomorphism and 128-bit challenge scalars agree across both fields",
  "On each curve, multiplying a point's x-coordinate by the published base-field constant gives its multiple by the published scalar constant; both constants have order three, and the constants of the two curves match each other's fields. Expanding a 128-bit challenge into a scalar gives, for every challenge, the same integer combination of 1 and that scalar in whichever field it is computed, and multiplying a point bit by bit with the endomorphism steps equals multiplying it by the expanded scalar.",
  ["inputs"], "all points and all 128-bit challenges, both curves",
  "Tests use one random challenge and compare code paths that share constants.",
  ["src/util.rs"] + CURVES + FIELDS,
  [("endo", "src/curves/ec0.rs, src/curves/ec1.rs: endo"), ("challenge expansion", "src/util.rs: get_challenge_scalar"),
   ("BETA constants", "src/fields/fp.rs, src/fields/fq.rs")],
  ["endo(P) vs model scalar multiplication; expansion vs big-integer recomputation"])

p("U01", "Multi-exponentiation and commitments equal the naive sum of products",
  "For every vector of scalars and equally long vector of points, of any length, the multi-exponentiation result is the sum of the individual scalar multiples, including zero, repeated, opposite and identity bases and extreme scalars. Committing to a vector shorter than the basis is the same sum against the leading generators, or against the trailing ones when right-aligned.",
  ["inputs", "configurations"], "all lengths across every bucket-window size and thread split, all scalar/point patterns",
  "Tests use one random length; the window width and the work split change with the length and CPU count.",
  ["src/util.rs", "src/proofs.rs"],
  [("bucketed windows split over threads", "src/util.rs: multiexp"), ("alignment", "src/proofs.rs: Params::commit")],
  ["result vs naive sum"])

p("U02", "Polynomial multiplication equals schoolbook multiplication",
  "Multiplying two non-empty coefficient vectors of any lengths yields the coefficients of their product, exactly and in order, for every combination of lengths (equal or not, power of two or not) and values. The result does not depend on how many processors carry out the transform.",
  ["inputs", "configurations"], "all length pairs and coefficient patterns, both fields",
  "Tests cover a single size; transform size and splitting depend on the sum of the lengths and the machine.",
  ["src/util.rs"],
  [("radix-2 transform with zero padding", "src/util.rs: multiply_polynomials, fft routines")],
  ["coefficients vs O(n*m) model"])

p("U03", "Inner-product-argument helpers agree with their closed forms",
  "Inner products, the generator folding step, the evaluation of the folded power vector, the folded-generator coefficients and the commitment to the folded basis equal their mathematical definitions for every vector, challenge list and size. In particular, folding a basis round by round gives the same point as the one-shot computation from the list of challenges.",
  ["inputs", "configurations"], "all sizes 2^k, all challenges, both curves, any CPU count",
  "Tests check one relation at one size.",
  ["src/util.rs"],
  [("folding", "src/util.rs: parallel_generator_collapse"), ("closed forms", "src/util.rs: compute_inner_product, compute_b, compute_g_coeffs_for_inner_product, compute_g_for_inner_product")],
  ["values vs direct definition computed with the integer/affine model"])

p("R01", "The native sponge hash computes the specified duplex Rescue function",
  "For every sequence of absorb and squeeze operations on a fresh sponge, each squeezed element equals the one produced by an independent implementation of the documented permutation (state width 13, rate 12, ten rounds) and duplex rules: absorb until the rate is full, permute, then squeeze up to twelve elements per permutation, and restart absorbing after a squeeze. Cloned sponges evolve independently and identically under identical operations.",
  ["inputs", "histories"], "all absorb/squeeze histories over both fields",
  "The tests only check two fixed vectors; the duplex transitions depend on the interleaving of operations.",
  ["src/rescue.rs", "src/fields/fp.rs", "src/fields/fq.rs"],
  [("permutation and key schedule", "src/rescue.rs: rescue_f, generate_*"), ("duplex state machine", "src/rescue.rs: Rescue::absorb, squeeze")],
  ["squeezed elements vs reference"], state=[("sponge state", "absorbing buffer or squeezing block", "src/rescue.rs: SpongeState")])

p("R02", "Every absorbed element influences every later squeezed element",
  "For two absorb/squeeze histories of the same shape that differ in the value of any absorbed element, every element squeezed after that point differs, for every position in the block and every number of blocks. Distinct elements squeezed from the same sponge are not related by a fixed linear relation.",
  ["inputs", "histories"], "all equal-shape histories differing in one or more absorbed values, both fields",
  "Tests compare against fixed vectors and never check binding of each position.",
  ["src/rescue.rs"],
  [("mixing matrix", "src/rescue.rs: generate_mds_matrix"), ("block absorption", "src/rescue.rs: absorb, pad")],
  ["pairs of histories"])

p("R03", "The in-circuit hash equals the native hash and cannot be forged",
  "For every absorb/squeeze history, with constant, witnessed or scaled inputs, the in-circuit sponge is satisfiable and yields exactly the native sponge's outputs. No satisfying assignment with the same inputs produces any other output.",
  ["inputs", "histories"], "all histories, both fields; all assignments of the internal variables",
  "Tests check one history with the honest witness; an under-constrained internal variable is invisible to them.",
  ["src/gadgets/rescue.rs", "src/gadgets/num.rs", "src/rescue.rs"],
  [("constrained permutation", "src/gadgets/rescue.rs: rescue_f"), ("x^5 and its inverse", "src/gadgets/num.rs: rescue_alpha, rescue_invalpha")],
  ["recorded constraint system: honest values, native output, adversarial re-solving"])

p("S01", "Synthesis places every variable and constraint faithfully",
  "For every circuit, the basic synthesis driver hands the backend exactly the circuit's multiplication gates, linear constraints, public inputs and assignments, with the constant-one wire first and every input bound to its own power. Any assignment satisfies the recorded backend system exactly when it satisfies the circuit as written, whichever order and parity of allocations, multiplications and inputs is used.",
  ["programs", "inputs"], "all circuits (orders, parities and nestings of allocations, gates, inputs, linear constraints)",
  "Tests synthesize a couple of fixed circuits; pairing of single allocations depends on program order.",
  ["src/synthesis.rs", "src/circuits.rs"],
  [("pairing of single allocations into gates", "src/synthesis.rs: Basic::synthesize alloc"), ("input binding", "src/synthesis.rs: alloc_input, new_k_power")],
  ["backend event log vs direct interpretation of the random circuit program"])

p("S02", "The circuit polynomial evaluations agree with each other and with the circuit",
  "For every circuit and every pair of points, partially evaluating the circuit polynomial at one variable and then evaluating at the other gives the same field element whichever variable is fixed first, and equals the value computed directly from the circuit's constraints. The result depends on the circuit only, never on witness values.",
  ["programs", "inputs"], "all circuits, all non-zero evaluation points, all sizes up to the parameter bound",
  "No test compares the two evaluations; disagreement would only appear as a rejected honest proof or an accepted forged one.",
  ["src/proofs.rs"],
  [("fixed-y evaluation", "src/proofs.rs: SxEval, Params::compute_sx"), ("fixed-x evaluation", "src/proofs.rs: SyEval, Params::compute_sy"), ("batch flush of inverse powers", "src/proofs.rs: SxEval/SyEval")],
  ["two evaluations and an independent sum over recorded constraints"])

p("S03", "Linear-combination algebra denotes the field expression it is built from",
  "Every way of building a coefficient or linear combination - adding, subtracting, scaling, negating, doubling, combining with special-cased coefficients 0, 1 and -1 or with constants - evaluates, for every assignment, to the value of the same expression computed in the field. The cached value carried with a combination always equals the value of its constraint expression.",
  ["inputs", "programs"], "all expressions over all coefficients including the special-cased ones",
  "Tests touch single operators; the special-cased coefficients multiply the number of branches combinatorially.",
  ["src/circuits.rs", "src/gadgets/num.rs"],
  [("special-cased coefficients", "src/circuits.rs: Coeff"), ("linear combinations", "src/circuits.rs: LinearCombination"), ("valued combinations", "src/gadgets/num.rs: Num, Combination")],
  ["evaluation of random expression trees"])

p("D01", "The development satisfaction checker accepts exactly satisfied circuits",
  "The development checker reports success exactly when the circuit's own assignment and the supplied public inputs satisfy every multiplication gate and every linear constraint, and the number of inputs matches. When it reports a failure, the failing constraint it names really is violated.",
  ["programs", "inputs"], "all circuits, assignments and input lists",
  "Tests show one satisfied and one unsatisfied circuit.",
  ["src/dev.rs"],
  [("shadow evaluation of gates and linear constraints", "src/dev.rs: is_satisfied")],
  ["verdict vs independent evaluation of the random program"])

p("D02", "Determinism checks and constraint counts report the true circuit",
  "The determinism check passes exactly when synthesizing a circuit with and without a witness issues the same operations, and detects any divergence in number, kind or coefficients, even at the end. The constraint count attributes every allocation, gate and linear constraint to the namespace that created it, so totals over the tree equal what synthesis emitted.",
  ["programs"], "all circuits including divergent ones, namespaces repeated and nested arbitrarily",
  "Tests only run them on convergent circuits with distinct namespaces.",
  ["src/dev.rs"],
  [("record and replay", "src/dev.rs: determinism_check"), ("per-namespace accumulation", "src/dev.rs: constraint_count")],
  ["outcome vs generated divergence; counts vs event log"])

p("G01", "Boolean gadgets compute their truth tables and force their outputs",
  "For every combination of constant, witnessed and negated operands, each boolean gadget (not, and, or-style, xor, equality, choice, majority, bit allocation and bit inputs that are checked) is satisfiable with the truth-table output, and no satisfying assignment with those operand values yields another output or a non-bit.",
  ["inputs"], "all operand kinds and values, all assignments of the internal variables",
  "Tests check honest witnesses; they do not search for other satisfying assignments of the same inputs.",
  ["src/gadgets/boolean.rs"],
  [("single-constraint encodings", "src/gadgets/boolean.rs: AllocatedBit, Boolean"), ("constant folding", "src/gadgets/boolean.rs: Boolean::xor, and, sha256_ch, sha256_maj")],
  ["recorded constraint system under honest and adversarial assignments"])

p("G02", "64-bit integer gadgets compute exact integer arithmetic and force it",
  "Allocating, packing, unpacking and the fused multiply-and-accumulate operation of 64-bit integers give exactly the integer result for every operand value, constant or witnessed, including all carries into the high word. No satisfying assignment with the same operands yields different result bits.",
  ["inputs"], "all 64-bit operands (a*b + c + d), constant and witnessed mixes",
  "Tests use random operands; carry extremes and forged bit decompositions are not exercised.",
  ["src/gadgets/uint64.rs"],
  [("128-bit decomposition of the product", "src/gadgets/uint64.rs: mul_acc2")],
  ["recorded constraint system vs u128 arithmetic, adversarial bits"])

p("G03", "The SHA-256 gadget computes SHA-256 and cannot be forged",
  "For every message whose length is a whole number of bytes, of constant or witnessed bits in any mixture, the SHA-256 gadget's output bits are the standard SHA-256 digest and the circuit is satisfied. No satisfying assignment with the same message bits yields any other digest.",
  ["inputs"], "all messages across block-boundary lengths and constant/witness mixes",
  "Tests hash a few messages; padding boundaries, constant folding and under-constrained carries are not covered.",
  ["src/gadgets/sha256.rs", "src/gadgets/uint32.rs", "src/gadgets/multieq.rs", "src/gadgets/boolean.rs"],
  [("padding and compression", "src/gadgets/sha256.rs"), ("modular addition with batched equality", "src/gadgets/uint32.rs: addmany, src/gadgets/multieq.rs")],
  ["output bits vs sha2 crate; adversarial carry/bit deviation"])

p("G04", "Unpacking a field element to bits yields exactly its integer's bits",
  "Unpacking a witnessed field element in-circuit is satisfiable for every element and yields the bits, least significant first, of its canonical integer. No satisfying assignment yields bits of a different field value.",
  ["inputs"], "all elements of both fields and all assignments of the bit variables",
  "Tests unpack a few values with the honest witness.",
  ["src/gadgets/boolean.rs"],
  [("bit decomposition with a weighted-sum constraint", "src/gadgets/boolean.rs: unpack_fe")],
  ["recorded constraint system vs integer bits; adversarial decompositions"])

p("G05", "Number gadgets compute and force products, powers, inverses and roots",
  "Multiplication, squaring, fifth power and its inverse, inversion, square root, conversion to inputs and evaluation of combinations are satisfiable with the true field result for every operand for which it exists, constant or witnessed. No satisfying assignment with the same operands yields another result, except the other square root, and inverting zero or rooting a non-square is unsatisfiable.",
  ["inputs"], "all operands including zero, constants and scaled combinations; all assignments",
  "Tests check a few honest values.",
  ["src/gadgets/num.rs"],
  [("gates linking operands and results", "src/gadgets/num.rs: AllocatedNum, Num, Combination")],
  ["recorded constraint system, honest and adversarial"])

p("G06", "Curve-point gadgets are complete: every legal operation is provable",
  "For every choice of points and control bits within an operation's documented domain (complete operations: all points including the identity, equal and opposite ones; incomplete additions and the multiplications built on them: inputs whose steps meet no exceptional case), the curve-point gadgets' honest witness satisfies the circuit and the resulting coordinates are those of the group-law result. This covers witnessing, conditional negation and endomorphism, complete, incomplete and conditional addition, doubling and all scalar multiplications with their inverses.",
  ["inputs"], "all points, bits and scalars of both curves, constant or witnessed",
  "Tests use random points; exceptional cases of the complete operations have measure zero.",
  ["src/gadgets/ecc.rs"],
  [("complete addition by case selection", "src/gadgets/ecc.rs: CurvePoint::add"), ("scalar multiplication ladders", "src/gadgets/ecc.rs: multiply, multiply_endo, multiply_fast, multiply_inv*")],
  ["satisfaction and output coordinates vs native group law"])

p("G07", "Curve-point gadgets are sound: no other output satisfies the circuit",
  "For fixed input points and control bits within an operation's documented domain, every satisfying assignment of a curve-point gadget carries the coordinates of the correct group-law result. In particular a witnessed point is always on the curve or the identity, and no witness choice lets an addition, doubling, negation, endomorphism or scalar multiplication (or its inverse) yield a different point.",
  ["inputs"], "all input points and bits; all assignments of the internal and output variables",
  "Tests only evaluate honest witnesses; missing constraints never make a test fail.",
  ["src/gadgets/ecc.rs"],
  [("coordinate constraints of each operation", "src/gadgets/ecc.rs: CurvePoint")],
  ["recorded constraint system re-solved after deviating each internal variable"])

p("G08", "32-bit word gadgets compute exact word arithmetic and force it",
  "Building, rotating, shifting, xoring, choosing between, taking the majority of and adding two to ten 32-bit words (the building blocks of the SHA-256 gadget) give exactly the word-arithmetic result, sums modulo 2^32, for every operand value and every mixture of constant, witnessed and negated bits. No satisfying assignment with the same operands yields different result bits, and the constraints created do not depend on whether the witness is known.",
  ["inputs", "programs"], "all operand values, kinds of bits, distances, numbers of summands and operation sequences",
  "Tests add three words and use random values on honest witnesses only.",
  ["src/gadgets/uint32.rs"],
  [("word operations", "src/gadgets/uint32.rs: UInt32")],
  ["output bits and recorded constraint systems of word programs, with and without witness"])

p("P01", "Honest proofs always verify, and chains of leftovers keep verifying",
  "For every circuit that fits the parameters and every satisfying assignment, a proof created by the prover verifies against the right inputs and the previous leftovers, with or without the input commitment being supplied. The new leftovers reported by prover and verifier are identical, verify independently, and can be used as the old leftovers of a following proof of the same circuit (dummy leftovers start a chain for any circuit), on both curves and for chains of any length.",
  ["inputs", "programs", "histories"], "all satisfiable circuits, parameter sizes, input counts, chain lengths, both curves",
  "Tests run one fixed circuit twice at one size.",
  ["src/proofs.rs"],
  [("prover", "src/proofs.rs: Proof::new"), ("verifier", "src/proofs.rs: Proof::verify"), ("accumulation", "src/proofs.rs: Leftovers")],
  ["verify results, leftovers equality, Leftovers::verify, Deferred::verify over chains"])

p("P02", "A proof altered in any component is rejected",
  "Starting from any valid proof, replacing any single commitment, evaluation claim, opening round element, round evaluation or final opening scalar by a different value makes the verification procedure (verifier verdict together with the checks it defers to the caller) fail. This holds at every position of every opening round and for structured replacements such as identity, negation, zero, swapping two components or replaying a component of another valid proof.",
  ["inputs", "fault_sequences"], "all components and rounds of proofs of arbitrary circuits, all replacement values",
  "No test tampers with a proof.",
  ["src/proofs.rs"],
  [("transcript binding and opening checks", "src/proofs.rs: Proof::verify, MultiPolynomialOpening::verify_proof"), ("deferred checks", "src/proofs.rs: Deferred::verify, Leftovers::verify")],
  ["verdict after one tampering"])

p("P03", "A proof verifies only for its own statement",
  "A valid proof is rejected when checked against different public inputs (changed, permuted, missing or extra), a different input commitment, a different circuit, or different old leftovers than it was created with. Rejection happens for every such substitution in which the statement really differs.",
  ["inputs", "programs"], "all substitutions of inputs, circuits and leftovers",
  "Tests only verify with the matching statement.",
  ["src/proofs.rs"],
  [("input polynomial opening", "src/proofs.rs: Proof::verify k(Y) handling"), ("circuit binding via s(X,Y) commitments", "src/proofs.rs: s_cur / c / s_new consistency")],
  ["verdict for each mismatched statement"])

p("P04", "Leftover and deferred checks accept exactly consistent data",
  "The final check of leftovers accepts exactly when both commitments they carry are the ones determined by the circuit, the recorded point and the recorded challenges; the check of deferred values accepts exactly when all the claimed values and relations hold. Replacing any single carried element (a challenge by one that expands differently) makes the check fail, and the byte encodings of both distinguish any two values that differ in an encoded element and have a length depending only on the parameter size.",
  ["inputs", "fault_sequences"], "all leftovers and deferred values, each component replaced",
  "Tests only check honest data.",
  ["src/proofs.rs"],
  [("leftovers check", "src/proofs.rs: Leftovers::verify, to_bytes, dummy"), ("deferred check", "src/proofs.rs: Deferred::verify, compute, to_bytes, dummy")],
  ["verdicts and encodings vs direct recomputation"])

p("P05", "No proof of an unsatisfied circuit is accepted",
  "When the assignment violates any multiplication gate or linear constraint of the circuit, or the public inputs, no proof made from it is accepted by the verification procedure: neither what the honest prover produces (it may refuse) nor what a prover produces that follows the protocol but lies about any subset of commitments and claimed values. This holds for every position of the violated constraint, including the first and last gate and constraint, and a circuit too large for the parameters is never accepted. Nor is a step accepted in the end that carries on from false leftovers.",
  ["inputs", "programs"], "all circuits, all single and multiple constraint violations",
  "No test attempts to prove a false statement.",
  ["src/proofs.rs", "src/synthesis.rs"],
  [("constraint polynomial check", "src/proofs.rs: Proof::verify t(X) identity"), ("synthesis", "src/synthesis.rs")],
  ["verdict on proofs of perturbed assignments"])

p("P06", "Public parameters are well formed, unrelated and correctly sized",
  "Creating parameters of any supported size yields exactly the recorded number of generators, every one a non-identity point on the curve, all pairwise distinct and distinct up to sign and endomorphism (also between separately created parameters), each with matching recorded coordinates, and the recorded sizes are consistent with each other. Evaluating a committed polynomial at a point follows the same alignment rule as committing to it, for every length.",
  ["inputs", "configurations"], "all sizes feasible to generate, both curves, any CPU count",
  "Tests build parameters of one size and never examine them; how the slots are divided over threads depends on the size and the machine.",
  ["src/proofs.rs"],
  [("random point sampling split over threads", "src/proofs.rs: Params::new"), ("evaluation", "src/proofs.rs: Params::compute_opening")],
  ["every generator and coordinate pair of every created parameter set; openings vs direct evaluation"])

p("P07", "Verification of arbitrary proof data terminates with a verdict, never a crash",
  "Whatever the contents and lengths of a proof, of old leftovers, of deferred values and of the input list - truncated, extended, empty, identity or zero values included - verification returns a rejection or an error and does not panic, overflow or loop. Well-formed but wrong data is likewise only ever rejected.",
  ["inputs", "fault_sequences"], "all shapes and contents of proof data from an untrusted peer",
  "No test feeds malformed proof data.",
  ["src/proofs.rs", "src/recursion.rs"],
  [("shape validation", "src/proofs.rs: is_well_formed and length checks in Proof::verify, Leftovers::verify, Deferred::verify")],
  ["panic monitor around every verification call"])

p("P08", "Every prover message binds all later challenges",
  "In verification, each challenge depends on every message sent before it: two transcripts that differ in any earlier commitment, claim or round message yield different subsequent challenges, and no message affects a challenge drawn before it. The challenges recomputed by the verifier equal those the prover used, for every proof.",
  ["inputs", "histories"], "all proofs and all single-message alterations",
  "No test looks at challenges.",
  ["src/proofs.rs", "src/util.rs", "src/rescue.rs"],
  [("transcript absorption", "src/util.rs: append_point, append_scalar, get_challenge; src/proofs.rs: Proof::new, Proof::verify")],
  ["challenges exposed by the deferred values and new leftovers after altering one message"])

p("P09", "The opening argument accepts exactly the openings that satisfy its equations",
  "For any number of polynomials opened together (committed at the left or the right edge of the basis, of any degree up to its size, at equal or different points), the prover's opening is accepted by the verifier, both derive the same challenges, fork values and folded basis, and both leave the transcript in the same state. Conversely, an opening whose rounds, last scalars, folded basis, claimed values, points or commitments are altered is accepted only if every instance still satisfies its two folding equations under the challenges drawn; one false instance among several suffices for refusal, and alterations that cancel between instances are refused too.",
  ["inputs", "fault_sequences"], "all sets of opened polynomials and points, all alterations of the opening and of its claims",
  "Tests open the five polynomials of honest proofs at random points; an equation that is skipped for one instance, a zero scalar or an equal point is not noticed.",
  ["src/proofs.rs"],
  [("opening rounds", "src/proofs.rs: MultiPolynomialOpening::new_proof"), ("final equations", "src/proofs.rs: MultiPolynomialOpening::verify_proof")],
  ["verdict, challenges, basis and transcript state returned by prover and verifier"], hook="constructor for an opening claim (guarded)")

p("Z01", "The recursion step circuit accepts every honest step",
  "For every inner circuit and payload, the step circuit that verifies a previous proof is satisfied by the honest witness, both in the base case and when the previous proof, leftovers and deferred values are valid. The size of the step circuit and its public-input layout are the same in both cases and do not depend on witness values.",
  ["programs", "histories"], "all inner circuits, payloads and valid previous proofs, both curve orders",
  "The only end-to-end test is ignored because of its cost and exercises one inner circuit.",
  ["src/recursion.rs", "src/gadgets/ecc.rs"],
  [("in-circuit verifier", "src/recursion.rs: VerificationCircuit"), ("recursive proof assembly", "src/recursion.rs: RecursiveProof")],
  ["satisfaction of the step circuit with honest previous proofs"], hook="constructor for a recursive proof from parts (guarded)")

p("Z02", "The recursion step circuit rejects every invalid previous step",
  "When the previous proof, its public payload, its leftovers or its deferred values are altered in any component, the step circuit outside the base case is not satisfied, or the alteration surfaces in the values it defers to the next verifier; the circuit's public outputs outside the base case are exactly those the native verifier derives from the previous proof, and its payload is related to the previous payload as the inner circuit demands. The base-case flag cannot be used to smuggle in a non-base payload. The native verifier of a recursive proof refuses a step that leaves false leftovers or false deferred values behind.",
  ["inputs", "fault_sequences", "histories"], "all single-component alterations of a valid previous step",
  "No test feeds an invalid previous step.",
  ["src/recursion.rs"],
  [("in-circuit checks conditional on the base case", "src/recursion.rs: equal_unless_base_case, num_equal_unless_base_case, verify_proof, verify_deferred, verify_inner_product"), ("outer checks", "src/recursion.rs: RecursiveProof::verify")],
  ["satisfaction verdict after one alteration"], hook="constructor for a recursive proof from parts (guarded)")

p("T01", "Parallel routines are race-free and independent of processor count",
  "Multi-exponentiation, polynomial multiplication, inner products, basis folding, batch inversion and proving give results that do not depend on how many processors are available or how threads are scheduled. They perform no data race, out-of-bounds access or arithmetic overflow on any input size.",
  ["schedules", "configurations", "inputs"], "all CPU counts, thread schedules and input sizes (including sizes below the thread count)",
  "Tests run at one CPU count and one size and cannot observe races.",
  ["src/util.rs", "src/proofs.rs", "src/fields/mod.rs"],
  [("scoped-thread work splitting", "src/util.rs: multiexp, parallel FFT, parallel_generator_collapse, compute_inner_product; src/proofs.rs: Params::new, commit")],
  ["results under varied CPU affinity and background load; ThreadSanitizer, overflow checks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
