#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FIELDS = "bn256 Fq/Fr, bls12-381 Fq/Fr, pluto/eris Fp/Fq, secp256k1 Fp/Fq, secp256r1 Fp/Fq (and, as aliases, grumpkin and secq256k1)"
HOOK = "cfg(halo2curves_verif): src/verif.rs instantiates the same field/curve macros over tiny primes so whole state spaces can be enumerated"

p("C01", "Prime-field arithmetic equals arithmetic of integers modulo p",
  "For every prime field of the library and for all of its elements, add, sub, neg, double, mul, square, cube, exponentiation (variable- and constant-time), sum and product return exactly the result of the same operation on integers modulo the field's prime, in all operator forms (by value, by reference, assigning). Results are always fully reduced, so two equal elements compare equal, hash equal and encode equal. The generic backend and the assembly backend agree.",
  ["inputs", "histories", "configurations"],
  "all elements / pairs / operation sequences, each field ("+FIELDS+"), every limb count, generic and asm+table builds",
  "The tests sample random elements and a handful of constants; carries, borrows and the final conditional subtraction are decided by operands a random 256-bit draw practically never hits, and the asm path has separate carry chains.",
  ["derive/src/field/arith.rs", "derive/src/field/asm/limb4.rs", "derive/src/field/mod.rs", "src/arithmetic.rs"],
  [("Montgomery multiplication/reduction, conditional subtraction", "derive/src/field/arith.rs"), ("x86-64 assembly backend", "derive/src/field/asm/limb4.rs"), ("adc/sbb/mac", "src/arithmetic.rs")],
  ["ff::Field / ff::PrimeField operators", "to_repr"], HOOK)
p("C02", "Inversion returns the unique inverse of nonzero elements and nothing for zero",
  "For every element of every prime field and of every quadratic, sextic and dodecic extension field, invert yields a value exactly when the element is nonzero, and then the product with the input is one. The public modular inverter returns, for any odd modulus and any value below it, the inverse modulo that modulus when it exists and nothing when value and modulus share a factor.",
  ["inputs", "configurations"], "all elements of all fields; all odd moduli and values (bounded) for the generic inverter",
  "Random elements exercise only typical division-step traces of the Bernstein-Yang iteration; sign, carry and termination corner cases (0, 1, p-1, powers of two, values sharing factors) need enumeration.",
  ["src/ff_ext/inverse.rs", "src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs", "derive/src/field/mod.rs"],
  [("Bernstein-Yang safegcd inverter", "src/ff_ext/inverse.rs"), ("norm-based inversion in towers", "src/ff_ext/quadratic.rs, src/ff_ext/cubic.rs")],
  ["Field::invert", "BYInverter::invert"], HOOK)
p("C03", "Square roots and quadratic characters are exact",
  "For every element a of a prime field or of a quadratic extension used as a curve's coordinate field, sqrt returns some r with r*r=a exactly when a is a square (zero included) and nothing otherwise. legendre returns 0 for zero, 1 for nonzero squares and -1 for non-squares, the residue predicates agree with it, and for prime fields sqrt_ratio and sqrt_alt satisfy the documented contract of the ff crate including num=0 and div=0. The public Jacobi symbol routine equals the mathematical Jacobi symbol for every odd modulus.",
  ["inputs", "configurations"], "all elements of all fields; all numerators and odd denominators (bounded) for the Jacobi routine",
  "Tests square random elements and take roots; non-squares, zero, base-field elements embedded in the extension and pure-imaginary elements follow separate branches that random draws miss.",
  ["src/ff_ext/jacobi.rs", "src/ff_ext/mod.rs", "src/ff_ext/quadratic.rs", "derive/src/field/mod.rs", "src/bls12381/fq2.rs", "src/bn256/fq2.rs", "src/pluto_eris/fp2.rs"],
  [("Tonelli-Shanks / p=3 mod 4 exponent", "derive/src/field/mod.rs"), ("Algorithms 9 and 10 for quadratic extensions", "src/ff_ext/quadratic.rs"), ("binary-GCD Jacobi symbol", "src/ff_ext/jacobi.rs")],
  ["Field::sqrt", "Field::sqrt_ratio", "Legendre::legendre", "ff_ext::jacobi::jacobi"], HOOK)
p("C04", "Field encodings are canonical: exact round trip, everything else rejected",
  "For every prime field and quadratic extension field, the fixed-size byte encodings (to_repr, and to_bytes in the field's declared endianness) are the base-256 digits of the canonical integer representative(s), and decoding is their exact inverse. Decoding any byte string that encodes an integer not below the modulus, in any component, returns 'none' - it never panics, wraps or yields an element.",
  ["inputs"], "all byte strings of the encoding size, all elements",
  "Tests round-trip random elements; rejection at the modulus boundary, per-limb comparison borrows and malformed second components are not exercised.",
  ["derive/src/field/mod.rs", "src/derive/field/tower.rs", "src/serde.rs"],
  [("from_repr/from_bytes + is_less_than_modulus", "derive/src/field/mod.rs"), ("component-wise decoding", "src/derive/field/tower.rs"), ("Endian", "src/serde.rs")],
  ["PrimeField::from_repr/to_repr", "from_bytes/to_bytes", "EndianRepr"], HOOK)
p("C05", "Integer and wide-byte conversions reduce modulo p",
  "Converting a bool, u64, u128, arbitrary limb array (from_raw), decimal string, or a uniform byte string of any supported width into a prime field yields the element congruent to that (little-endian) integer, with or without the precomputed small-integer table; for quadratic extensions the u64 and uniform-byte conversions act component-wise as documented. random draws consume RNG bytes and equal the wide reduction of those bytes.",
  ["inputs", "configurations"], "all integers / byte strings of each supported width; builds with and without the bn256 table",
  "Tests compare a few random conversions; values straddling table bounds, limb bounds, multiples of p and the upper half of wide inputs are specific.",
  ["derive/src/field/mod.rs", "src/derive/field/common.rs", "src/derive/field/tower.rs", "src/bn256/fr.rs", "script/bn256.py"],
  [("Montgomery conversion by R2/R3", "derive/src/field/mod.rs"), ("FR_TABLE lookup", "src/bn256/fr.rs")],
  ["From<u64>", "from_u128", "from_raw", "from_str_vartime", "FromUniformBytes", "Field::random"], HOOK)
p("C06", "Comparison, parity, sign, bit and selection views agree with the integer value",
  "For every field element, ordering is the order of canonical integers (for quadratic extensions lexicographic with the highest coefficient first), is_odd is the RFC 9380 sgn0 parity, lexicographically_largest holds exactly when the element is greater than its negation, to_le_bits/char_le_bits are the bits of the value/modulus, and is_zero, is_zero_vartime, ct_eq, ==, conditional_select/assign/swap and Hash are mutually consistent, in every tower level.",
  ["inputs"], "all elements and pairs of every prime and extension field",
  "Tests never compare these predicates with the integer value at the boundaries where they change ((p-1)/2, (p+1)/2, limb boundaries, a zero coefficient next to a nonzero one).",
  ["derive/src/field/mod.rs", "src/derive/field/common.rs", "src/derive/field/tower.rs", "src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs"],
  [("Ord, is_odd, lexicographically_largest, ct_eq", "derive/src/field/mod.rs"), ("tower predicates", "src/derive/field/tower.rs, src/ff_ext/*.rs")],
  ["Ord", "PrimeField::is_odd/is_even", "lexicographically_largest", "PrimeFieldBits", "ConstantTimeEq", "ConditionallySelectable"], HOOK)
p("C07", "Published field and curve constants satisfy their defining equations",
  "For every prime field, MODULUS, NUM_BITS, CAPACITY, S, ROOT_OF_UNITY (exact order 2^S), its inverse, DELTA, TWO_INV, MULTIPLICATIVE_GENERATOR and ZETA (a primitive cube root of one wherever p = 1 mod 3) satisfy their defining equations. For every curve the generator lies on the curve with the published a and b, has order exactly the scalar field's prime, and the curve order follows the published cofactor relations.",
  ["configurations"], "every constant of every field and curve",
  "A finite set, but the suite checks only part of it (and for some curves not at all); every check here is a closed computation over all of them.",
  ["derive/src/field/mod.rs", "src/bn256", "src/bls12381", "src/pluto_eris", "src/secp256k1", "src/secp256r1", "src/secq256k1", "src/grumpkin", "src/pasta"],
  [("constants computed by the derive macro and hard-coded per curve", "derive/src/field/mod.rs, src/*/curve.rs")],
  ["PrimeField consts", "CurveAffine::a/b/generator"])
p("C08", "Extension-field arithmetic is polynomial arithmetic modulo the tower relations",
  "For all elements of every quadratic, sextic and dodecic extension, add, sub, neg, double, mul, square, norm, conjugate, multiplication by the non-residue, and every sparse multiplication used by the pairings return the value given by schoolbook polynomial arithmetic over the integers modulo p and the published tower relations.",
  ["inputs"], "all elements and pairs; every sparse pattern (zero/nonzero per coefficient)",
  "Tests use random dense elements, where a formula wrong only when particular coefficients are zero, equal or extreme cannot show.",
  ["src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs", "src/bn256/fq2.rs", "src/bn256/fq6.rs", "src/bn256/fq12.rs", "src/bls12381/fq2.rs", "src/bls12381/fq6.rs", "src/bls12381/fq12.rs", "src/pluto_eris/fp2.rs", "src/pluto_eris/fp6.rs", "src/pluto_eris/fp12.rs"],
  [("Karatsuba/Chung-Hasan formulas and their per-curve overrides", "src/ff_ext/*.rs, src/*/f?2.rs, f?6.rs, f?12.rs")],
  ["Field operators on QuadExtField/CubicExtField", "mul_by_nonresidue", "mul_by_014/034/01/1"])
p("C09", "Frobenius maps and cyclotomic squaring are what they claim",
  "For every extension element x and every power k >= 0 (also beyond the extension degree), frobenius_map(k) equals x^(p^k); conjugation of the dodecic extension equals frobenius_map(6). On the cyclotomic subgroup, cyclotomic_square equals square and conjugation equals inversion.",
  ["inputs"], "all elements, all powers; all cyclotomic elements",
  "The suite checks powers 0..13 on a few random elements (for some towers) and cyclotomic squaring on a few; coefficient tables indexed by power and zero-coefficient patterns need enumeration.",
  ["src/bn256/fq6.rs", "src/bn256/fq12.rs", "src/bls12381/fq6.rs", "src/bls12381/fq12.rs", "src/pluto_eris/fp6.rs", "src/pluto_eris/fp12.rs", "src/derive/field/tower.rs"],
  [("FROBENIUS_COEFF tables", "src/*/f?6.rs, f?12.rs"), ("impl_cyclotomic_square", "src/derive/field/tower.rs")],
  ["ExtField::frobenius_map", "cyclotomic_square", "conjugate"])
p("C10", "Curve point operations implement the elliptic-curve group law in every case",
  "For all points P, Q of a curve in any mix of affine and projective representations (any projective scaling), P+Q, P-Q, -P, 2P, the assigning forms and iterator sums equal the chord-and-tangent group law, including P=Q, P=-Q and the identity on either side or both; results are valid points of the curve.",
  ["inputs", "histories"], "all pairs of points, all projective representatives, all operation sequences, all curves (a=0 and a!=0, prime-field and extension-field coordinates)",
  "Tests use random points plus a few special cases with z=1; exhaustive special cases over representatives are out of reach of sampling on 256-bit curves, and need a small-field instance of the same code.",
  ["src/derive/curve.rs", "src/derive/mod.rs"],
  [("complete projective formulas (a=0 and general)", "src/derive/curve.rs"), ("operator forwarding macros", "src/derive/mod.rs")],
  ["Group/Curve operators on every point type"], HOOK)
p("C11", "Scalar multiplication is the action of the scalar field on the group",
  "For every point P and scalar k, k*P (projective or affine operand, by value, reference or assigning) equals P added to itself k times for the canonical integer k; hence 0*P and k*identity are the identity, (r-1)*P = -P on the prime-order subgroup, and (k+l)*P = k*P + l*P, (k*l)*P = k*(l*P).",
  ["inputs"], "all scalars and points; all curves",
  "Tests use random scalars; scalars with boundary bit patterns (0, 1, r-1, powers of two, all-ones bytes) and all representatives of the point are not enumerated.",
  ["src/derive/curve.rs"], [("double-and-add over the canonical little-endian representation", "src/derive/curve.rs")],
  ["Mul<Scalar> for curve and affine points"], HOOK)
p("C12", "Affine, projective and Jacobian views describe the same point",
  "Conversions between affine, projective and Jacobian coordinates preserve the point, equality does not depend on the representative, the identity maps to the identity, and batch normalisation of any slice (empty, with identities and repeated points at any positions) equals element-wise normalisation. new_jacobian and from_xy accept exactly coordinates on the curve, and is_on_curve holds exactly for points satisfying the curve equation (or the identity).",
  ["inputs", "histories"], "all points and representatives, all coordinate tuples, all slices with identities at all positions",
  "Tests normalise random batches with at most one identity; positions of identities and non-unit denominators matter to the shared-inversion trick.",
  ["src/derive/curve.rs"], [("batch_normalize, to_affine, new_jacobian, ct_eq, is_on_curve", "src/derive/curve.rs")],
  ["Curve::batch_normalize/to_affine", "CurveExt::new_jacobian/jacobian_coordinates", "CurveAffine::from_xy/is_on_curve", "=="], HOOK)
p("C13", "Compressed point encodings are a canonical bijection",
  "For every point on a curve, decoding its compressed encoding returns the point; and every byte string accepted by the decoder is the encoding of the returned point. All other strings - wrong or superfluous flag bits, non-canonical or off-curve x, malformed identity - are rejected with 'none', never a panic.",
  ["inputs"], "all points; all byte strings of the compressed size; each flag layout and endianness",
  "Tests round-trip random points and flip a few flag combinations; the cross product of flag bits, x classes (zero, non-canonical, off-curve, in each component) and sign is not enumerated.",
  ["src/serde.rs", "src/derive/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs"],
  [("flag handling and validity rules", "src/serde.rs"), ("sign/resolve", "src/derive/curve.rs, src/bls12381/g1.rs, g2.rs")],
  ["GroupEncoding::to_bytes/from_bytes"], HOOK)
p("C14", "Uncompressed point encodings are a canonical bijection",
  "For every affine point (identity included) decoding its uncompressed encoding returns the point, and the checked decoder accepts exactly the strings that encode canonical coordinates of a point on the curve or the identity; anything else is rejected with 'none', never a panic. The unchecked decoder agrees with the checked one wherever the latter accepts.",
  ["inputs"], "all points; all byte strings of the uncompressed size",
  "Tests round-trip random points and the identity; non-canonical coordinates and off-curve pairs at boundaries are not enumerated.",
  ["src/derive/curve.rs", "src/derive/field/tower.rs"], [("from_uncompressed(_unchecked)", "src/derive/curve.rs")],
  ["UncompressedEncoding"], HOOK)
p("C15", "Raw (in-memory) serialization round-trips and its checked readers validate",
  "For every field element and point, to_raw_bytes/write_raw followed by any raw reader (checked or unchecked, from slice or stream) returns the same object and consumes exactly its bytes. The checked raw readers accept only reduced limbs and, for points, coordinates on the curve - from a slice (None) and from a stream (InvalidData) alike.",
  ["inputs"], "all objects; all byte strings of the raw size and of other sizes",
  "Tests round-trip random objects and check one off-curve case; limb patterns just at or above the modulus in each coordinate, wrong lengths and stream-side validation are not enumerated.",
  ["src/serde.rs", "src/derive/curve.rs", "derive/src/field/mod.rs", "src/derive/field/tower.rs"], [("SerdeObject impls", "derive/src/field/mod.rs, src/derive/curve.rs, src/derive/field/tower.rs")],
  ["SerdeObject"], HOOK)
p("C16", "Raw stream I/O is robust to short reads, partial writes and errors",
  "Reading an object from a stream gives the same result however the stream splits the bytes, and writing gives the same bytes however the sink accepts them. If the stream ends or fails at any byte, read_raw returns that error (unexpected end of file or the stream's own error) and never a value; if the sink fails at any byte, write_raw returns the sink's error; interrupted calls are retried.",
  ["fault_sequences"], "every truncation point, every chunking (bounded), an error injected at every call, interrupts at every call, for every field and point type",
  "The tests only use in-memory buffers that never split, fail or end early.",
  ["src/serde.rs", "derive/src/field/mod.rs", "src/derive/field/tower.rs", "src/derive/curve.rs"], [("read_raw/write_raw", "derive/src/field/mod.rs, src/derive/curve.rs, src/derive/field/tower.rs")],
  ["SerdeObject::read_raw/write_raw"])
p("C17", "Serde implementations round-trip and reject malformed data",
  "With serde support enabled, serializing any field element, extension element or point to a human-readable or binary format and deserializing gives the same value; human-readable forms are the hex of the canonical encoding. Deserializing data that is not the canonical encoding of a valid value (wrong length, non-hex, non-canonical integer, invalid point) returns an error, never a panic or a value.",
  ["inputs"], "all values; all truncations, extensions and byte-level mutations from the alphabet, JSON and binary formats",
  "Tests round-trip random values only; error paths are untested.",
  ["src/derive/field/common.rs", "src/derive/curve.rs", "src/ff_ext/quadratic.rs", "src/serde.rs"], [("Serialize/Deserialize impls", "src/derive/field/common.rs, src/derive/curve.rs")],
  ["serde::Serialize/Deserialize"])
p("C18", "Endomorphism and scalar decomposition are exact and short",
  "For every curve advertising the endomorphism, endo(P) equals lambda*P for the scalar field's published cube root of unity (or its square, fixed per curve) for every P in the prime-order subgroup. For every scalar k the decomposition returns (k1, s1, k2, s2) with the recombination +-k1 +- k2*lambda congruent to k modulo the group order, where both halves fit the returned 128-bit integers.",
  ["inputs"], "all scalars and points of each curve with the endomorphism",
  "Tests decompose random scalars; the rounding estimate and the sign/size test fail only near lattice-cell boundaries.",
  ["src/derive/curve.rs", "src/arithmetic.rs", "src/bn256/curve.rs", "src/bls12381/g1.rs", "src/grumpkin/curve.rs", "src/secp256k1/curve.rs", "src/secq256k1/curve.rs", "src/pasta/mod.rs"],
  [("endo! macro and lattice parameters", "src/derive/curve.rs, src/*/curve.rs"), ("mul_512", "src/arithmetic.rs")],
  ["CurveExt::endo", "CurveEndo::decompose_scalar"], "cfg(halo2curves_verif) re-exports the decomposition trait, which is in a private module")
p("C19", "Multi-scalar multiplication equals the naive sum for every shape of input",
  "For every list of scalars and equally long list of affine points, the serial (starting from the identity), parallel and best MSM entry points return the sum of scalar_i * point_i: for every length from zero up, zero and maximal scalars, repeated, opposite and cancelling points, identity points, and any mixture. The parallel and best entry points panic on length mismatch instead of returning a value.",
  ["inputs"], "all lists of (scalar, point) pairs; lengths crossing every window-size and batching threshold",
  "Tests compare two implementations on random distinct points at powers of two; bucket collisions, doublings, cancellations, identities and non-power-of-two lengths in the batched-affine path do not occur in random data.",
  ["src/msm.rs"], [("Booth recoding, bucket schedule, batched affine addition", "src/msm.rs")],
  ["msm_serial, msm_parallel, msm_best"], HOOK)
p("C20", "Parallel MSM and FFT results do not depend on threads or scheduling",
  "For every thread-pool size and every execution order or interleaving of the parallel tasks, the MSM entry points and the FFT return the same result as the mathematical definition, without deadlock or panic; concurrent calls from several threads, including first use of lazily initialised tables, do not influence each other.",
  ["schedules", "configurations"], "all thread-pool sizes (bounded), all task orders and bounded-preemption interleavings of the tasks",
  "The tests run on one machine-dependent pool size with one OS schedule; splitting by thread count and nested fork-join orders are never varied.",
  ["src/msm.rs", "src/fft.rs", "src/derive/curve.rs"], [("chunking by rayon::current_num_threads, rayon::scope/join/par_iter", "src/msm.rs, src/fft.rs"), ("lazy_static constants", "src/derive/curve.rs")],
  ["msm_parallel, msm_best", "best_fft"], "the harness substitutes the rayon crate by a controlled scheduler ([patch.crates-io]); no source hook needed")
p("C21", "FFT equals the DFT and is inverted by the inverse root",
  "For every k from 0 up, every vector of length 2^k over a field or a group, and omega a 2^k-th primitive root of unity, best_fft replaces the vector by its evaluations at the powers of omega in natural order; applying it again with the inverse root returns 2^k times the input. A length that is not 2^k panics instead of returning.",
  ["inputs"], "all vectors, all k up to the two-adicity (bounded), all thread counts, field and curve elements",
  "Tests run a few random sizes with one thread count and only check inverse consistency.",
  ["src/fft.rs"], [("bit reversal, iterative and recursive butterflies, twiddles", "src/fft.rs")],
  ["best_fft", "recursive_butterfly_arithmetic"], HOOK)
p("C22", "The pairings are bilinear and non-degenerate, and multi-pairings are products",
  "For each pairing engine and all scalars a, b: e(a*P, b*Q) = e(P, Q)^(ab); the pairing of the generators is not one, and pairing with the identity on either side is one. For every list of pairs (empty, with identities, repetitions and opposites in any positions) the multi Miller loop followed by final exponentiation equals the product of the individual pairings, and all entry points (either argument order) agree.",
  ["inputs", "histories"], "all scalars and points in the prime-order subgroups; all term lists (bounded length)",
  "Tests check bilinearity on a few random scalars and products of two or three random terms; identities in the middle of a list and boundary scalars are not enumerated.",
  ["src/derive/pairing.rs", "src/bn256/engine.rs", "src/bls12381/engine.rs", "src/pluto_eris/engine.rs"],
  [("Miller loop, line functions, final exponentiation", "src/derive/pairing.rs, src/*/engine.rs")],
  ["Engine::pairing", "MultiMillerLoop", "MillerLoopResult::final_exponentiation", "PairingCurveAffine::pairing_with"])
p("C23", "The pairing target group is a group of prime order",
  "For every nonzero extension element f, final exponentiation yields f^(c*(p^12-1)/r) for a fixed exponent c prime to r, so it is multiplicative and its image has order dividing r. On target-group elements add/sub/neg/double/scalar multiplication/sum/identity/equality/random are the corresponding group operations, with k*g depending only on k modulo r.",
  ["inputs"], "all nonzero extension elements; all target-group elements and scalars",
  "Tests multiply a few random elements; multiplicativity, the order of the image and the scalar action at boundary scalars are not checked.",
  ["src/derive/pairing.rs", "src/bn256/engine.rs", "src/bls12381/engine.rs", "src/pluto_eris/engine.rs"],
  [("impl_gt", "src/derive/pairing.rs"), ("final exponentiation chains", "src/*/engine.rs")],
  ["Gt operators", "MillerLoopResult::final_exponentiation"])
p("C24", "Hash-to-curve follows RFC 9380 and always lands in the prime-order subgroup",
  "For every domain prefix (up to the supported length) and message, hash_to_curve is deterministic, never panics and returns a point on the curve in the prime-order subgroup equal to the RFC 9380 construction for the curve's suite (expand_message_xmd, hash_to_field, the SSWU or SvdW map, isogeny, cofactor clearing). The map to the curve is total: every field element, including the exceptional ones, maps to a curve point with the specified sign.",
  ["inputs"], "all messages and domain prefixes (bounded lengths); all field elements as map input",
  "Tests use five RFC vectors per curve; message/DST lengths around hash-block boundaries and exceptional field elements (u=0, denominators zero, zero coefficients) do not occur.",
  ["src/hash_to_curve.rs", "src/bn256/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs", "src/secp256k1/curve.rs", "src/secp256r1/curve.rs", "src/grumpkin/curve.rs", "src/pluto_eris/curve.rs", "src/secq256k1/curve.rs"],
  [("expand_message, hash_to_field, sswu/svdw maps", "src/hash_to_curve.rs"), ("suites and isogenies", "src/*/curve.rs, src/bls12381/g?.rs")],
  ["CurveExt::hash_to_curve"], HOOK)
p("C25", "Cofactor clearing and subgroup membership are exact",
  "For every point P on a curve, clear_cofactor(P) is a fixed multiple of P that lies in the prime-order subgroup, is_torsion_free(P) holds exactly when r*P is the identity, and into_subgroup, where provided, returns a point exactly when the input is in the subgroup, unchanged. Subgroup checks reject every point with a component outside the subgroup.",
  ["inputs"], "all points on each curve, inside and outside the subgroup (cofactor torsion combined with subgroup points)",
  "Tests check clearing on random points; small-order points and sums of torsion and subgroup points, where an endomorphism-based check may be fooled, are not enumerated.",
  ["src/bn256/curve.rs", "src/bls12381/g1.rs", "src/bls12381/g2.rs", "src/pluto_eris/curve.rs"],
  [("endomorphism based checks and clearing", "src/bn256/curve.rs, src/bls12381/g1.rs, g2.rs, src/pluto_eris/curve.rs")],
  ["CofactorGroup::clear_cofactor/is_torsion_free/into_subgroup"])
p("C26", "Random sampling yields valid elements for every RNG stream",
  "Whatever bytes the supplied generator produces, sampling a random field, extension, curve or target-group element is a deterministic function of the bytes consumed and returns a valid element: reduced, on the curve and in the prime-order subgroup, and both signs of the y coordinate are reachable.",
  ["inputs", "histories"], "all RNG byte streams (bounded alphabet of draws, including degenerate constant streams followed by others)",
  "Tests use one or a few seeded generators; degenerate streams (all-zero, all-ones, values hitting x=0 or non-residues repeatedly) are not exercised.",
  ["src/derive/curve.rs", "derive/src/field/mod.rs", "src/ff_ext/quadratic.rs", "src/ff_ext/cubic.rs", "src/derive/pairing.rs"],
  [("random() loops", "src/derive/curve.rs, derive/src/field/mod.rs")], ["Field::random", "Group::random", "affine random"], HOOK)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
