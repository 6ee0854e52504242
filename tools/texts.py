"""Properties, bounds and assumptions.  `python tools/texts.py` writes properties.jsonl,
MANIFEST.json and bounds.json from this one place."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "tf_encrypted/protocol/"
A3 = [P + "aby3/aby3.py", P + "aby3/aby3_tensors.py"]
SH = "symbolic execution of the traced protocol graph (real Python code building a TensorFlow graph, every graph node encoded in bit-vectors), share-by-share lemmas and final equality decided by z3/kissat/cvc5"
NA = {}
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, bounds, tech=SH, note="", state=None, assumptions=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, bounds=bounds, tech=tech, note=note, state=state or [], assumptions=assumptions or []))


prop("P01", "Replicated sharing and revealing is the identity",
     "A value shared among the three parties of the replicated protocol, by any means of defining private values, and then revealed is the encoded value at every party. Every two parties hold identical copies of the share they have in common.",
     ["inputs", "configurations"], "all inputs, all random masks, arithmetic and boolean sharing, every supported share ring",
     "tests reveal a few constants with one seed; a share placed at the wrong party or a wrong sign can cancel for some randomness only",
     A3, ["share generation", "reveal", "private variables, inputs, constants and placeholders", "reshare"],
     "tensors of 1-4 elements; rings of 8, 64 and 128 bits and booleans; unscaled and scaled values; every value and mask symbolic.")
prop("P02", "Linear operations on replicated shares are exact",
     "Adding, subtracting, negating and summing private and public tensors yields exactly the same operation on the plaintexts modulo the ring size, including broadcasting and scaled constants. The scale marker and sharing kind of the result are those of the operands.",
     ["inputs", "configurations"], "all plaintexts, all masks, all combinations of private and public operands",
     "tests compare decoded floats of a few values with tolerance; wrap-around, broadcasting and one-party corrections are not reached",
     A3, ["add/sub/negative/reduce_sum dispatch and share-wise kernels"],
     "tensors up to 2x3 elements, ring sizes 64 and 128 bits, every plaintext and mask symbolic.")
prop("P03", "Products on replicated shares are exact up to one truncation step",
     "Multiplication, matrix product, squaring, powers, products over an axis and two-dimensional convolution of unscaled private and public tensors are exact modulo the ring size. On scaled operands whose true product fits the stated headroom the result differs from the exactly scaled-down product by at most one unit in the last place.",
     ["inputs", "configurations"], "all plaintexts (scaled: all whose product fits the headroom), all masks, all combinations of private and public operands, strides and paddings",
     "tests sample a handful of small products with a tolerance far above one unit; mask-dependent truncation errors appear with tiny probability",
     A3 + [P + "aby3/fp.py"], ["mul, matmul, conv2d and their resharing and truncation paths"],
     "tensors up to 2x3, matmul up to 2x3x2, conv2d inputs up to 2x3x4 with kernels up to 3x3 and 2 channels, 64- and 128-bit rings; scaled products assumed within +-2^62 (2^126).")
prop("P04", "Truncation of shared values is off by at most one unit",
     "Dividing a shared value by a power of two yields the floor of the quotient or an immediate neighbour of it, for every value in the stated headroom and every choice of randomness. For public values the result is exactly the floor.",
     ["inputs", "configurations"], "all values in the headroom, all masks and helper randomness, listed amounts",
     "wrong carries need particular masks (probability 2^-16 to 2^-60 per element), far below what sampled tests hit",
     A3, ["truncate", "truncate of values with clear top bit", "local truncation"],
     "2 elements, 64- and 128-bit rings, shift amounts 1 to 47; values in [-2^62, 2^62) or [0, 2^63) where the method requires it; the two-party local truncation under its documented condition that the two additive shares do not overflow.")
prop("P05", "Boolean operations on replicated shares are exact",
     "Bitwise gates, shifts, bit gathering, bit reversal, bit decomposition, parallel-prefix addition and carry computation on boolean-shared values yield exactly the plaintext operation for every element. Every party ends with consistent copies.",
     ["inputs", "configurations"], "all plaintexts and masks, every topology, bit positions and widths enumerated per case",
     "tests evaluate fixed vectors; carry chains need specific bit patterns to go wrong",
     A3, ["and/or/xor/not gates", "shifts", "bit gather/split/reverse/bits/xor_indices", "prefix adders", "carry"],
     "1-2 elements per tensor (2x2 broadcast for gates), widths 1, 8, 64 and 128 bits, every plaintext and mask symbolic.")
prop("P06", "Conversions between arithmetic and boolean sharing preserve the value",
     "Converting a shared value between arithmetic and boolean sharing, extracting a bit or the sign, injecting a shared bit into the arithmetic ring and multiplying by a shared bit give the plaintext result for every value. Narrowing a shared value keeps it modulo the smaller ring.",
     ["inputs", "configurations"], "all plaintexts and all masks",
     "carry propagation through all bits depends on the masks; tests take a few values with one mask each",
     A3, ["a2b, b2a, bit extraction, msb, bit injection, multiplication by a bit, casts"],
     "2-3 elements, 64-bit rings (128 for a2b, b2a, msb), bit positions listed per case, every plaintext and mask symbolic.")
prop("P07", "Comparisons on replicated shares give the exact order",
     "Comparing private and public tensors for less, greater, less-or-equal, greater-or-equal and equality yields the exact boolean for every pair of encoded values that fit the documented headroom. Equality with zero is exact for every value of the ring.",
     ["inputs", "configurations"], "all pairs of values in [-2^62, 2^62) (64-bit) and [-2^126, 2^126) (128-bit), all masks",
     "ties, sign boundaries and off-by-one encodings are measure-zero for sampled tests",
     A3, ["less/greater/equal families", "msb of difference", "equality circuit"],
     "2 elements per tensor, 64- and 128-bit rings, every plaintext in the headroom and every mask symbolic.")

prop("P08", "Oblivious selection, maxima, pooling and sorting are exact",
     "Selecting by a shared bit, maximum, compare-and-swap, rectification, maxima over axes, arg-max, max pooling and sorting of shared tensors give exactly the plaintext answer for every input inside the comparison headroom, including ties and negative values. Arg-max marks exactly one position and it holds the maximum.",
     ["inputs", "configurations"], "all values in [-2^62, 2^62) in any order, all masks, every axis, direction, window and padding listed",
     "tests sort a few random vectors; ties, boundary values and uneven lengths take specific inputs",
     A3, ["select, maximum, cmp_swap, relu", "reduce_max by tree and by sorting network", "argmax", "maxpool2d", "bitonic sort"],
     "tensors of 2-6 elements, sorts of 2-4 (uneven lengths included), pooling windows up to 2x2, 64-bit ring, every plaintext and mask symbolic. The loop of the sorting network is unrolled by its contract.")
prop("P09", "Structural operations only move data",
     "Reshaping, transposing, slicing, joining, splitting, gathering, scattering, tiling, padding, reversing, expanding and lowering images to columns place every element exactly where the plaintext operation places it, for private and public tensors and for every sharing kind. Filled tensors hold exactly the requested value.",
     ["inputs", "configurations"], "all element values (hence all permutations of distinct elements) and masks, the listed shapes, axes and arguments",
     "tests compare one constant array per operation, whose repeated values hide misplaced elements, and never the public or boolean variants",
     A3 + ["tf_encrypted/tensor/native.py", "tf_encrypted/tensor/int128.py", "tf_encrypted/tensor/boolfactory.py", "tf_encrypted/tensor/shared.py"],
     ["reshape/transpose/slice/concat/stack/split/gather/scatter/tile/pad/reverse/expand/im2col", "zeros and ones"],
     "tensors up to 4x6 elements, ranks up to 3 (4 for images), 64- and 128-bit rings and booleans, every plaintext and mask symbolic.")

PV = "symbolic views of every party read off the traced graph (real Python code, every node encoded in bit-vectors, shares not abstracted); message by message the solver proves secret-independence or invertibility in an unseen random value; a leak is confirmed by two runs of the real kernels"
prop("P11", "Replicated protocol servers learn nothing beyond their shares",
     "Everything an honest-but-curious server receives while the three-party replicated protocol computes is distributed independently of the secrets, given its own shares, its own randomness and whatever is deliberately revealed to it. No random mask is used for two different values, within an operation or across a sequence of operations, and no seed is expanded into two different kinds of random values.",
     ["inputs", "configurations", "histories"], "all secrets, all masks and keys; single operations, repeated operations and sequences of different operations",
     "a missing, reused or cancelled mask leaves every result correct, so no functional test can notice it",
     A3, ["zero and random sharings, pairwise keys and nonces", "resharing in mul/and/matmul/truncate", "oblivious transfer", "adders, conversions, comparisons", "sharing and reconstruction"],
     "1-4 elements per tensor, 64-bit ring (8-bit and boolean gates), the listed operations and sequences of up to 8 operations, one semi-honest server at a time; random streams ideal; timing and traffic patterns are outside.",
     tech=PV, assumptions=["that a boolean adder's result is the sum of its operands (property P05) is used as a lemma when a share of it is opened"])

PO = [P + "pond/pond.py", P + "pond/triple_sources.py", "tf_encrypted/tensor/native.py", "tf_encrypted/tensor/fixed.py"]
prop("P13", "Pond sharing and linear operations are exact",
     "A value shared between the two Pond servers, by any means of defining private variables, inputs, masked values or local computations, reconstructs to the encoded value, and an output hands exactly that value to its receiver. Adding, subtracting, negating, summing and cumulatively summing public, private and masked tensors yields the same operation on the plaintexts modulo the ring size, scaled constants included, and both servers hold the same public values.",
     ["inputs", "configurations"], "all plaintexts, all share masks, all combinations of public, private and masked operands, both orders of the two servers in the share placement",
     "tests decode a few floats with a tolerance; wrap-around, argument kinds, masked operands and the coin that swaps the shares are not covered",
     PO, ["share/reconstruct, inputs, variables, outputs, local computations", "add/sub/negative/reduce_sum/cumsum dispatch over the three tensor kinds", "mask"],
     "tensors up to 2x3 elements, 64-bit ring, low-precision and high-precision encodings, every plaintext and mask symbolic.")
prop("P14", "Pond products are exact modulo the ring size",
     "Multiplication, matrix product, squaring and two-dimensional convolution of unscaled public, private and masked Pond tensors equal the operation on the plaintexts modulo the ring size for every choice of triple. The structural image of a masked tensor (transpose, reshape, slice, index, expand, squeeze, gather, stack, concat, split, negation) still satisfies alpha plus mask equal to the value at both servers and at the producer, so products with it stay exact.",
     ["inputs", "configurations", "histories"], "all plaintexts, all shares and triples, all combinations of operand kinds, reuse of one mask in many products",
     "a wrong triple, a stale cached mask or a share computed at the wrong server shows only for operand kinds or sequences the tests do not run",
     PO, ["mul/matmul/square/conv2d over the three tensor kinds", "triple sources", "masked tensor structure", "memoized nodes"],
     "1-4 elements per tensor, matmul up to 2x2x2, conv2d inputs up to 1x1x3x3 or 1x2x2x2, 64-bit ring, strides and paddings as listed; convolution with exactly one public operand is not implemented by the repository.")
prop("P15", "Pond fixed-point truncation is off by at most one unit",
     "After a product, or an explicit truncate, of scaled Pond tensors whose double-precision value lies in the configured bound, the result is the exact quotient by the scaling factor rounded down or up, for all shares and all mask randomness; for public values it is exactly the floor. Squares, convolutions, products with constants and division by public values obey the same bound.",
     ["inputs", "configurations"], "all values within the configured bound, all shares, all statistical masks; products with operands that fit the bound",
     "the carry of the masked value and the sign correction depend on randomness; tests see the result only through a tolerance of 1e-2",
     PO + ["tf_encrypted/tensor/factory.py"], ["interactive truncation with modular inverse", "non-interactive truncation", "bounds of the fixed-point configurations", "scale bookkeeping"],
     "1-2 elements per tensor, 64-bit ring, low-precision configuration (interactive and, for the shares that satisfy its documented condition, non-interactive truncation).")
prop("P16", "Pond servers learn nothing beyond their shares",
     "Every message a Pond server or the crypto producer receives while inputs are shared, products are computed and scaled products are truncated is distributed independently of the secrets, given what it already holds. Exactly uniform for shares and masked values, and within statistical distance 2^-20 for the masked value opened in a truncation; revealed results and outputs go only where the caller directed them.",
     ["inputs", "configurations", "histories"], "all secrets, shares, triples and masks; single operations, sequences and reuse of masked tensors",
     "a missing, reused, too short or wrongly placed mask leaves every result correct, so no functional test can notice it",
     PO, ["masking and triple generation", "sharing of inputs and variables", "local computations", "truncation masks", "placement of the plaintext operations"],
     "1-4 elements per tensor, 64-bit ring, sequences of up to 7 products, one semi-honest party at a time; random streams ideal.",
     tech=PV)
prop("P17", "Pond structural operations permute, select and pad the plaintext",
     "Reshape, transpose, indexing, slicing, expand, squeeze, gather, stack, concat, split, pad, space-batch rearrangements, public equality and average pooling of public, private and masked Pond tensors equal the same operation on the plaintexts, at both servers, and keep shape and scale marker. Calling one twice with different arguments gives each call its own result.",
     ["inputs", "configurations", "histories"], "all plaintexts and shares, all listed argument forms, repeated calls with different arguments",
     "elements swapped or dropped on one share only are wrong for random data in ways that few fixed inputs reveal; memoization makes results depend on earlier calls",
     PO, ["structural dispatch over the three tensor kinds", "memoization keys", "avgpool2d and its divisor"],
     "tensors of 2-12 elements, listed argument forms, 64-bit ring; average pooling with padded windows is excluded (see DESIGN.md).")

prop("P21", "Tensor factories compute exactly in their ring",
     "Every tensor type the protocols are built on - native integers of 8 to 64 bits, 128-bit integers, booleans, integers modulo an explicit prime, the odd factory and the residue-number int100 type - implements its ring: arithmetic, products, convolutions, shifts, bit extraction, comparisons, truncation and casts equal the mathematical operation modulo the stated number, and structural operations move elements without changing them. Uniform samples take every residue from its own range and independent seed.",
     ["inputs", "configurations"], "all element values of each type, all listed argument forms including negative axes and Python numbers on either side",
     "unit tests use small positive numbers, where carries between words, lazy reductions, sign handling and residue recombination never matter",
     ["tf_encrypted/tensor/native.py", "tf_encrypted/tensor/int128.py", "tf_encrypted/tensor/int100.py", "tf_encrypted/tensor/boolfactory.py", "tf_encrypted/tensor/shared.py", "tf_encrypted/protocol/securenn/odd_tensor.py"],
     ["ring operations and lifting of numbers", "Chinese remainder decomposition, reduction and recombination", "two-word representation", "wrap-around correction of the odd type", "im2col and patches"],
     "tensors of 1-12 elements and inner products of up to 1025 (thorough: 2050) terms, every element symbolic over its whole range; int100 reduction, truncation and recombination for values within (1 - 2^-16) of half the modulus, with floating-point error bounded exactly; int100 bits() is excluded.",
     tech="symbolic execution of the traced tensor graph; bit-vector equivalence by z3/kissat/cvc5, modular and residue arithmetic by linear integer arithmetic (z3) with exact rounding-error bounds")

prop("P19", "SecureNN comparisons, selections and maxima are exact",
     "For every private, public or masked input the SecureNN protocol's sign, comparison, equality, bit logic, selection, relu, maximum, argmax and max-pooling operations return exactly the result of the plaintext operation on the same encoded values. The private comparison underneath is exact for every pair of 64-bit numbers, blinding bit and mask, and the lowest bit it yields is exact for every element of the odd ring.",
     ["inputs", "randomness"], "all inputs, all share splits, all masks and blinding bits, for every operation and argument form of the protocol",
     "tests compare a few small numbers with one draw of the masks; the wrap-around cases (r = -1, equal operands, the unused bit pattern of the odd ring) have probability 2^-64 there",
     ["tf_encrypted/protocol/securenn/securenn.py", "tf_encrypted/protocol/securenn/odd_tensor.py", "tf_encrypted/protocol/pond/pond.py"],
     ["msb through the odd ring", "lsb by blinding and private comparison", "zero search under multiplicative masks", "edge case r = -1", "select, relu, maximum trees, pooling by im2col"],
     "tensors of 1-8 elements with 64-bit values; comparison results for |values| < 2^62; the sign through the odd ring for |x| < 2^40 and all but a 2^-23 share of the masks (outside it the protocol errs by design); each level of the protocol is proved on the contract of the level below (msb, lsb, private compare), and the contracts are themselves proved; SAME max pooling of negative windows is a known finding.",
     tech="symbolic execution of the traced tensor graph; bit-vector equivalence (z3, kissat, cvc5) after eliminating shares and masks; private comparison by residue polynomials whose zero conditions are decided by linear integer arithmetic (z3)")

prop("P22", "Fixed-point encoding and decoding stay within one unit",
     "A number given to any of the protocols - by an input, a variable, a constant or a local computation, as a TensorFlow tensor or a NumPy array of floats or integers - becomes a ring element within one unit of the number times the scaling factor. Reading a revealed value or an output gives exactly the signed element divided by the scaling factor. Put together, a number that is shared, revealed and read comes back off by less than one unit.",
     ["inputs", "configurations"], "all double, float32 and integer numbers within the configured integral precision, every definition call, all standard fixed-point configurations",
     "rounding, sign and overflow behaviour differ only for particular mantissas and magnitudes; tests encode a handful of short decimals with a tolerance",
     ["tf_encrypted/protocol/aby3/aby3.py", "tf_encrypted/protocol/pond/pond.py", "tf_encrypted/tensor/fixed.py", "tf_encrypted/tensor/native.py", "tf_encrypted/tensor/int128.py"],
     ["_encode for tensors and for arrays", "_decode and its offset", "scaling factors and bounds of the configurations", "NumPy and TensorFlow casts"],
     "single elements (the code is elementwise), |v| up to base^integral of the configuration: ABY3 with 64 and 128 bits, Pond fixed64 and fixed64_ni, SecureNN; NumPy inputs of all of them; decoding of |element| up to the same range.",
     tech="symbolic execution of the traced tensor graph and of the NumPy calls before it; IEEE floating-point and bit-vector formulas decided by z3 (bit-blasted) and cvc5",
     note="Python integers standing for 128-bit elements are symbolic bit vectors in the NumPy part.")

prop("P23", "The custom kernels compute their operations",
     "Each custom TensorFlow kernel - bit gathering, splitting and reversal, xor of bit positions, and 128-bit addition, subtraction, multiplication, negation, absolute value, comparison, matrix product, shifts, sums over axes, bit manipulation and conversion from and to doubles - computes exactly its mathematical operation modulo the word size for every element value. The result has the broadcast or reduced shape and does not depend on the number of threads. No kernel reads or writes outside its tensors, refuses, or stops on inputs its interface allows.",
     ["inputs", "configurations", "schedules"], "all element values; all ranks, axes, broadcasts, shifts, strides and thread counts within the bounds",
     "carries between the two words of an element, single bits, thread splits and broadcast combinations have far more cases than the few literals the kernel tests compare; an out-of-bounds access usually goes unnoticed",
     ["operations/aux/aux_kernels.cc", "operations/tf_i128/int128_kernels.cc", "operations/tf_i128/int128_tensor.cc", "operations/tf_i128/int128_tensor.h"],
     ["kernel Compute functions", "Eigen tensor expressions over 128-bit scalars", "I128BCast and bcastArray", "sharding of loops over threads"],
     "tensors of up to 6 elements per axis combination: 1 to 4 axes for sums, 15 broadcast pairs up to 4 axes for arithmetic, shift amounts 0..127 sampled at word boundaries, all strides dividing the word, 1 and 4 threads (the stand-in runs the pieces of a sharded loop one after the other, last piece first); conversion of doubles below 2^126/scale for scales 1, 2^20, 2^40.",
     tech="symbolic execution of the LLVM IR that clang generates from the kernels' current C++ sources (compiled against stand-in headers for TensorFlow and libsodium); bit-vector and floating-point formulas decided by z3; counterexamples replayed on the natively compiled sources",
     note="I128Equal only broadcasts a single element; the two shapes on which it stops are recorded as known findings.")

prop("P24", "Generators draw fresh, unbiased elements below the bound",
     "Every element the random kernels return is the range's start plus an accepted draw modulo the range, so it lies between the minimum (included) and the maximum (excluded), and a draw is accepted only below the largest multiple of the range, so no value is favoured. Each element comes from its own position of its own key stream, also after rejected draws, across block boundaries and across threads; a seeded result depends on the seed, the bounds and the shape only. Fresh seeds consist of words of the system's generator, and empty ranges are refused.",
     ["randomness", "inputs", "schedules"], "all stream contents (all draws), all seeds, ranges as stated, rejections up to the bound, one and several threads",
     "bias and reuse of stream positions are invisible in a few samples and appear only when draws are rejected, which for the usual ranges happens once in 2^64 draws",
     ["operations/secure_random/secure_random.cc", "operations/secure_random/generators.h"],
     ["Generator::Uniform rejection zone", "SeededGenerator::GetNextValidData and its extra block", "block counter after the elements", "bounds of 128-bit draws", "sharding of fresh draws"],
     "8, 16, 32, 64 and 128-bit elements; fully symbolic bounds for 8 bits (16 in the thorough tier), 5 or 6 fixed ranges for the others; up to 6 elements with one rejection, one or two with up to three (seeded 64 and 128 bits: past the end of the extra block), one more element than a block; 1 and 4 threads run one after the other.",
     tech="symbolic execution of the LLVM IR that clang generates from the kernels' current C++ sources (compiled against stand-in headers for TensorFlow and libsodium); bit-vector and floating-point formulas decided by z3; counterexamples replayed on the natively compiled sources",
     note="libsodium is a stand-in: a byte of a stream is a free variable per key and position, the system's generator gives new variables. The maximum is excluded, so the factories' full-range samples never contain the largest ring element (a TODO in the source).")

COMMON = [
    "TensorFlow's own operators behave as documented (the encoder is compared with the TensorFlow runtime by tfv/selfcheck.py)",
    "the custom C++ kernels behave as the encoder's definitions of them (tfv/sym.py): property P23 decides this from the kernels' sources, and tfv/selfcheck.py compares the definitions with the built kernels on samples",
    "random sources are ideal: the expansion of a fresh seed is uniform and independent (property P24 decides that the generators use libsodium's streams without reuse or bias)",
]


def main():
    import sys
    sys.path.insert(0, ROOT)
    from tfv import reg
    reg.load()
    have = {c.prop for c in reg.CASES.values()}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p["state"]}}) + "\n")
    bd = {"*": {"assumptions": COMMON}}
    checks, na = [], []
    for p in PROPS:
        if p["id"] in NA or p["id"] not in have:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
            continue
        bd[p["id"]] = {"bounds": "Bounds: " + p["bounds"], "assumptions": p["assumptions"]}
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": p["tech"],
            "level": "other",
            "level_note": ("bounded solver-based check of the real code. " + p["bounds"] + " " + p["note"]).strip(),
            "evidence_file": "evidence/%s.json" % p["id"]})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    json.dump(bd, open(os.path.join(ROOT, "bounds.json"), "w"), indent=1)
    print(len(checks), "checks;", len(na), "not applicable:", [x["property"] for x in na])


main()
