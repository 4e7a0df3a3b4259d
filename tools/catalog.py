"""The property catalogue: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))

ABS = ("abstract interpretation of the crate's MIR: trace partitioning over a "
       "relational bit-provenance / floor-affine domain, compositional contracts for multi-limb helpers")
ABS_NOTE = ("Every execution path of the compiled operation is covered by an abstract path; each obligation is "
            "discharged by the domain's own entailment, with no execution and no solver. Trusts rustc's MIR "
            "construction, the transfer functions in sa/, the specification in sa/props_*.py; contracts used for "
            "multi-limb helpers are the ones P18 checks. ")

C = []


def prop(id, title, statement, over, why, files, mech, technique=ABS, note=ABS_NOTE, na=None):
    C.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


prop("P01", "Classification predicates follow the binary256 encoding",
     "For every one of the 2^256 bit patterns, is_nan, is_infinite, is_finite, is_subnormal, is_normal, eq_zero, "
     "is_special, is_sign_positive/negative and classify() give the class and sign that the IEEE 754 binary256 "
     "encoding assigns to that pattern. Exactly one of NaN, infinite, zero, subnormal, normal holds for each value.",
     "all 2^256 encodings", "2^256 encodings; the tests use about a dozen, none with a NaN payload only in the low half",
     ["src/lib.rs"], [("class tests on the high 128 bits and a sticky bit for the low half", "src/lib.rs")])
prop("P02", "Sign operations and bit/byte conversions are exact on all encodings",
     "Negation flips only the sign bit and abs clears only the sign bit, for every encoding including NaN payloads, "
     "zeros and infinities. to_bits/from_bits and the big, little and native endian byte conversions are mutually "
     "inverse bijections, with to_be_bytes/to_le_bytes giving the documented byte order of the 256-bit encoding.",
     "all 2^256 encodings, all byte arrays", "bijectivity over 2^256 encodings; tests convert one or two values",
     ["src/lib.rs"], [("to/from_{be,le,ne}_bytes, to/from_bits, neg, abs", "src/lib.rs")])
prop("P03", "Comparison operators implement the IEEE numeric order",
     "For all pairs of values ==, !=, <, <=, >, >= and partial_cmp return the result of comparing the represented real "
     "numbers (extended by the infinities), with +0 == -0. Every comparison with a NaN operand is unordered: only != is true.",
     "all pairs of encodings", "pairs of 2^256 encodings; tests compare a few dozen positive pairs",
     ["src/binops/cmp.rs", "src/lib.rs"], [("PartialEq/PartialOrd impls", "src/binops/cmp.rs")])
prop("P04", "total_cmp is the IEEE 754 totalOrder",
     "For all pairs of encodings total_cmp returns the position in the IEEE totalOrder: -NaN < -inf < negative finite < "
     "-0 < +0 < positive finite < +inf < NaN. In particular it is a total order: antisymmetric, transitive and equal "
     "only for identical encodings.",
     "all pairs of encodings", "an order on 2^256 encodings; the test sorts one list",
     ["src/lib.rs"], [("total_cmp", "src/lib.rs")])
prop("P05", "min, max and clamp select the right operand",
     "For all pairs, max and min return one of the operands, the numerically larger respectively smaller one, ignoring a "
     "NaN operand when the other is a number. clamp(lo, hi) with lo <= hi returns the operand if it lies in [lo, hi], else the bound it "
     "exceeds, and a NaN operand stays NaN; it panics if and only if lo > hi or a bound is NaN.",
     "all pairs and triples of encodings", "all pairs of encodings including mixed signs, zeros and NaNs; tests use a handful",
     ["src/lib.rs"], [("max, min, clamp", "src/lib.rs")])
prop("P06", "Addition and subtraction are correctly rounded",
     "For all finite operands x + y and x - y are the exact real sum or difference rounded to nearest, ties to even, "
     "including subnormal results, overflow to infinity and the sign of exact zeros. Infinities and NaNs propagate as IEEE 754 prescribes "
     "(inf - inf is NaN, otherwise an infinity wins, a NaN operand gives NaN).",
     "all operand pairs, every exponent distance and carry pattern",
     "exponent distances, sticky bits and cancellation patterns over 2^512 pairs; tests compare a few hundred pairs",
     ["src/binops/add.rs"], [("add_special_values/add_... with sticky bit alignment", "src/binops/add.rs")])
prop("P07", "Multiplication is correctly rounded",
     "For all finite operands x * y is the exact real product rounded to nearest, ties to even, including subnormal "
     "operands and results, underflow to zero and overflow to infinity, with the sign of the product of the signs. "
     "0 * inf is NaN, infinities and NaNs propagate as IEEE 754 prescribes.",
     "all operand pairs", "tie, carry and subnormal boundaries over 2^512 pairs; tests sample some",
     ["src/binops/mul.rs", "src/big_uint"], [("mul kernel: normalise, widening multiply, round", "src/binops/mul.rs")])
prop("P08", "Division and reciprocal are correctly rounded",
     "For all finite operands with a non-zero divisor x / y (and recip) is the exact real quotient rounded to nearest, ties to "
     "even, including subnormal operands and results, underflow and overflow. Division by zero, infinities and NaNs follow IEEE 754 with the sign "
     "of the quotient of the signs.",
     "all operand pairs", "sticky remainder and subnormal boundaries over 2^512 pairs; tests sample some",
     ["src/binops/div.rs", "src/big_uint"], [("div kernel: normalise, long division, sticky remainder, round", "src/binops/div.rs")])
prop("P09", "The remainder operator is exact",
     "For all finite x and finite non-zero y, x % y is exactly x - y*trunc(x/y), has the sign of x (also when it is zero) and magnitude below |y|. "
     "x % inf is x, x % 0 and inf % y are NaN, NaNs propagate.",
     "all operand pairs", "exponent differences up to 524,000; tests use a few",
     ["src/binops/rem.rs"], [("rem kernel with modular exponentiation", "src/binops/rem.rs")])
prop("P10", "Square root is correctly rounded",
     "For every non-negative finite value sqrt is the exact square root rounded to nearest even; sqrt(-0) is -0, "
     "sqrt(+inf) is +inf, and NaN or any negative non-zero operand gives NaN.",
     "all encodings", "2^255 operands; tests sample a few",
     ["src/math/sqrt.rs"], [("digit recurrence", "src/math/sqrt.rs")],
     technique="abstract interpretation of the MIR with loop-cut induction: one symbolic pass of the digit recurrence from its canonical invariant "
               "re-establishes it, and every exit is judged against the exact root by squaring",
     note=ABS_NOTE + "The induction hypothesis is the exact state Q_i, R_i of a restoring root; a pass that leaves it undecided counts as a violation only when "
               "a single operand, followed through the same MIR by constant propagation, gives a wrong root.")
prop("P11", "Fused multiply-add rounds once",
     "For all finite x, y, a, mul_add is the exact value of x*y + a rounded once to nearest even, with IEEE signs of exact zeros; "
     "0*inf and inf-inf combinations give NaN, other special operands propagate as IEEE 754 prescribes.",
     "all operand triples", "alignment of three exponents over 2^768 triples; tests sample a few",
     ["src/fused_ops/fma.rs"], [("fma kernel", "src/fused_ops/fma.rs")])
prop("P12", "Squares and sums of squares round once",
     "square(x) and sum_of_squares(x, y) are the exact values of x*x and x*x + y*y rounded once to nearest even, never negative; "
     "square_add(x, a) is x*x + a rounded once. Infinite operands give infinity, NaN gives NaN.",
     "all operand pairs", "alignment and sticky patterns; tests sample a few",
     ["src/fused_ops/sos.rs", "src/fused_ops/fma.rs"], [("sos kernel", "src/fused_ops/sos.rs")])
prop("P13", "Rounding to integral values is exact",
     "For every value trunc, floor, ceil, round (half away from zero) and round_tie_even return exactly the mathematically "
     "defined integer, with the sign of the operand when the result is zero. fract and split give the exact fractional part (a zero fraction may have either sign; the fraction of an infinity is NaN); "
     "the rounding functions return integral values, infinities and NaNs as they are.",
     "all encodings", "all exponents and bit positions of the binary point; tests sample a few",
     ["src/lib.rs"], [("integral/fraction masks", "src/lib.rs")])
prop("P14", "Conversions from integers are exact",
     "Converting any i8..i128 or u8..u128 value yields exactly that number, a canonical encoding with the sign of the integer and +0 for 0.",
     "all integers of all widths", "2^128 inputs per width; tests use a few",
     ["src/conv/from_int.rs"], [("From<int> impls", "src/conv/from_int.rs")])
prop("P15", "Conversions from f32 and f64 are exact",
     "Converting any f32 or f64 yields exactly the same number, with the sign of zeros and infinities preserved; subnormal floats become normal f256 values; NaN becomes NaN.",
     "all f32 and f64 encodings", "2^64 encodings; tests use a few",
     ["src/conv/from_float.rs"], [("From<f32>/From<f64>", "src/conv/from_float.rs")])
prop("P16", "Scaling by powers of two is exact or rounds once",
     "For every value x and every n, mul_pow2(n), mul2 equal x*2^n exactly or overflow to the infinity of that sign, and div_pow2(n), div2 equal x/2^n "
     "rounded once to nearest even when subnormal. Zeros, infinities and NaNs are returned as they are, n = 0 is the identity.",
     "all encodings and all 2^32 exponents", "encodings x 2^32 shifts; tests use a few dozen",
     ["src/lib.rs"], [("mul_pow2, div_pow2", "src/lib.rs")])
prop("P17", "Angle conversions treat special and extreme values correctly",
     "to_degrees and to_radians map NaN to NaN and keep signed zeros and infinities; for every finite operand to_radians returns the operand times pi/180 within 0.51 units in the "
     "last place and to_degrees the operand times 180/pi within 1.1 units, overflowing to infinity and underflowing gradually, and never panic.",
     "all encodings", "exponent extremes are not tested", ["src/lib.rs"], [("to_degrees, to_radians", "src/lib.rs")])
prop("P18", "Multi-limb integer arithmetic matches exact integer arithmetic",
     "The wide unsigned integer operations underneath (add, subtract, compare, shift, widening multiply, sticky and rounding shifts, bit counts, and the division wrappers) "
     "equal the corresponding operations on mathematical integers modulo the width, for all operands within their preconditions. Division with remainder is decided on top of the "
     "normalised two-word division step, which is a separate property (P31), and for divisors of full width with dividends below half of the word's range.",
     "all operands of 256 to 1024 bits", "operands of 256..1024 bits, carries and borrow chains; tests sample a few",
     ["src/big_uint"], [("U128/U256/U512/U1024 arithmetic", "src/big_uint")])
prop("P19", "Constants are correctly rounded",
     "Every published mathematical constant and limit of the crate (MIN, MAX, EPSILON, PI, E, LN_2, SQRT_2 and so on) is the f256 value nearest to its mathematical definition. "
     "Internal constants and tables hold their documented values: reduction constants and BigFloat / fixed-point constants are nearest in their format, rows of the sine, cosine and arctangent coefficient tables, "
     "of the arctangent and logarithm tables are within one unit of the last place, the bits of 2/pi are exact, and the power-of-five and decimal-shift tables of text conversion are exact.",
     "all constants and table rows", "tests compare a few constants only with themselves",
     ["src/consts.rs", "src/lib.rs", "src/math", "src/conv"], [("constant items", "src/consts.rs"), ("logarithm table", "src/math/feynman.rs"), ("bits of 2/pi", "src/math/circular_fns/two_over_pi.rs")],
     technique="constant evaluation by the compiler (every constant and static item of the crate, private ones included, read as the compiler's evaluated allocation) against exact enclosures of their mathematical definitions",
     note="Every row is decided against an enclosure computed with integers (Machin series, Brent-McMillan, integer roots), of which both ends must round alike. Items are identified by their path; one that is missing after a renaming is reported as undecided.")
prop("P20", "Literals that are not decimal floats are rejected, and special literals accepted",
     "Parsing accepts exactly the documented grammar: an optional sign, digits with an optional decimal point and at least one digit, an optional exponent with at least one digit, "
     "or inf/infinity/nan in any case with optional sign. Everything else is an error, and the sign of the literal is the sign of the result, also for zeros; parsing never panics.",
     "all byte strings", "unbounded input strings; tests use a list",
     ["src/conv/from_str"], [("FloatRepr parser", "src/conv/from_str")],
     na="acceptance quantifies over byte strings of unbounded length; the abstract domain has no summary for sequences, and the parser's loops over slice iterators admit no finite set of regions; following single literals would be a test")
prop("P21", "All forms of an operator give the same result",
     "For each of + - * / %, the by-value, by-reference and assigning forms, as well as the method forms and trait forms of the same operation, return identical bits on identical operands. "
     "The derived operations given by value and by reference (negation and others) likewise agree.",
     "all operands, all forms", "tests exercise mostly the value forms",
     ["src/binops/mod.rs", "src/lib.rs"], [("forwarding macros", "src/binops/mod.rs")],
     technique="interprocedural value-flow check on MIR: every form reduces to the same call on the same unmodified operands",
     note="Decides per form that its MIR passes its operands unmodified, in order, to the same kernel and returns the result unmodified.")
prop("P22", "Arithmetic never panics or overflows",
     "No call of a basic operation - classification, sign and byte operations, comparison, total order, min/max and clamp with ordered bounds, addition, subtraction, multiplication, division, reciprocal, remainder, "
     "fused sum of squares, rounding to an integer, conversion from integers and from f32/f64, scaling by powers of two, angle conversion, ulp, and significand and exponent access - panics, trips a debug assertion or "
     "performs an overflowing integer operation, for any operands, in a build with overflow checks and debug assertions enabled.",
     "all operands, the build with overflow checks and debug assertions", "tests run in release only, where overflow is silent and debug assertions are gone",
     ["src"], [("integer arithmetic on exponents and limbs", "src/lib.rs"), ("multi-limb integers", "src/big_uint/mod.rs")],
     technique="abstract interpretation of the debug-build MIR (overflow and debug assertions present): every assertion and panic call is an obligation to be unreachable in every region of the operands",
     note="All operand classes; exponent regions as in the checks of the individual operations. Panics of text formatting and parsing and of the elementary functions are outside this statement.")
prop("P23", "Results are independent of hardware floating point and of global state",
     "Arithmetic, comparisons, rounding, conversions from and between numbers and the elementary functions use integer operations only: no native floating point operation, no global mutable state, no I/O, no environment access and no heap allocation "
     "(formatting and parsing of text are outside this statement). "
     "Hence the same inputs give the same bits on every platform and thread.",
     "all operations, platforms and threads", "needs all platforms and thread interleavings",
     ["src"], [("pure integer implementation", "src/lib.rs")],
     technique="effect analysis over the MIR call graph: interprocedural reachability of floating-point operations, statics, allocation, I/O and unsafe constructs",
     note="Whole-program reachability on MIR from every public operation; trusts rustc's call resolution and the list of effectful primitives.")
prop("P24", "Elementary functions honour special values and domains",
     "sqrt, ln, log2, log10, sin, cos, sin_cos, tan, asin, acos, atan and atan2 return NaN for a NaN operand and for every operand outside their domain "
     "(negative operands of sqrt and the logarithms, |x| > 1 for asin and acos, infinities for sin, cos and tan; ln, log2 and log10 give NaN for zero and for infinity, as this crate's tests pin). "
     "sqrt keeps zeros and +inf; the logarithms of 1 are zero; sin, tan, asin and atan map a zero to itself, cos(0) = 1, acos(1) = 0, acos(-1) = pi, asin(+-1) = +-pi/2, atan(+-1) = +-pi/4, and atan of an infinity or of "
     "|x| >= 2^237 is +-pi/2; atan2 follows the documented quadrant table for zeros, infinities and NaN and gives the multiple of pi/4 for |y| = |x|. A function answers with its operand itself only where that is within one unit in the last place of the exact result.",
     "all operands of every special class and every operand outside the domain, whatever its encoding", "tests cover part of the special values, and one operand per class",
     ["src/math"], [("special value branches of each function", "src/math"), ("small-operand and large-operand cut-offs", "src/math/circular_fns")])
prop("P25", "Odd and even symmetries are exact",
     "sin, tan, asin and atan are odd bit for bit and cos is even bit for bit wherever the result is not NaN; sin_cos(x) is the pair (sin(x), cos(x)) and tan(x) is the quotient of the two.",
     "all pairs of operands x, -x", "relational property over pairs of runs; tests compare a few",
     ["src/math/circular_fns"], [("sign handling and quadrant selection", "src/math/circular_fns"), ("odd and even kernels", "src/math/circular_fns/approx_sin_cos.rs, approx_atan.rs")])
prop("P26", "ulp returns the exact unit in the last place",
     "For every finite value ulp is exactly the weight of its last significand bit as a positive power of two ; the ulp of zero is the smallest subnormal, "
     "and NaN or an infinity gives NaN.",
     "all encodings", "all exponents; tests use a few", ["src/lib.rs"], [("ulp", "src/lib.rs")])
prop("P27", "Encoding from parts and decoding into parts are inverse and exact",
     "as_sign_exp_signif decomposes every finite value into sign, exponent and integral significand with exactly that value; from_sign_exp_signif builds the exactly represented value whenever it "
     "is representable and otherwise rounds a significand of up to 256 bits to nearest, ties to even; a zero significand stands for a zero, or with exponent 262144 for an infinity. Hence recombining the parts of a finite value returns an equal value.",
     "all encodings; all representable triples", "all encodings; tests use a few", ["src/lib.rs"], [("encode/decode", "src/lib.rs")])
prop("P28", "Elementary functions are accurate to the last place",
     "exp, logarithms, trigonometric functions and their inverses return a value within one unit in the last place of the exact function value for every operand in the domain.",
     "all encodings", "2^256 operands against a transcendental oracle", ["src/math"], [("argument reduction, polynomials, BKM/Feynman log", "src/math")],
     na="the kernels on reduced arguments are a property of their own (P32); what remains, the reduction modulo pi/2 of arguments up to 2^262143 and the extended-float steps of asin, acos, atan and atan2, "
     "depends on how close such arguments come to multiples of pi/2 and on cancellations between data-dependent terms, for which no sound static bound is in reach; sampling would be a runtime test")
prop("P29", "Printing and parsing round-trip",
     "For every finite value the default decimal text is the shortest that parses back to the same value, and formatting with a precision gives the correctly rounded decimal expansion.",
     "all encodings", "2^256 encodings", ["src/conv/to_str", "src/conv/from_str"], [("Ryu-style shortest digits", "src/conv/to_str")],
     na="the shortest-digit algorithm's correctness rests on products with lookup tables (crates without source in this sandbox) and an unbounded decimal loop whose invariants are number-theoretic per exponent; no static argument in reach bounds them")
prop("P30", "Parsed decimals are correctly rounded",
     "Every finite decimal literal parses to the nearest representable value, ties to even, for any number of digits and any exponent.",
     "all literals", "unbounded digit strings", ["src/conv/from_str"], [("fast path, fast_approx and fast_exact, big decimal fallback", "src/conv/from_str")],
     na="correct rounding of arbitrary decimals depends on a multi-precision decimal shift loop and power-of-five tables whose crates have no source here; a static argument over digit strings of unbounded length is out of reach")

prop("P31", "The normalised two-word division step is exact",
     "The word-by-word long division step of the multi-word integers (a dividend of two words whose high word is below the one-word divisor, for 128, 256 and 512 bit words) returns quotient and remainder with "
     "dividend = quotient * divisor + remainder and 0 <= remainder < divisor, and does not panic, for every such dividend and divisor: the two estimated quotient digits are corrected exactly as often as needed.",
     "all dividends and divisors of the domain", "quotient digit estimates are wrong for a vanishing fraction of operands", ["src/big_uint"], [("div_rem_subuint_special", "src/big_uint/uint_generic/mod.rs")],
     technique="abstract interpretation of the MIR body with integer contracts, exact linear arithmetic over the monomials of the estimate invariants (products of interval bounds included) for the non-linear digit-correction argument",
     note="One region per bit length of the divisor (the quick tier takes a few, the thorough tier all of them); the two correction loops are unrolled until the analysis shows no further iteration is feasible. Trusts rustc's MIR construction, the transfer functions in sa/, and the operator contracts P18 checks.")

prop("P32", "The fixed-point kernels of the elementary functions are accurate",
     "On reduced arguments the fixed-point kernels behind sin, cos, atan and the logarithms are far more accurate than the 237 bits of a result need: for every |x| <= 101/128 the sine and cosine kernels and "
     "for every 2^-120 <= |x| < 1 the arctangent kernel return the exact function value up to a relative error of 2^-300, and for every 1 <= x < 2 the logarithm kernel returns ln x up to an absolute error of 2^-480. "
     "Where a kernel returns x or 1 instead because x is below its cut-off, that is off by at most 0.51 units in the last place of the result. The fixed-point format they compute in (512 bits, 492 of them fractional) "
     "adds, subtracts, negates, compares and splits exactly and multiplies and divides with an error below one unit 2^-492.",
     "all reduced arguments, all table rows", "a wrong coefficient, a lost term or a wrong branch shows only in bits that few sampled arguments reach; the tests compare a handful of values",
     ["src/math/circular_fns", "src/math/feynman.rs", "src/math/fp509.rs"],
     [("Horner loops and cut-offs", "src/math/circular_fns/approx_sin.rs, approx_cos.rs"), ("table reduction and series", "src/math/circular_fns/approx_atan.rs"),
      ("product of factors 1 + 2^-n", "src/math/feynman.rs"), ("FP492 arithmetic", "src/math/fp509.rs")],
     technique="abstract interpretation of the kernels' MIR: fixed-point values abstracted by exact rational polynomials in the argument with error bounds, compared with the Taylor series; loop invariant (ratio of argument to product, "
     "sum minus logarithm of the product) by interval induction over the table for the logarithm; contracts of the number format proved in the bit-provenance / floor-affine domain",
     note="Covers all arguments of the stated ranges (a region per sign and per table row of the arctangent). The kernels' own range reduction modulo pi/2 and the conversions to and from f256 are not part of it. An error bound that "
     "cannot be shown is reported as a violation only when the abstraction at a concrete argument excludes every accurate value. Trusts rustc's MIR construction, the transfer functions in sa/, and P18/P31 for the multi-limb helpers.")


def main():
    import registry
    claimed = set(registry.PROPS) - registry.UNCLAIMED
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for c in C:
            f.write(json.dumps({
                "id": c["id"], "title": c["title"], "statement": c["statement"],
                "quantifier": {"over": ["inputs"] + (["configurations"] if "profile" in c["over"] or "platform" in c["over"] else []), "text": c["over"]},
                "why_tests_cant": c["why"],
                "anchors": {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]]}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 sa/extract.py release debug values", "checks": [], "not_applicable": [],
           "notes": "static analysis only; see DESIGN.md"}
    for c in C:
        if c["id"] in claimed:
            man["checks"].append({"property": c["id"], "quick_cmd": f"python3 check.py {c['id']} quick",
                                  "thorough_cmd": f"python3 check.py {c['id']} thorough",
                                  "evidence_file": f"evidence/{c['id']}.json", "technique": c["technique"],
                                  "level": "proof", "level_note": c["note"]})
        else:
            man["not_applicable"].append({"property": c["id"], "reason": c["na"] or "no check has been built for it yet, so nothing is claimed"})
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
