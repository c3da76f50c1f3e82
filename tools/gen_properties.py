#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit the statements)"""
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why, "anchors": a})

IV = "src/interval_arithmetic.rs"
prop("I01", "Interval operations are tight, ordered enclosures",
 "For every pair of valid dyadic intervals (and every integer or rational scalar), constructors, precision changes, negation, absolute value, square, square root, reciprocal, addition, subtraction, multiplication, division, floor, ceiling, union and integer shifts of precision return an interval with lower bound not above upper bound at the documented precision that contains every real result of applying the operation to members of the operands, and both bounds are the nearest representable ones (outward rounding by less than one unit). The by-value, by-reference and assigning forms agree. Division by an interval containing zero and the square root of a wholly negative interval fail in the documented way, and no other input fails.",
 "all lower/upper bounds (unbounded integers), all precisions, all operand and scalar types and all call forms",
 "the unit tests sample a few dozen intervals at small precision; the statement is over unbounded integers and over sign/zero-crossing combinations they do not enumerate",
 [IV], [("DyadicFractionInterval arithmetic impls", IV), ("convert_log2_denom / from_ratio rounding", IV)],
 state=[("lower_bound_numer, upper_bound_numer, log2_denom", "bounds are numerators over 2^log2_denom", IV)], observe=["lower_bound()", "upper_bound()", "into_ratio_range()"])
prop("I03", "Interval powers enclose every member's power",
 "For every valid interval and every integer exponent, raising the interval to the exponent returns an ordered interval at the same precision containing x^e for every x in it; exponent zero gives exactly one, and a negative exponent -e encloses the e-th power of the reciprocal of every member, failing (panic) exactly when the interval contains zero. This holds for every exponent type, by-value and by-reference, for every exponent whose negation is representable.",
 "all bounds, precisions, exponents and exponent types",
 "repeated squaring with outward rounding has an unbounded number of rounding steps and sign cases; tests use a handful of small exponents",
 [IV], [("pow_helper / Pow impls", IV)])
prop("I04", "Constants, exp, log and AGM intervals enclose the true value",
 "For every valid input interval, exp, natural log (of positive intervals), arithmetic-geometric mean, and the sqrt(2) and ln(2) constants at any requested precision return an ordered interval at the documented precision that contains the true value for every member of the input. None of them panics on valid input, and log of an interval reaching zero or below fails in the documented way.",
 "all bounds and precisions; all numbers of series/iteration steps",
 "the number of series terms grows with precision and each term rounds; tests compare a few values with a reference",
 [IV], [("log_core / ln2 series", IV), ("exp Taylor loop and argument reduction", IV), ("agm iteration", IV)])
prop("I05", "Cached constants answer any history of requests correctly",
 "Whatever sequence of precision requests was made before, by any number of threads, a request for a cached constant returns an interval at exactly the requested precision that contains the constant and is at most two units in the last place wide.",
 "all request histories and interleavings of the shared cache",
 "tests run one request order on one thread; the cache contents depend on the whole history",
 [IV], [("ConstantCache::get", IV)], over=("histories", "schedules", "inputs"),
 state=[("ConstantCache", "vector of computed intervals, indexed by a bucket of the precision, behind a RwLock", IV)])
M = "src/mod_int.rs"
prop("M01", "Modular integers form the ring Z/m with canonical representatives",
 "For every integer type, every positive modulus and all operands, constructing, converting from any integer type, adding, subtracting, negating and multiplying modular integers gives the unique representative in [0, m) congruent to the exact integer result, in every by-value, by-reference, assigning and checked form, with no overflow. Operands with different moduli are rejected (panic, or None in the checked forms).",
 "all values, all positive moduli (static and dynamic), all 14 integer types and call forms",
 "overflow near the type limits and sign handling of remainders need specific operands; tests use tiny moduli",
 [M], [("ModularReduce impls", M), ("ModularInteger operators", M)], state=[("value, modulus", "value is reduced", M)])
prop("M02", "Modular inverse, division and powers are exact",
 "For every modulus m of at least two, the modular inverse and division (signed and big integers) return the representative y in [0,m) with y*d congruent to n whenever the divisor is a unit mod m, and report failure exactly when the divisor has no inverse or the moduli differ, in every operator, checked and exact-division form. Modular power returns the representative in [0,m) of the exact integer power for every non-negative exponent, every base and every positive modulus, with no overflow.",
 "all values, moduli and exponents of all supported types",
 "needs extended-gcd identities and an unbounded square-and-multiply loop; tests sample a few primes",
 [M, "src/traits.rs"], [("pow_modular_reduce", M), ("CheckedDiv/Inv/Pow for ModularInteger", M)])
T = "src/traits.rs"
prop("T01", "Integer logarithms and trailing-zero counts are exact",
 "For every integer of every supported type, floor_log2 and ceil_log2 return k with 2^k <= n < 2^(k+1), respectively 2^(k-1) < n <= 2^k, and None exactly for n <= 0; trailing_zeros returns the exponent of two in n and None exactly for zero.",
 "all values of all 12 machine integer types and all big integers",
 "tests sample small values; powers of two around word and digit boundaries are where it goes wrong",
 [T], [("FloorLog2/CeilLog2/TrailingZeros impls", T)])
prop("T02", "GCD, LCM and extended GCD satisfy their defining identities",
 "For all integers and rationals, the gcd divides both operands, is a non-negative integer combination of them whose coefficients the extended form returns, gcd times lcm equals the product up to sign, and the separate and combined forms agree. Zero operands follow gcd(0,x)=|x| and lcm(0,x)=0.",
 "all operand pairs, including zero and negative ones, for which the result fits the type",
 "the identities quantify over unbounded integers and over reduced fractions",
 [T], [("GCD / ExtendedGCD impls", T)])
prop("T03", "Exact division succeeds exactly on multiples",
 "For all integers and rationals, checked exact division returns q with q*d = n exactly when the divisor is nonzero, divides the dividend (always, for rationals) and q is representable, leaves the value unchanged when the assigning form fails, and the unchecked forms panic exactly when the checked ones report failure; all by-value, by-reference and assigning forms agree.",
 "all operand pairs and call forms", "tests do not exercise the failure branches or the reference forms",
 [T], [("ExactDiv / ExactDivAssign impls", T)])
U = "src/util.rs"
prop("U01", "Prime queries on machine integers are exact",
 "For every 32-bit value, the primality test answers true exactly for primes; the next-prime and previous-prime queries return the closest prime strictly above, respectively below, the argument, and None exactly when no such prime is representable.",
 "all 2^32 arguments, signed and unsigned", "tests check a short prefix; the table of small primes and the ends of the range are not covered",
 [U], [("is_prime_u32, prev/next_prime", U), ("PRIMES_THAT_FIT_IN_U16", U)])
N = "src/polynomial.rs"
A = "src/polynomial/add_sub.rs"; MU = "src/polynomial/mul.rs"; DV = "src/polynomial/div_rem.rs"; G = "src/polynomial/gcd.rs"
prop("N01", "Polynomial arithmetic is exact and results are normalised",
 "For all polynomials over integers, rationals and modular integers, construction, addition, subtraction, negation, multiplication, powers, scalar operations, monomials, derivative and evaluation produce exactly the coefficients of the mathematical result, with no trailing zero coefficients and (for rationals) a reduced common divisor. All by-value, by-reference, assigning and checked forms agree and equal polynomials compare equal.",
 "all coefficient vectors of any length, all coefficient types", "unbounded lengths; cancellation of leading terms, unequal lengths and rational divisors need specific inputs",
 [N, A, MU], [("add_sub_assign helpers", A), ("mul helpers", MU), ("normalize, derivative, eval", N)],
 state=[("elements, divisor", "coefficients are elements[i]/divisor, last element nonzero", N)])
prop("N03", "Polynomial division identities hold",
 "For all dividends and nonzero divisors, quotient and remainder satisfy n = q*d + r with deg r < deg d; pseudo-division satisfies factor*n = q*d + r with the documented factor; exact and checked division succeed exactly when the remainder is zero (respectively the divisor nonzero) and give the quotient; modular powers equal the true power reduced by the divisor.",
 "all polynomials and coefficient types", "loop length depends on the degree gap; tests sample a few pairs",
 [DV], [("pseudo_div_rem", DV), ("div_rem / exact_div / checked_powmod", DV)])
prop("N04", "Polynomial gcd, extended gcd and resultant are correct",
 "The gcd of two polynomials divides both and is divisible by every common divisor, extended gcd returns Bezout cofactors for it, and the resultant equals the determinant of the Sylvester matrix.",
 "all polynomial pairs over integers, rationals and prime fields", "Euclidean loops of input-dependent length with coefficient growth",
 [G], [("subresultant sequence, gcd_lcm, extended_gcd_lcm, resultant", G)])
prop("N05", "Factorisations multiply back into irreducible factors",
 "Square-free factorisation and factorisation over the integers return factors whose product with multiplicities equals the input; square-free factors are square-free and pairwise coprime, and integer factors are irreducible over the rationals.",
 "all integer polynomials", "randomised modular algorithms with Hensel lifting; tests sample a few polynomials",
 [N, "src/polynomial/factorization_over_integers.rs", "src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs"], [("factorization", N)])
prop("N06", "Sturm sequences count real roots exactly",
 "For every square-free integer or rational polynomial, the drop in sign changes of its Sturm sequence between two points equals the number of distinct real roots in the half-open interval between them.",
 "all polynomials and interval endpoints", "tests compare a few fixed sequences", [N], [("into_generic_sturm_sequence", N)])
R = "src/algebraic_numbers.rs"
prop("R01", "Real algebraic numbers: exact field arithmetic",
 "Adding, subtracting, multiplying, dividing and negating real algebraic numbers gives the exact real result, represented by its primitive irreducible minimal polynomial with positive leading coefficient and an interval isolating it; division by zero is reported as documented.",
 "all real algebraic numbers", "results are exact only if factor selection and interval refinement are right for every input",
 [R], [("eval_point resultants and RealAlgebraicNumber operators", R)])
prop("R02", "Real algebraic numbers: comparison is the order of the reals",
 "Equality, ordering, and comparison with zero agree with the real numbers represented, whatever expressions produced the operands, and are mutually consistent.",
 "all pairs of real algebraic numbers", "two representations of nearby or equal numbers need interval refinement of input-dependent depth",
 [R], [("cmp, eq, cmp_with_zero", R)])
prop("R03", "Real algebraic numbers: rounding and logarithms are exact",
 "floor, ceil, trunc, fractional part, integrality tests, and floor/ceil/exact base-2 logarithms equal the mathematical values for every real algebraic number, including integers, values just above or below an integer, and negative values.",
 "all real algebraic numbers", "boundary values need specific inputs", [R], [("into_integer_floor, into_fract, log2 methods", R)])
prop("R04", "Real algebraic numbers: rational powers and roots are exact",
 "Raising to an integer or rational exponent gives the exact real power (the positive one for positive bases). It fails exactly for a zero base with an exponent that is not positive and for a negative base with an exponent that is not an integer.",
 "all bases and rational exponents", "root selection depends on sign, parity and zero",
 [R], [("checked_into_pow, IntoRationalExponent", R)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
