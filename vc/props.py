"""Property table: which contracts (deductive) and which bounded stand-ins decide each property."""

TECH = "contract-based deductive verification: VCs generated from the compiled code's MIR per function, discharged by z3/cvc5"
TRUST = ("Assumes the listed contracts of num-bigint/num-rational/std, rustc's MIR construction, the VC generator in vc/ and the solvers; "
         "termination and memory exhaustion are not covered.")

PROPS = {
    "I01": dict(
        feature="interval", suites=["interval"],
        contracts=r"^interval::(?!(pow|agm|ln2|log|exp|sqrt_2|cache))",
        labels=None,
        native=["interval."], native_feature="interval",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="Every public interval operation (all call forms and integer types) proved against a tightest-enclosure contract for all bounds and precisions. " + TRUST),
    "I03": dict(
        feature="interval", suites=["ipow", "interval"], contracts=r"^ipow::", labels=None,
        native=["intervalpow."], native_feature="interval",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="Square-and-multiply loop with outward rounding proved by a loop invariant over an axiomatised real power, for all 9 exponent types in both call forms. " + TRUST),
    "M01": dict(
        feature="mod_int", suites=["mod_int", "traits"], contracts=r"^modint::", labels=None,
        native=["modint."], native_feature="mod_int",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="ModularReduce and ModularInteger operators of all 14 integer types, dynamic, known-odd/prime and static moduli, every call form: exact residue contracts. " + TRUST),
    "M02": dict(
        feature="mod_int", suites=["mod_int", "traits"], contracts=r"^(moddiv|powmod)::", labels=None,
        native=["moddiv."], native_feature="mod_int",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="Inverse/division against the Bezout identity, square-and-multiply loop with a loop invariant over an axiomatised b^e mod m. " + TRUST),
    "T01": dict(
        feature="traits", suites=["traits"], contracts=r"^log2::", labels=None,
        native=["log2."], native_feature="util",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="All 12 machine integer types, BigInt and BigUint, with loop invariants on the big-integer trailing-zero search. " + TRUST),
    "T02": dict(
        feature="traits", suites=["traits"], contracts=r"^gcd::", labels=None,
        native=["gcd."], native_feature="util",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="Every GCD/ExtendedGCD impl against divisibility and Bezout clauses; num-integer's gcd algorithms are assumed contracts. " + TRUST),
    "T03": dict(
        feature="traits", suites=["traits"], contracts=r"^exact::", labels=None,
        native=["exactdiv."], native_feature="util",
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models",
        level="proof", technique=TECH,
        level_note="All integer and rational ExactDiv/ExactDivAssign forms. " + TRUST),
    "I04": dict(
        feature="interval", suites=["trans", "interval", "traits"], contracts=r"^trans::", labels=None,
        native=["trans."], native_feature="interval", native_ms=12000,
        bounded="no function of this property is outside the verifier's reach; obligations over real functions cannot be refuted by a model, so a randomised run against rational enclosures (precision up to 200 bits, |exp argument| up to about 40) looks for the failing input",
        rule="random input intervals (shape, precision and bounds biased to edges); a case is an input interval or precision request checked against an independent rational enclosure",
        level="proof", technique=TECH,
        level_note="exp, log, log_core, AGM and the series behind log(2) and sqrt(2) proved to enclose the real function, by loop invariants over the partial sums; the series' remainder bounds and exp/log functional equations are stated axioms. " + TRUST),
    "I05": dict(
        feature="interval", suites=["cache", "trans", "interval", "traits"], contracts=r"^(cache::|trans::(ln2|sqrt_2)/)", labels=None,
        native=["cache."], native_feature="interval", native_ms=10000,
        bounded="no function of this property is outside the verifier's reach; the bounded run (random request histories, single- and multi-threaded, in fresh processes) looks for failing histories",
        rule="a case is a history of precision requests, each answer checked",
        level="proof", technique=TECH,
        level_note="Lock invariant over the shared vector (every entry: the precision of its bucket, encloses the constant, at most two units wide): any vector satisfying it may be read, every vector stored is proved to satisfy it, so every history and interleaving is covered; bucket search and fill loops by invariants. Assumes RwLock/Arc/lazy_static semantics and monotone f64 log2. " + TRUST),
    "U01": dict(
        feature="util", suites=["util"], contracts=r"^prime::", labels=None,
        native=["prime."], native_feature="util", native_ms=6000,
        bounded="no function of this property is outside the verifier's reach; the bounded run only cross-checks the trusted models (random and edge 32-bit arguments against a deterministic Miller-Rabin oracle)",
        rule="a case is a 32-bit argument",
        level="proof", technique=TECH,
        level_note="Trial-division and search loops proved by invariants over an axiomatised primality predicate; the compiled prime table is compared with a sieve on every run. " + TRUST),
    "N01": dict(
        feature="poly", suites=["poly", "traits"], contracts=r"^poly::", labels=None,
        native=["poly."], native_feature="poly", native_ms=10000,
        bounded="ModularInteger and machine-integer coefficient instances, and the failing-input search for the proved instances: random coefficient lists up to length 8",
        rule="random cases biased to edges, distinct by content; each compared with an independent computation",
        level="proof", technique=TECH,
        level_note="Polynomials over BigInt and Ratio<BigInt> of every length: each operation in every call form proved equal to the mathematical result as an identity in an unconstrained indeterminate, normalised, in lowest terms; ModularInteger coefficients only by the bounded run. " + TRUST),
    "N03": dict(
        feature="poly", suites=["pdiv", "poly", "traits"], contracts=r"^pdiv::", labels=None,
        native=["polydiv."], native_feature="poly", native_ms=10000,
        bounded="ModularInteger and machine-integer coefficient instances, and the failing-input search for the proved instances: dividend/divisor pairs up to degree 8",
        rule="random cases biased to edges, distinct by content; each compared with an independent computation",
        level="proof", technique=TECH,
        level_note="Polynomials over BigInt and Ratio<BigInt> of every degree: the pseudo-division loops, every division/remainder/exact/checked form and modular powers proved; uniqueness of division and congruence laws are stated axioms; ModularInteger coefficients only by the bounded run. " + TRUST),
    "N04": dict(
        feature="poly", suites=["gcd", "pdiv", "poly", "traits"], contracts=r"^pgcd::", labels=None,
        native=["polygcd."], native_feature="poly", native_ms=10000,
        bounded="polynomial coefficients (bivariate resultants) and the failing-input search for the proved instances: pairs up to degree 6 with planted common factors; resultants against a fraction-free Sylvester determinant",
        rule="random cases biased to edges, distinct by content; each compared with an independent computation",
        level="proof", technique=TECH,
        level_note="Polynomials over BigInt and Ratio<BigInt> of every degree (up to 2^31 coefficients): the remainder-sequence loops and the recursive resultant proved against ideals of Q[X] and the resultant recurrences; ideal and resultant laws and the exactness of subresultant divisions are stated axioms; the division contracts of N03 are used. " + TRUST),
    "N05": dict(
        native=["polyfactor."], native_feature="poly", native_ms=10000,
        bounded="products of random small polynomials up to degree 8 or so",
        rule="random cases biased to edges, distinct by content; each compared with an independent computation",
        level="other", technique=TECH + "; bounded stand-in for the functions not under contract",
        level_note="bounded only so far."),
    "N06": dict(
        native=["polysturm."], native_feature="poly", native_ms=10000,
        bounded="polynomials with known real roots and random endpoints",
        rule="random cases biased to edges, distinct by content; each compared with an independent computation",
        level="other", technique=TECH + "; bounded stand-in for the functions not under contract",
        level_note="bounded only so far."),
    "R01": dict(
        feature="alg", suites=["biv", "sel", "alg", "trans", "interval", "poly", "traits"], contracts=r"^alg::(?!.*(log2|partial_cmp|eq$))", labels=None,
        native=["algarith."], native_feature="alg", native_ms=12000,
        bounded="no function of this property's own code is outside the verifier's reach; the bounded run looks for failing inputs and exercises the assumed contracts below it: operands of degree up to 3 (coefficients mostly below 2^7, rational ones up to 100 bits) in all isolating-interval shapes, against rational root enclosures at 240 bits",
        rule="random operands biased to edges, distinct by content; each result compared with an independent root isolation",
        level="proof", technique=TECH,
        level_note="Every operator, reciprocal, negation and conversion in every call form, the interval shrinker and the root selection loop proved to give the exact real value in valid representation. Assumed below it: factor() (N05), the resultant (N04), Sturm's theorem (N06) and bivariate polynomial arithmetic. " + TRUST),
    "R02": dict(
        feature="alg", suites=["biv", "sel", "alg", "trans", "interval", "poly", "traits"], contracts=r"^alg::(eq|cmp|partial_cmp|cmp_with_zero|is_\w+|abs|signum|neg.*|sub.*|add.*|shrink|sign_changes_at|from|zero|one|negative_one|eval_generic.*|to_rational|to_integer|degree)$|^alg::add", labels=None,
        native=["algcmp."], native_feature="alg", native_ms=12000,
        bounded="no function of this property's own code is outside the verifier's reach; the bounded run looks for failing inputs and exercises the assumed contracts below it: operands of degree up to 3 (coefficients mostly below 2^7, rational ones up to 100 bits) in all isolating-interval shapes, against rational root enclosures at 240 bits",
        rule="random operands biased to edges, distinct by content; each result compared with an independent root isolation",
        level="proof", technique=TECH,
        level_note="Comparisons, sign tests and everything they are computed from proved against the order of the reals. Assumed below it: factor() (N05), the resultant (N04), Sturm's theorem (N06) and bivariate polynomial arithmetic. " + TRUST),
    "R03": dict(
        feature="alg", suites=["biv", "sel", "alg", "trans", "interval", "poly", "traits"], contracts=r"^alg::(.*(floor|ceil|trunc|fract|log2).*|is_integer|is_rational|to_integer.*|to_rational|cmp_with_zero|is_zero|is_one|shrink|sign_changes_at|from|sub.*|add.*|neg.*)$|^interval::(floor|ceil)_log2", labels=None,
        native=["alground."], native_feature="alg", native_ms=12000,
        bounded="no function of this property's own code is outside the verifier's reach; the bounded run looks for failing inputs and exercises the assumed contracts below it: operands of degree up to 3 (coefficients mostly below 2^7, rational ones up to 100 bits) in all isolating-interval shapes, against rational root enclosures at 240 bits",
        rule="random operands biased to edges, distinct by content; each result compared with an independent root isolation",
        level="proof", technique=TECH,
        level_note="Rounding, fractional part, integrality and base-2 logarithms proved for every number, with loop invariants on the interval refinement. Assumed below it: factor() (N05), the resultant (N04), Sturm's theorem (N06) and bivariate polynomial arithmetic. " + TRUST),
    "R04": dict(
        feature="alg", suites=["pow", "biv", "sel", "alg", "trans", "interval", "poly", "traits"],
        contracts=r"^alg::(pow.*|checked_pow.*|checked_into_pow|recip.*|checked_recip|shrink|sign_changes_at|from|zero|one|negative_one|is_\w+|cmp_with_zero|remove_zero_from_interval|eval_generic.*|to_rational)$", labels=None,
        native=["algpow."], native_feature="alg", native_ms=12000,
        bounded="no function of this property's own code is outside the verifier's reach except exponents given as a pair; the bounded run looks for failing inputs and exercises the assumed contracts below it: operands of degree up to 3 (coefficients mostly below 2^7, rational ones up to 100 bits) in all isolating-interval shapes, against rational root enclosures at 240 bits",
        rule="random operands biased to edges, distinct by content; each result compared with an independent root isolation",
        level="proof", technique=TECH,
        level_note="Powers with every exponent type, the power root selector and its root selection loop proved to give the real power, and None exactly where it is undefined. Assumed below it: factor() (N05), the resultant (N04), Sturm's theorem (N06), bivariate polynomial arithmetic and the laws of real powers. " + TRUST),
}

NOT_APPLICABLE = {}
