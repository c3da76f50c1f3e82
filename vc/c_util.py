"""Contracts on the prime queries of util.rs.

PRIME is uninterpreted; its axioms are instantiated where needed (see AX).  The table of small primes is read from the compiled constant and
compared with a sieve on every run; its facts are used only when it is a contiguous run of the primes."""
import z3
from values import *
from engine import Contract, Clause
from loops import LoopSpec

PR = z3.Function("prime", z3.IntSort(), z3.BoolSort())
AX = ("prime(n): false for n < 2 and for n with a divisor 1 < d < n; a composite n has a prime divisor p with p*p <= n; "
      "values at 2, 3, 4294967291..4294967295 and 2147483647 by trial division; the constant table is compared with a sieve at run time")


def sieve(n):
    a = bytearray([1]) * (n + 1)
    a[0] = a[1] = 0
    for i in range(2, int(n ** .5) + 1):
        if a[i]:
            a[i * i::i] = bytearray(len(range(i * i, n + 1, i)))
    return [i for i in range(n + 1) if a[i]]


SMALL = sieve(65536)


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL:
        if p * p > n:
            return True
        if n % p == 0:
            return n == p
    return n < 65537 * 65537


def table_run(vals):
    """first prime index when vals is a contiguous run of the primes"""
    if not vals or vals[0] not in SMALL:
        return None
    s = SMALL.index(vals[0])
    return s if list(vals) == SMALL[s:s + len(vals)] else None


def known(st, *ns):
    for n in ns:
        st.assume(PR(z3.IntVal(n)) if is_prime(n) else z3.Not(PR(z3.IntVal(n))))


def composite(st, n, d):
    """instance: a divisor 1 < d < n"""
    st.assume(z3.Implies(z3.And(d > 1, d < n, n % d == 0), z3.Not(PR(n))))


def basics(eng, st, w):
    eng.used_axioms.add(AX)
    st.assume(z3.Implies(w < 2, z3.Not(PR(w))))
    composite(st, w, z3.IntVal(2))
    known(st, 2, 3)


class Fn(Contract):
    def __init__(self, name, fname):
        self.name, self.fname = name, fname

    def matches(self, eng, fn):
        return fn["path"] == "algebraics::util::" + self.fname


class IsPrime(Fn):
    def requires(self, c):
        if not c.calling:
            st, v = c.st, to_z(c.a[0])
            basics(c.eng, st, v)
            L = st.fresh_int("least_factor")
            st.assume(z3.Implies(z3.And(v >= 2, z3.Not(PR(v))), z3.And(L >= 2, L * L <= v, v % L == 0, PR(L), L < 65536)))
            st.ghost["lpf"] = (v, L)
        return []

    def ensures(self, c):
        r = c.r
        return [Clause("answer", (r if isinstance(r, z3.ExprRef) else z3.BoolVal(bool(r))) == PR(to_z(c.a[0])))]


class IsPrimeLoop(LoopSpec):
    name = "trial-division"

    def table(self, l):
        it = l.st.read(l.ref("iter"))
        seq = l.st.read(it.d["ref"]) if isinstance(it, It) and "ref" in it.d else None
        if not isinstance(seq, SSeq) or len(seq.arrs) != 1:
            raise Unsupported("trial division over something else than a table")
        return it, seq, l.eng.tables.get(str(seq.arrs[0]))

    def ghost0(self, l):
        st = l.st
        it, seq, vals = self.table(l)
        v, L = st.ghost["lpf"]
        K = st.fresh_int("K")
        n = to_z(seq.len)
        s = table_run(vals) if vals is not None else None
        T = seq.arrs[0]
        if s == 0 and vals[-1] == SMALL[-1]:
            # every prime below 2^16 is in the table
            st.assume(z3.Implies(z3.And(PR(L), L < 65536), z3.And(0 <= K, K < n, z3.Select(T, K) == L)))
        rk = st.fresh_int("rem")
        st.assume(rk == v % z3.Select(T, K))
        st.ghost["tab"] = (T, K, n, s is not None, vals)
        st.ghost["rk"] = rk
        return {}

    def inv(self, l):
        st = l.st
        it = st.read(l.ref("iter"))
        T, K, n, run, vals = st.ghost["tab"]
        v, L = st.ghost["lpf"]
        pos = to_z(it.d["pos"])
        return [Clause("value", z3.And(v > 1, l.z("v") == v)), Clause("index", z3.And(pos >= 0, pos <= n, to_z(it.d["end"]) == n)),
                Clause("no-smaller-factor", z3.Implies(z3.And(0 <= K, K < pos), st.ghost["rk"] != 0))]

    def lemmas(self, l):
        st = l.st
        it = st.read(l.ref("iter"))
        T, K, n, run, vals = st.ghost["tab"]
        v, L = st.ghost["lpf"]
        pos = to_z(it.d["pos"])
        d = z3.Select(T, pos)
        if run:
            inr = z3.And(0 <= pos, pos < n)
            st.assume(z3.Implies(inr, z3.And(PR(d), d >= vals[0], d <= vals[-1])))
            st.assume(z3.Implies(z3.And(inr, 0 <= K, K < n), (K < pos) == (z3.Select(T, K) < d)))
        st.assume(z3.Implies(K == pos, st.ghost["rk"] == v % d))
        composite(st, v, d)


class Near(Fn):
    """prev_prime / next_prime: the closest prime strictly below / above"""

    def __init__(self, name, fname, up, maxv):
        super().__init__(name, fname)
        self.up, self.maxv = up, maxv

    def requires(self, c):
        st = c.st
        if not c.calling:
            w = st.fresh_int("other")
            basics(c.eng, st, w)
            known(st, 4294967291, 4294967292, 4294967293, 4294967294, 4294967295, 2147483647)
            for k in (4294967292, 4294967293, 4294967294, 4294967295):
                st.assume(z3.Implies(w == k, z3.Not(PR(w))))
            st.ghost["otherw"] = w
            st.ghost["argv"] = to_z(c.a[0])
        return []

    def between(self, v, p, w):
        return z3.And(v < w, w < p) if self.up else z3.And(p < w, w < v)

    def ensures(self, c):
        st = c.st
        v = to_z(c.a[0])
        w = st.ghost.get("otherw")
        r = c.r
        if not isinstance(r, Adt):
            raise Unsupported("result shape")
        none = len(r.f) == 0
        out = []
        if w is not None:
            lim = w <= self.maxv
            if none:
                out.append(Clause("none-only-when-no-prime", z3.Not(PR(w)), [v < w, lim] if self.up else [w < v]))
            else:
                out.append(Clause("closest", z3.Not(PR(w)), [self.between(v, to_z(r.f[0]), w)]))
        if not none:
            p = to_z(r.f[0])
            out += [Clause("prime", PR(p)), Clause("side", p > v if self.up else p < v), Clause("fits", z3.And(p >= 2, p <= self.maxv))]
            if self.up:
                out.append(Clause("not-beyond-the-largest", z3.And(z3.Implies(v < 2147483647, p <= 2147483647)), export=True))
        return out


class NearLoop(LoopSpec):
    name = "search"

    def __init__(self, up):
        self.up = up

    def inv(self, l):
        st = l.st
        v, w, v0 = l.z("v"), st.ghost["otherw"], st.ghost["argv"]
        cl = [Clause("odd", z3.And(v % 2 == 1, v >= 3))]
        if self.up:
            st.assume(z3.Implies(v == 4294967291, PR(v)))
            st.assume(z3.Implies(v == 2147483647, PR(v)))
            cl += [Clause("bounds", z3.And(v > v0, v <= 4294967291)), Clause("bounds-31", z3.Implies(v0 < 2147483647, v <= 2147483647)),
                   Clause("skipped", z3.Implies(z3.And(v0 < w, w < v), z3.Not(PR(w))))]
        else:
            st.assume(z3.Implies(v == 3, PR(v)))
            cl += [Clause("bounds", v < v0), Clause("skipped", z3.Implies(z3.And(v < w, w < v0), z3.Not(PR(w))))]
        return cl


def contracts():
    return [IsPrime("prime::is_prime_u32", "is_prime_u32"),
            Near("prime::prev_prime_u32", "prev_prime_u32", False, (1 << 32) - 1), Near("prime::prev_prime_i32", "prev_prime_i32", False, (1 << 31) - 1),
            Near("prime::next_prime_u32", "next_prime_u32", True, (1 << 32) - 1), Near("prime::next_prime_i32", "next_prime_i32", True, (1 << 31) - 1)]


def loopspecs():
    f = lambda n: (lambda fn: fn["path"] == "algebraics::util::" + n)
    return {f("is_prime_u32"): {0: IsPrimeLoop()}, f("prev_prime_u32"): {0: NearLoop(False)}, f("next_prime_u32"): {0: NearLoop(True)}}


def install(m):
    pass
