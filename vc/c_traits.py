"""Contracts on traits.rs: logarithms, trailing zeros, gcd/lcm, exact division."""
import z3
from values import *
from engine import Contract, Clause, int_range
from loops import LoopSpec
from models import RATIO, last, gcd_of, lcm_of, GCD


def argt(eng, fn):
    return [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["trait_args"]]


def is_ratio(t):
    return t["k"] == "adt" and t["path"] == RATIO


class TC(Contract):
    def __init__(self, name, trait, method, kind):
        self.name, self.trait, self.method, self.kind = name, trait, method, kind

    def matches(self, eng, fn):
        if fn["method"] != self.method or last(fn["trait"]) != self.trait or fn["crate"] != "algebraics":
            return False
        ts = argt(eng, fn)
        if self.kind == "prim":
            return all(t["k"] == "int" for t in ts)
        if self.kind == "big":
            return all(eng.is_bigint(t) or eng.is_biguint(t) for t in ts)
        if self.kind == "int":
            return all(eng.is_intlike(t) for t in ts)
        if self.kind == "ratio":
            return is_ratio(ts[0]) and all(is_ratio(t) or eng.is_intlike(t) for t in ts)
        return False


def some(c):
    """(is_some, payload) of an Option result"""
    return c.r.var == 1, (c.r.f[0] if c.r.var == 1 else None)


class PrimLog(TC):
    def __init__(self, name, method, trait, which):
        super().__init__(name, trait, method, "prim")
        self.which = which

    def ensures(self, c):
        a = to_z(c.a[0])
        t = c.aty(0)
        bits = t["bits"]
        sm, k = some(c)
        if self.which == "tz":
            if not sm:
                return [Clause("none-iff-zero", a == 0)]
            k = to_z(k)
            # k trailing zeros: divisible by 2^k, not by 2^(k+1)  (finite table over the type's width)
            x = witness_tz(c.st, a, k, None)
            return [Clause("range", z3.And(k >= 0, k < bits)), Clause("nonzero", a != 0),
                    Clause("exact", z3.And(*[z3.Implies(k == j, a == (2 * x + 1) * (1 << j)) for j in range(bits)]))]
        if not sm:
            return [Clause("none-iff-nonpositive", a <= 0)]
        k = to_z(k)
        if self.which == "floor":
            body = [z3.Implies(k == j, z3.And(a >= 1 << j, a < 2 << j)) for j in range(bits)]
            out = [Clause("positive", a > 0), Clause("range", z3.And(k >= 0, k < bits)), Clause("exact", z3.And(*body))]
            if c.assuming:
                # the same table, as a power of two
                c.st.assume(k >= 0)
                p = to_z(c.st.pow2(k))
                out.append(Clause("pow2", z3.And(p <= a, a < 2 * p)))
            return out
        body = [z3.Implies(k == j, z3.And(a <= 1 << j, (2 * a > 1 << j) if j else a == 1)) for j in range(bits + 1)]
        return [Clause("positive", a > 0), Clause("range", z3.And(k >= 0, k <= bits)), Clause("exact", z3.And(*body))]


class BigLog(TC):
    def __init__(self, name, method, trait, which):
        super().__init__(name, trait, method, "big")
        self.which = which

    def ensures(self, c):
        a = to_z(c.a[0])
        sm, k = some(c)
        st = c.st
        if self.which == "tz":
            if not sm:
                return [Clause("none-iff-zero", a == 0)]
            k = to_z(k)
            p = st.pow2(k)
            x = witness_tz(st, a, k, p)
            return [Clause("nonzero", a != 0), Clause("nonneg", k >= 0), Clause("odd-part", a == (2 * x + 1) * p)]
        if not sm:
            return [Clause("none-iff-nonpositive", a <= 0)]
        k = to_z(k)
        p = st.pow2(k)
        if self.which == "floor":
            return [Clause("positive", a > 0), Clause("nonneg", z3.And(k >= 0, k < 1 << 62)), Clause("lower", p <= a), Clause("upper", a < 2 * p)]
        return [Clause("positive", a > 0), Clause("nonneg", z3.And(k >= 0, k < 1 << 62)), Clause("upper", a <= p), Clause("lower", z3.If(k == 0, a == 1, 2 * a > p))]


def witness_tz(st, a, k, p):
    """the half of the odd part of a: from a model or invariant when one is recorded, else fresh"""
    for (x, t, kk) in st.ghost.get("tzk", ()):
        d = s(to_z(t) - k)
        e = s(to_z(x) - a)
        e2 = s(to_z(x) + a)
        if isc(d) and d == 0 and isc(e) and e == 0:
            return kk
        if isc(d) and d == 0 and isc(e2) and e2 == 0:
            return -kk - 1
    for (t, kk) in st.ghost.get("oddpart", ()):
        d = s(to_z(t) - k)
        if isc(d) and d == 0:
            # a == +-(2kk+1)*p : choose by sign
            return z3.If(a >= 0, to_z(kk), -to_z(kk) - 1)
    w = st.fresh_int("oddhalf")
    st.ghost["oddpart"] = st.ghost.get("oddpart", ()) + ((k, w),)
    return z3.If(a >= 0, w, -w - 1)


# ---------------------------------------------------------------- gcd
def mags(c):
    """operands whose magnitude does not fit the type are outside the contract"""
    t = c.aty(0)
    if t["k"] == "int" and t["signed"]:
        lo = int_range(t)[0]
        return [Clause("magnitude-fits", band(cmpop("gt", c.a[0], lo), cmpop("gt", c.a[1], lo)))]
    return []


def lcm_fits(c):
    t = c.aty(0)
    if t["k"] == "int":
        return [Clause("lcm-fits", cmpop("le", lcm_of(c.st, c.a[0], c.a[1]), int_range(t)[1]))]
    return []


def fld(c, v, n):
    names = [f[0] for f in c.eng.prog.ty(v.ty)["variants"][0]["fields"]]
    return v.f[names.index(n)]


class Gcd(TC):
    def __init__(self, name, trait, method):
        super().__init__(name, trait, method, "int")

    def requires(self, c):
        m = mags(c)
        for cl in m:
            c.st.assume(cl.goal)
        return m + (lcm_fits(c) if self.method in ("lcm", "gcd_lcm", "extended_gcd_lcm") else [])

    def ensures(self, c):
        a, b = c.a
        g, l = to_z(gcd_of(c.st, a, b)), to_z(lcm_of(c.st, a, b))
        if self.method == "gcd":
            return [Clause("gcd", to_z(c.r) == g)]
        if self.method == "lcm":
            return [Clause("lcm", to_z(c.r) == l)]
        out = [Clause("gcd", to_z(fld(c, c.r, "gcd")) == g)]
        if self.method.endswith("gcd_lcm"):
            out.append(Clause("lcm", to_z(fld(c, c.r, "lcm")) == l))
        if self.method.startswith("extended"):
            x, y = to_z(fld(c, c.r, "x")), to_z(fld(c, c.r, "y"))
            out.append(Clause("bezout", x * to_z(a) + y * to_z(b) == g))
            if c.assuming:
                c.st.ghost["bez"] = c.st.ghost.get("bez", ()) + ((a, b, x, y),)
        return out


class RGcd(TC):
    def __init__(self, name, trait, method):
        super().__init__(name, trait, method, "ratio")

    def ensures(self, c):
        (an, ad), (bn, bd) = c.a[0].f, c.a[1].f
        an, ad, bn, bd = map(to_z, (an, ad, bn, bd))
        u, v, d = an * bd, bn * ad, ad * bd
        g, l = to_z(gcd_of(c.st, u, v)), to_z(lcm_of(c.st, u, v))

        def isq(r, n):
            """r == n / d as a reduced non-negative fraction"""
            return z3.And(to_z(r.f[0]) * d == n * to_z(r.f[1]), to_z(r.f[0]) >= 0, to_z(r.f[1]) >= 1)
        if self.method == "gcd":
            return [Clause("gcd", isq(c.r, g))]
        if self.method == "lcm":
            return [Clause("lcm", isq(c.r, l))]
        out = [Clause("gcd", isq(fld(c, c.r, "gcd"), g))]
        if self.method.endswith("gcd_lcm"):
            out.append(Clause("lcm", isq(fld(c, c.r, "lcm"), l)))
        if self.method.startswith("extended"):
            x, y = fld(c, c.r, "x"), fld(c, c.r, "y")
            out.append(Clause("bezout", to_z(x.f[0]) * u + to_z(y.f[0]) * v == g))
            out.append(Clause("integer-cofactors", z3.And(to_z(x.f[1]) == 1, to_z(y.f[1]) == 1)))
        return out


# ---------------------------------------------------------------- exact division
def ovf(c, n, d):
    t = c.aty(0)
    if t["k"] == "int" and t["signed"]:
        return band(cmpop("eq", n, int_range(t)[0]), cmpop("eq", d, -1))
    return False


class Exact(TC):
    """method in exact_div, checked_exact_div, exact_div_assign, checked_exact_div_assign"""

    def bad(self, c):
        n, d = c.a
        key = ("exactbad", to_z(n).sexpr(), to_z(d).sexpr())
        r = c.st.memo.get(key)
        if r is None:
            m = c.st.mod_floor(n, d)
            for x in c.st.ghost.get("cofactors", ()):      # known multiples: n = d*x leaves no remainder
                c.st.assume(implies(band(cmpop("ne", d, 0), cmpop("eq", n, mul(d, x))), cmpop("eq", m, 0)))
            nd = bor(cmpop("eq", d, 0), cmpop("ne", m, 0), ovf(c, n, d))
            r = c.st.memo[key] = nd
        return r

    def panics(self, c):
        if self.method in ("exact_div", "exact_div_assign"):
            return self.bad(c)
        return False

    def quot(self, c, q, export=True):
        n, d = c.a
        return [Clause("divisor-nonzero", cmpop("ne", d, 0)), Clause("quotient", cmpop("eq", mul(q, d), n))]

    def notmult(self, c):
        n, d = c.a
        k = c.st.fresh_int("anyk")
        out = [Clause("fails-only-when-inexact", self.bad(c))]
        g = implies(bnot(ovf(c, n, d)), implies(cmpop("ne", d, 0), cmpop("ne", mul(k, d), n)))
        out.append(Clause("no-multiple", g, export=False))
        return out

    def ensures(self, c):
        m = self.method
        if m == "exact_div":
            return self.quot(c, c.r)
        if m == "exact_div_assign":
            return self.quot(c, c.n[0])
        if m == "checked_exact_div":
            sm, q = some(c)
            return self.quot(c, q) if sm else self.notmult(c)
        if c.r.var == 0:
            return self.quot(c, c.n[0])
        return [Clause("unchanged", cmpop("eq", c.n[0], c.a[0]))] + self.notmult(c)


class RExact(TC):
    def parts(self, c):
        n = c.a[0].f
        d = c.a[1].f if isinstance(c.a[1], Adt) else (c.a[1], 1)
        return n, d

    def panics(self, c):
        if self.method in ("exact_div", "exact_div_assign"):
            return cmpop("eq", self.parts(c)[1][0], 0)
        return False

    def quot(self, c, q):
        (nn, nd), (dn, dd) = self.parts(c)
        qn, qd = q.f
        return [Clause("divisor-nonzero", cmpop("ne", dn, 0)), Clause("quotient", cmpop("eq", mul(mul(qn, dn), nd), mul(mul(qd, dd), nn))),
                Clause("denominator", cmpop("ge", qd, 1))]

    def ensures(self, c):
        m = self.method
        dz = cmpop("eq", self.parts(c)[1][0], 0)
        if m == "exact_div":
            return self.quot(c, c.r)
        if m == "exact_div_assign":
            return self.quot(c, c.n[0])
        if m == "checked_exact_div":
            sm, q = some(c)
            return self.quot(c, q) if sm else [Clause("fails-only-on-zero", dz)]
        if c.r.var == 0:
            return self.quot(c, c.n[0])
        return [Clause("unchanged", band(cmpop("eq", c.n[0].f[0], c.a[0].f[0]), cmpop("eq", c.n[0].f[1], c.a[0].f[1]))), Clause("fails-only-on-zero", dz)]


def contracts():
    out = []
    for tr, me, w in (("FloorLog2", "floor_log2", "floor"), ("CeilLog2", "ceil_log2", "ceil"), ("TrailingZeros", "trailing_zeros", "tz")):
        out.append(PrimLog(f"log2::{me}", me, tr, w))
        out.append(BigLog(f"log2::{me}/big", me, tr, w))
    for me in ("gcd", "lcm", "gcd_lcm"):
        out.append(Gcd(f"gcd::{me}", "GCD", me))
        out.append(RGcd(f"gcd::{me}/ratio", "GCD", me))
    for me in ("extended_gcd", "extended_gcd_lcm"):
        out.append(Gcd(f"gcd::{me}", "ExtendedGCD", me))
        out.append(RGcd(f"gcd::{me}/ratio", "ExtendedGCD", me))
    for me in ("exact_div", "checked_exact_div"):
        out.append(Exact(f"exact::{me}", "ExactDiv", me, "int"))
        out.append(RExact(f"exact::{me}/ratio", "ExactDiv", me, "ratio"))
    for me in ("exact_div_assign", "checked_exact_div_assign"):
        out.append(Exact(f"exact::{me}", "ExactDivAssign", me, "int"))
        out.append(RExact(f"exact::{me}/ratio", "ExactDivAssign", me, "ratio"))
    return out


# ---------------------------------------------------------------- BigUint::trailing_zeros loops
class TzGrow(LoopSpec):
    """bit is a power of two; bit == 1 or bit < 2*ceil_log2"""
    name = "bit-is-power-of-two"
    vars = ("bit",)

    def ghost0(self, l):
        return {"k": 0}

    def ghost_next(self, l):
        return {"k": add(l.g["k"], 1)}

    def inv(self, l):
        k, bit, n = l.g["k"], l.z("bit"), l.z("ceil_log2")
        return [Clause("k", to_z(k) >= 0), Clause("bit", bit == l.st.pow2(k)), Clause("bound", z3.Or(bit == 1, bit < 2 * n))]

    def lemmas(self, l):
        l.st.ghost["tz.k"] = l.g["k"]


class TzSearch(LoopSpec):
    """self == value * 2^retval, value == Q*2^E + r with 0 < r < 2^E, E == 2*bit (1 when bit == 0)"""
    name = "odd-part-search"
    vars = ("bit", "retval", "value")

    def ghost0(self, l):
        return {"k": l.st.ghost["tz.k"], "m": 0, "Q": 0, "E": mul(2, l.v("bit"))}

    def ghost_next(self, l):
        bit, st = l.h("bit"), l.st
        p = st.pow2(bit)
        old = l.h("value")
        took = cmpop("ne", l.v("retval"), l.h("retval"))
        sh = st.floor_div(old, p)
        # new quotient: unchanged when shifted, else the shifted value
        r = sub(old, mul(l.g["Q"], st.pow2(l.g["E"])))
        l.rec["r"] = r
        return {"k": sub(l.g["k"], 1), "m": ite(took, 2 * to_z(l.g["m"]) + 1, 2 * to_z(l.g["m"])),
                "Q": ite(took, l.g["Q"], sh), "E": bit}

    def inv(self, l):
        st = l.st
        bit, ret, val, E, Q, k, m = l.z("bit"), l.z("retval"), l.z("value"), l.g["E"], l.g["Q"], l.g["k"], l.g["m"]
        PE = st.pow2(E)
        r = val - to_z(Q) * PE
        me = l.v("self")
        return [Clause("k", z3.If(bit == 0, to_z(k) == -1, to_z(k) >= 0)), Clause("bit", z3.Implies(bit >= 1, bit == st.pow2(k))),
                Clause("E", z3.If(bit >= 1, to_z(E) == 2 * bit, to_z(E) == 1)), Clause("nonneg", z3.And(ret >= 0, bit >= 0, val >= 1)),
                Clause("multiple", z3.Implies(bit >= 1, ret == to_z(m) * st.pow2(add(k, 1)))),
                Clause("product", to_z(me) == val * st.pow2(l.v("retval"))),
                Clause("rest-positive", r > 0), Clause("rest-small", r < PE)]

    def lemmas(self, l):
        st = l.st
        st.pow2(l.v("bit"))
        st.pow2(add(l.v("retval"), l.v("bit")))
        p2b = st.pow2(mul(2, l.v("bit")))
        st.assume(z3.Implies(to_z(l.g["E"]) == 2 * l.z("bit"), st.pow2(l.g["E"]) == p2b))   # congruence
        st.assume(z3.Implies(to_z(l.g["E"]) == 1, st.pow2(l.g["E"]) == 2))
        p = st.pow2(add(l.g["k"], 1))
        st.ghost["mult"] = st.ghost.get("mult", ()) + ((l.v("retval"), p, l.z("bit") >= 1),)
        st.ghost["oddpart"] = st.ghost.get("oddpart", ()) + ((l.v("retval"), l.g["Q"]),)


def loopspecs():
    def tz(fn):
        return fn["method"] == "trailing_zeros" and fn["trait"].endswith("TrailingZeros") and fn["crate"] == "algebraics" and "BigUint" in fn["name"]
    return {tz: {0: TzGrow(), 1: TzSearch()}}
