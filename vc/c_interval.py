"""Contracts on interval_arithmetic::DyadicFractionInterval (real code, by compiled item)."""
import z3
from values import *
from engine import Contract, Clause, Ctx
from models import RATIO, last

MAXN = 1 << 60
DNAME = "DyadicFractionInterval"


def is_d(eng, ti):
    t = eng.prog.ty(eng.prog.deref_ty(ti))
    return t["k"] == "adt" and last(t["path"]) == DNAME


class DV:
    """view of an interval value"""

    def __init__(self, eng, v):
        t = eng.prog.ty(v.ty)
        names = [f[0] for f in t["variants"][0]["fields"]]
        try:
            self.lo = v.f[names.index("lower_bound_numer")]
            self.hi = v.f[names.index("upper_bound_numer")]
            self.n = v.f[names.index("log2_denom")]
        except ValueError:
            raise Unsupported("interval representation changed")


def with_fields(eng, v, **kw):
    t = eng.prog.ty(v.ty)
    names = {"lower_bound_numer": "lo", "upper_bound_numer": "hi", "log2_denom": "n"}
    return Adt(v.ty, v.var, [kw.get(names.get(f[0]), x) for f, x in zip(t["variants"][0]["fields"], v.f)])


def fresh_hook(eng, st, t, name):
    if last(t["path"]) != DNAME:
        return None
    names = [f[0] for f in t["variants"][0]["fields"]]
    outs = eng.fresh_list(st, [(f"{name}.{fn}", fi) for fn, fi in t["variants"][0]["fields"]])
    res = []
    for (s1, fs) in outs:
        v = Adt(t["id"], 0, fs)
        d = DV(eng, v)
        if not eng.raw:
            s1.assume(to_z(d.lo) <= to_z(d.hi))
        s1.assume(to_z(d.n) <= MAXN)
        res.append((s1, v))
    return res


def inv_hook(eng, v):
    if last(eng.prog.ty(v.ty).get("path", "")) != DNAME:
        return None
    return wf(DV(eng, v))


def wf(d):
    return cmpop("le", d.lo, d.hi)


def is_floor(q, n, d):
    """q == floor(n/d), d > 0"""
    q, n, d = to_z(q), to_z(n), to_z(d)
    return z3.And(q * d <= n, n < q * d + d)


def is_ceil(q, n, d):
    q, n, d = to_z(q), to_z(n), to_z(d)
    return z3.And(q * d >= n, n > q * d - d)


def R(x):
    return z3.ToReal(to_z(x)) if not (isinstance(x, z3.ExprRef) and x.sort() == z3.RealSort()) else x


def member(st, d, name):
    """skolem real (scaled by 2^n) inside d: lo <= X <= hi"""
    X = st.fresh_real(name)
    return X, [R(d.lo) <= X, X <= R(d.hi)]


def rparts(v):
    if isinstance(v, Adt):
        return v.f[0], v.f[1]
    return v, 1


class DC(Contract):
    """base: contract on a D method; self.out(c) gives the resulting interval view"""

    def __init__(self, name, method, trait=None, rhs=None):
        self.name, self.method, self.trait, self.rhs = name, method, trait, rhs

    def matches(self, eng, fn):
        if fn["method"] != self.method or fn["crate"] != "algebraics":
            return False
        if self.trait is None:
            return not fn["trait"] and fn["self_ty"] >= 0 and is_d(eng, fn["self_ty"])
        if last(fn["trait"]) != self.trait or not fn["trait_args"] or not is_d(eng, fn["trait_args"][0]):
            return False
        if self.rhs is None:
            return True
        if len(fn["trait_args"]) < 2:
            return False
        t = eng.prog.ty(eng.prog.deref_ty(fn["trait_args"][1]))
        if self.rhs == "D":
            return is_d(eng, t["id"])
        if self.rhs == "int":
            return eng.is_intlike(t)
        if self.rhs == "ratio":
            return t["k"] == "adt" and t["path"] == RATIO
        return False

    def out(self, c):
        """resulting interval: return value if it is a D, else the mutated self"""
        if c.n and c.n[0] is not None:
            return DV(c.eng, c.n[0])
        return DV(c.eng, c.r)

    def self_(self, c):
        return DV(c.eng, c.a[0])


def frame_n(d, o):
    return Clause("precision", cmpop("eq", o.n, d.n))


# ------------------------------------------------------------------ constructors / accessors
class New(DC):
    def panics(self, c):
        return cmpop("gt", c.a[0], c.a[1])

    def ensures(self, c):
        o = DV(c.eng, c.r)
        return [Clause("lower", cmpop("eq", o.lo, c.a[0])), Clause("upper", cmpop("eq", o.hi, c.a[1])),
                Clause("precision", cmpop("eq", o.n, c.a[2])), Clause("wf", wf(o))]


def pre_n(c, i):
    return [Clause("precision-bound", cmpop("le", c.a[i], MAXN))]


class FromRatioRange(DC):
    def requires(self, c):
        return pre_n(c, 2)

    def panics(self, c):
        (ln, ld), (un, ud) = rparts(c.a[0]), rparts(c.a[1])
        return cmpop("gt", mul(ln, ud), mul(un, ld))

    def ensures(self, c):
        (ln, ld), (un, ud) = rparts(c.a[0]), rparts(c.a[1])
        o = DV(c.eng, c.r)
        if c.assuming:
            c.st.ghost["ratio_range"] = (ln, ld, un, ud, o)
        p = c.st.pow2(c.a[2])
        return [Clause("lower=floor", is_floor(o.lo, mul(ln, p), ld)), Clause("upper=ceil", is_ceil(o.hi, mul(un, p), ud)),
                Clause("precision", cmpop("eq", o.n, c.a[2])), Clause("wf", wf(o))]


class FromRatio(DC):
    def requires(self, c):
        return pre_n(c, 1)

    def ensures(self, c):
        n, d = rparts(c.a[0])
        o = DV(c.eng, c.r)
        p = c.st.pow2(c.a[1])
        return [Clause("lower=floor", is_floor(o.lo, mul(n, p), d)), Clause("upper=ceil", is_ceil(o.hi, mul(n, p), d)),
                Clause("precision", cmpop("eq", o.n, c.a[1])), Clause("wf", wf(o))]


class FromInt(DC):
    def requires(self, c):
        return pre_n(c, 1)

    def ensures(self, c):
        o = DV(c.eng, c.r)
        p = c.st.pow2(c.a[1])
        v = mul(c.a[0], p)
        return [Clause("exact", band(cmpop("eq", o.lo, v), cmpop("eq", o.hi, v))), Clause("precision", cmpop("eq", o.n, c.a[1])), Clause("wf", wf(o))]


class FromIntRange(DC):
    def requires(self, c):
        return pre_n(c, 2)

    def panics(self, c):
        return cmpop("gt", c.a[0], c.a[1])

    def ensures(self, c):
        o = DV(c.eng, c.r)
        p = c.st.pow2(c.a[2])
        return [Clause("exact", band(cmpop("eq", o.lo, mul(c.a[0], p)), cmpop("eq", o.hi, mul(c.a[1], p)))),
                Clause("precision", cmpop("eq", o.n, c.a[2])), Clause("wf", wf(o))]


class FromDyadic(DC):
    def ensures(self, c):
        o = DV(c.eng, c.r)
        return [Clause("exact", band(cmpop("eq", o.lo, c.a[0]), cmpop("eq", o.hi, c.a[0]), cmpop("eq", o.n, c.a[1])))]


class ConstN(DC):
    """zero / one / negative_one (log2_denom)"""

    def __init__(self, name, method, k):
        super().__init__(name, method)
        self.k = k

    def requires(self, c):
        return pre_n(c, 0)

    def ensures(self, c):
        o = DV(c.eng, c.r)
        v = mul(self.k, c.st.pow2(c.a[0])) if self.k else 0
        return [Clause("exact", band(cmpop("eq", o.lo, v), cmpop("eq", o.hi, v), cmpop("eq", o.n, c.a[0])))]


class SetConst(DC):
    def __init__(self, name, method, k):
        super().__init__(name, method)
        self.k = k

    def ensures(self, c):
        d = self.self_(c)
        o = self.out(c)
        v = mul(self.k, c.st.pow2(d.n)) if self.k else 0
        return [Clause("exact", band(cmpop("eq", o.lo, v), cmpop("eq", o.hi, v), cmpop("eq", o.n, d.n)))]


def ratio_is(r, num, den):
    return band(cmpop("eq", mul(r.f[0], den), mul(num, r.f[1])), cmpop("ge", r.f[1], 1))


class RatioRange(DC):
    def ensures(self, c):
        d = self.self_(c)
        p = c.st.pow2(d.n)
        return [Clause("lower", ratio_is(c.r.f[0], d.lo, p)), Clause("upper", ratio_is(c.r.f[1], d.hi, p))]


class Bound(DC):
    def __init__(self, name, method, which):
        super().__init__(name, method)
        self.which = which

    def ensures(self, c):
        d = self.self_(c)
        p = c.st.pow2(d.n)
        return [Clause("value", ratio_is(c.r, getattr(d, self.which), p))]


class Getter(DC):
    def __init__(self, name, method, which):
        super().__init__(name, method)
        self.which = which

    def exact(self, c, st, v, i):
        return getattr(self.self_(c), self.which) if i is None else v

    def ensures(self, c):
        return [Clause("value", cmpop("eq", c.r, getattr(self.self_(c), self.which)))]


class Destructure(DC):
    def ensures(self, c):
        d = self.self_(c)
        return [Clause("value", band(cmpop("eq", c.r.f[0], d.lo), cmpop("eq", c.r.f[1], d.hi), cmpop("eq", c.r.f[2], d.n)))]


class SetBound(DC):
    """set_{lower,upper}_bound_numer / set_*_to_zero / set_to_*_bound"""

    def __init__(self, name, method, f, pan):
        super().__init__(name, method)
        self.f, self.pan = f, pan

    def panics(self, c):
        return self.pan(self.self_(c), c.a[1] if len(c.a) > 1 else None)

    def exact(self, c, st, v, i):
        if not (isinstance(v, Adt) and is_d(c.eng, v.ty)):
            return v
        d = self.self_(c)
        lo, hi = self.f(d, c.a[1] if len(c.a) > 1 else None)
        return with_fields(c.eng, v, lo=lo, hi=hi, n=d.n)

    def ensures(self, c):
        d, o = self.self_(c), self.out(c)
        lo, hi = self.f(d, c.a[1] if len(c.a) > 1 else None)
        return [Clause("bounds", band(cmpop("eq", o.lo, lo), cmpop("eq", o.hi, hi), cmpop("eq", o.n, d.n))), Clause("wf", wf(o))]


class Convert(DC):
    def requires(self, c):
        return pre_n(c, 1)

    def exact(self, c, st, v, i):
        if not (isinstance(v, Adt) and is_d(c.eng, v.ty)):
            return v
        st.assume(cmpop("le", c.a[1], MAXN))
        return with_fields(c.eng, v, n=c.a[1])

    def ensures(self, c):
        d, o = self.self_(c), self.out(c)
        m = c.a[1]
        if c.assuming:
            c.st.ghost["convert"] = c.st.ghost.get("convert", ()) + (d,)
        pn, pm = c.st.pow2(d.n), c.st.pow2(m)
        # relate through the differences so both directions are expressible
        if not isc(m) or not isc(d.n):
            c.st.pow2(sub(m, d.n)) if not isc(sub(m, d.n)) else None
            c.st.pow2(sub(d.n, m)) if not isc(sub(d.n, m)) else None
        ex = []
        if not isc(m) or not isc(d.n):
            k = c.st.pow2(sub(m, d.n))
            lo, hi = is_floor(o.lo, mul(d.lo, pm), pn), is_ceil(o.hi, mul(d.hi, pm), pn)
            up = cmpop("ge", m, d.n)
            ex = [Clause("widening-is-exact", implies(up, band(cmpop("eq", o.lo, mul(d.lo, k)), cmpop("eq", o.hi, mul(d.hi, k)))),
                         hyps=[] if c.assuming else [lo, hi, cmpop("gt", pn, 0), implies(up, cmpop("eq", pm, mul(pn, k)))], alone=True)]
            c.st.assume(implies(up, cmpop("eq", pm, mul(pn, k))))
        return [Clause("lower=floor", is_floor(o.lo, mul(d.lo, pm), pn)), Clause("upper=ceil", is_ceil(o.hi, mul(d.hi, pm), pn)),
                Clause("precision", cmpop("eq", o.n, m)), Clause("wf", wf(o))] + ex


# ------------------------------------------------------------------ arithmetic
def align(c, a, b):
    """[(guard, n', scale_a, scale_b)] for both orders of precision"""
    st = c.st
    out = []
    for (g, x, y) in ((cmpop("le", a.n, b.n), a, b), (cmpop("gt", a.n, b.n), b, a)):
        if isc(g) and not g:
            continue
        if not isc(g):
            if st.known(bnot(g)):
                continue
        d = sub(y.n, x.n)
        p = st.pow2(d)
        sa, sb = (p, 1) if x is a else (1, p)
        out.append((g, y.n, sa, sb))
    return out


def guard(g, f):
    return f if (isc(g) and g) else implies(g, f)


def mins(vals):
    r = to_z(vals[0])
    for v in vals[1:]:
        r = z3.If(to_z(v) < r, to_z(v), r)
    return r


def maxs(vals):
    r = to_z(vals[0])
    for v in vals[1:]:
        r = z3.If(to_z(v) > r, to_z(v), r)
    return r


class AddSub(DC):
    def __init__(self, name, method, trait, rhs, sign):
        super().__init__(name, method, trait, rhs)
        self.sign = sign

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        st = c.st
        cl = []
        if self.rhs == "D":
            b = DV(c.eng, c.a[1])
            if c.assuming:
                st.ghost["addd"] = (a, b, o)
            for (g, n, sa, sb) in align(c, a, b):
                bl, bh = (b.lo, b.hi) if self.sign > 0 else (neg(b.hi), neg(b.lo))
                cl.append(Clause("lower-exact", guard(g, cmpop("eq", o.lo, add(mul(a.lo, sa), mul(bl, sb))))))
                cl.append(Clause("upper-exact", guard(g, cmpop("eq", o.hi, add(mul(a.hi, sa), mul(bh, sb))))))
                cl.append(Clause("precision", guard(g, cmpop("eq", o.n, n))))
                X, hx = member(st, a, "X")
                Y, hy = member(st, b, "Y")
                Z = X * R(sa) + Y * R(sb) * self.sign
                cl.append(Clause("encloses", guard(g, z3.And(R(o.lo) <= Z, Z <= R(o.hi))), hx + hy, export=False))
        else:
            rn, rd = rparts(c.a[1])
            p = st.pow2(a.n)
            t = mul(rn, p) if self.sign > 0 else neg(mul(rn, p))
            cl.append(Clause("lower=floor", is_floor(sub(o.lo, a.lo), t, rd)))
            cl.append(Clause("upper=ceil", is_ceil(sub(o.hi, a.hi), t, rd)))
            cl.append(frame_n(a, o))
            X, hx = member(st, a, "X")
            # value: X + t/rd
            cl.append(Clause("encloses", z3.And(R(o.lo) * R(rd) <= X * R(rd) + R(t), X * R(rd) + R(t) <= R(o.hi) * R(rd)), hx, export=False))
        cl.append(Clause("wf", wf(o)))
        return cl


class MulD(DC):
    raw_args = (1,)      # exp() multiplies by an unordered pair of remainders

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        st = c.st
        b = DV(c.eng, c.a[1])
        cl = []
        if c.assuming:
            st.ghost["muld"] = (a, b, o)
        for (g, n, sa, sb) in align(c, a, b):
            al, ah, bl, bh = mul(a.lo, sa), mul(a.hi, sa), mul(b.lo, sb), mul(b.hi, sb)
            prods = [mul(al, bl), mul(al, bh), mul(ah, bl), mul(ah, bh)]
            p = st.pow2(n)
            # lower is floor of the least product: below all four, and within one of some
            ol, oh, zp = to_z(o.lo), to_z(o.hi), to_z(p)
            cl.append(Clause("lower<=products", guard(g, z3.And(*[ol * zp <= to_z(q) for q in prods]))))
            cl.append(Clause("lower-tight", guard(g, z3.Or(*[to_z(q) < ol * zp + zp for q in prods]))))
            cl.append(Clause("upper>=products", guard(g, z3.And(*[oh * zp >= to_z(q) for q in prods]))))
            cl.append(Clause("upper-tight", guard(g, z3.Or(*[to_z(q) > oh * zp - zp for q in prods]))))
            cl.append(Clause("precision", guard(g, cmpop("eq", o.n, n))))
        cl.append(Clause("wf", wf(o)))
        return cl


class MulScalar(DC):
    """mul / div by integer or rational: exact floor/ceil of the scaled endpoint"""

    def __init__(self, name, method, trait, rhs, div):
        super().__init__(name, method, trait, rhs)
        self.div = div

    def scal(self, c):
        rn, rd = rparts(c.a[1])
        return (rd, rn) if self.div else (rn, rd)

    def panics(self, c):
        if self.div:
            return cmpop("eq", rparts(c.a[1])[0], 0)
        return False

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        n, d = self.scal(c)
        cl = []
        if c.assuming:
            c.st.ghost["muls"] = (a, o)
        # value of the scalar is n/d with d of either sign (division): normalise by guards
        for (g, m, den) in ((cmpop("gt", d, 0), n, d), (cmpop("lt", d, 0), neg(n), neg(d))):
            if isc(g) and not g:
                continue
            if not isc(g) and c.st.known(bnot(g)):
                continue
            for (g2, l, h) in ((cmpop("ge", m, 0), a.lo, a.hi), (cmpop("lt", m, 0), a.hi, a.lo)):
                if isc(g2) and not g2:
                    continue
                gg = band(g, g2)
                cl.append(Clause("lower=floor", guard(gg, is_floor(o.lo, mul(l, m), den))))
                cl.append(Clause("upper=ceil", guard(gg, is_ceil(o.hi, mul(h, m), den))))
        cl.append(frame_n(a, o))
        cl.append(Clause("wf", wf(o)))
        return cl


class Recip(DC):
    """recip: D -> D ; panics iff 0 in self"""

    def panics(self, c):
        a = self.self_(c)
        return band(cmpop("le", a.lo, 0), cmpop("ge", a.hi, 0))

    def ensures(self, c):
        return recip_post(c, self.self_(c), DV(c.eng, c.r))

    def requires(self, c):
        return [Clause("precision-bound", cmpop("le", self.self_(c).n, MAXN))]


def recip_post(c, a, o):
    p = c.st.pow2(a.n)
    if c.assuming:
        c.st.ghost["recip"] = c.st.ghost.get("recip", ()) + (o,)
    sq = mul(p, p)
    c.st.pow2(mul(2, a.n)) if not isc(a.n) else None
    cl = []
    # lower = floor(2^2n / hi), upper = ceil(2^2n / lo), for either sign
    for (g, sgn) in ((cmpop("gt", a.lo, 0), 1), (cmpop("lt", a.hi, 0), -1)):
        n = mul(sq, sgn)
        h, l = mul(a.hi, sgn), mul(a.lo, sgn)
        cl.append(Clause("lower=floor", guard(g, is_floor(o.lo, n, h))))
        cl.append(Clause("upper=ceil", guard(g, is_ceil(o.hi, n, l))))
    cl.append(frame_n(a, o))
    cl.append(Clause("wf", wf(o)))
    return cl


class CheckedRecip(DC):
    def ensures(self, c):
        a = self.self_(c)
        z = band(cmpop("le", a.lo, 0), cmpop("ge", a.hi, 0))
        if c.r.var == 0:
            return [Clause("none-iff-contains-zero", z)]
        return [Clause("some-iff-excludes-zero", bnot(z))] + recip_post(c, a, DV(c.eng, c.r.f[0]))


def div_encloses(c, a, b, o):
    """for all X in a, Y in b, X/Y in o (scaled reals)"""
    st = c.st
    X, hx = member(st, a, "X")
    Y, hy = member(st, b, "Y")
    pa, pb, po = st.pow2(a.n), st.pow2(b.n), st.pow2(o.n)
    # (X/pa)/(Y/pb) in [o.lo/po, o.hi/po];  Z*Y*pa == X*pb*po
    Z = st.fresh_real("Z")
    h = hx + hy + [Z * Y * R(pa) == X * R(pb) * R(po)]
    return [Clause("encloses-lower", R(o.lo) <= Z, h, export=False), Clause("encloses-upper", Z <= R(o.hi), h, export=False),
            Clause("wf", wf(o))]


class DivD(DC):
    def panics(self, c):
        b = DV(c.eng, c.a[1])
        return band(cmpop("le", b.lo, 0), cmpop("ge", b.hi, 0))

    def ensures(self, c):
        a, b, o = self.self_(c), DV(c.eng, c.a[1]), self.out(c)
        cl = [Clause("wf", wf(o))]
        for (g, n, sa, sb) in align(c, a, b):
            cl.append(Clause("precision", guard(g, cmpop("eq", o.n, n))))
        return cl


class CheckedDivD(DC):
    """checked_exact_div[_assign]: Err/None iff the divisor interval contains zero"""

    def ensures(self, c):
        a, b = self.self_(c), DV(c.eng, c.a[1])
        z = band(cmpop("le", b.lo, 0), cmpop("ge", b.hi, 0))
        t = c.eng.prog.ty(c.r.ty)
        name = t["variants"][c.r.var]["name"]
        cl = [Clause("fails-iff-divisor-contains-zero", z if name in ("None", "Err") else bnot(z))]
        if name == "Some":
            cl.append(Clause("wf", wf(DV(c.eng, c.r.f[0]))))
        if name == "Ok":
            cl.append(Clause("wf", wf(DV(c.eng, c.n[0]))))
        if name == "Err":
            o = DV(c.eng, c.n[0])
            cl.append(Clause("unchanged-on-failure", band(cmpop("eq", o.lo, a.lo), cmpop("eq", o.hi, a.hi), cmpop("eq", o.n, a.n))))
        return cl


class NegD(DC):
    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        return [Clause("exact", band(cmpop("eq", o.lo, neg(a.hi)), cmpop("eq", o.hi, neg(a.lo)))), frame_n(a, o), Clause("wf", wf(o))]


class Square(DC):
    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        p = c.st.pow2(a.n)
        ll, hh = mul(a.lo, a.lo), mul(a.hi, a.hi)
        cz = band(cmpop("le", a.lo, 0), cmpop("ge", a.hi, 0))
        pos, ng = cmpop("gt", a.lo, 0), cmpop("lt", a.hi, 0)
        big = cmpop("ge", add(a.lo, a.hi), 0)
        return [Clause("lower-zero", implies(cz, cmpop("eq", o.lo, 0))),
                Clause("lower=floor", band(implies(pos, is_floor(o.lo, ll, p)), implies(ng, is_floor(o.lo, hh, p)))),
                Clause("upper=ceil", band(implies(big, is_ceil(o.hi, hh, p)), implies(bnot(big), is_ceil(o.hi, ll, p)))),
                frame_n(a, o), Clause("wf", wf(o))]


class Sqrt(DC):
    def panics(self, c):
        return cmpop("lt", self.self_(c).lo, 0)

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        p = to_z(c.st.pow2(a.n))
        l, h, ol, oh = to_z(a.lo), to_z(a.hi), to_z(o.lo), to_z(o.hi)
        return [Clause("lower=floor", z3.And(ol >= 0, ol * ol <= l * p, l * p < (ol + 1) * (ol + 1))),
                Clause("upper=ceil", z3.And(oh >= 0, oh * oh >= h * p, z3.Or(oh == 0, (oh - 1) * (oh - 1) < h * p))),
                frame_n(a, o), Clause("wf", wf(o))]


class Abs(DC):
    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        cz = band(cmpop("le", a.lo, 0), cmpop("ge", a.hi, 0))
        pos, ng = cmpop("gt", a.lo, 0), cmpop("lt", a.hi, 0)
        big = cmpop("ge", add(a.lo, a.hi), 0)
        return [Clause("lower", band(implies(cz, cmpop("eq", o.lo, 0)), implies(pos, cmpop("eq", o.lo, a.lo)), implies(ng, cmpop("eq", o.lo, neg(a.hi))))),
                Clause("upper", band(implies(big, cmpop("eq", o.hi, a.hi)), implies(bnot(big), cmpop("eq", o.hi, neg(a.lo))))),
                frame_n(a, o), Clause("wf", wf(o))]


class FloorCeil(DC):
    def __init__(self, name, method, ceil):
        super().__init__(name, method)
        self.ceil = ceil

    def requires(self, c):
        return pre_n(c, 1)

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        m = c.a[1]
        pn, pm = c.st.pow2(a.n), c.st.pow2(m)
        # every endpoint of the result is an integer (multiple of 2^m): witness = floor/ceil
        f = c.st.ceil_div if self.ceil else c.st.floor_div
        return [Clause("lower", cmpop("eq", o.lo, mul(f(a.lo, pn), pm))), Clause("upper", cmpop("eq", o.hi, mul(f(a.hi, pn), pm))),
                Clause("precision", cmpop("eq", o.n, m)), Clause("wf", wf(o))]


class Union(DC):
    def ensures(self, c):
        a, b, o = self.self_(c), DV(c.eng, c.a[1]), self.out(c)
        cl = []
        for (g, n, sa, sb) in align(c, a, b):
            al, ah, bl, bh = mul(a.lo, sa), mul(a.hi, sa), mul(b.lo, sb), mul(b.hi, sb)
            cl.append(Clause("lower=min", guard(g, band(cmpop("le", o.lo, al), cmpop("le", o.lo, bl), bor(cmpop("eq", o.lo, al), cmpop("eq", o.lo, bl))))))
            cl.append(Clause("upper=max", guard(g, band(cmpop("ge", o.hi, ah), cmpop("ge", o.hi, bh), bor(cmpop("eq", o.hi, ah), cmpop("eq", o.hi, bh))))))
            cl.append(Clause("precision", guard(g, cmpop("eq", o.n, n))))
        cl.append(Clause("wf", wf(o)))
        return cl


class ContainsZero(DC):
    def ensures(self, c):
        a = self.self_(c)
        z = band(cmpop("le", a.lo, 0), cmpop("ge", a.hi, 0))
        return [Clause("iff", to_z(c.r) == to_z(z))]


class IsSame(DC):
    def ensures(self, c):
        a, b = self.self_(c), DV(c.eng, c.a[1])
        z = band(cmpop("eq", a.lo, b.lo), cmpop("eq", a.hi, b.hi), cmpop("eq", a.n, b.n))
        return [Clause("iff", to_z(c.r) == to_z(z))]


def contracts():
    C = []
    C += [New("interval::new", "new"), FromRatioRange("interval::from_ratio_range", "from_ratio_range"), FromRatio("interval::from_ratio", "from_ratio"),
          FromInt("interval::from_int", "from_int"), FromIntRange("interval::from_int_range", "from_int_range"),
          FromDyadic("interval::from_dyadic_fraction", "from_dyadic_fraction"),
          ConstN("interval::zero", "zero", 0), ConstN("interval::one", "one", 1), ConstN("interval::negative_one", "negative_one", -1),
          SetConst("interval::set_zero", "set_zero", 0), SetConst("interval::set_one", "set_one", 1), SetConst("interval::set_negative_one", "set_negative_one", -1)]
    for m in ("into_ratio_range", "to_ratio_range"):
        C.append(RatioRange("interval::" + m, m))
    for m, w in (("into_lower_bound", "lo"), ("into_upper_bound", "hi"), ("lower_bound", "lo"), ("upper_bound", "hi")):
        C.append(Bound("interval::" + m, m, w))
    for m, w in (("log2_denom", "n"), ("lower_bound_numer", "lo"), ("upper_bound_numer", "hi")):
        C.append(Getter("interval::" + m, m, w))
    C.append(Destructure("interval::destructure", "destructure"))
    F = lambda d, v: False
    for m, f, pan in (("set_to_lower_bound", lambda d, v: (d.lo, d.lo), F), ("set_to_upper_bound", lambda d, v: (d.hi, d.hi), F),
                      ("set_lower_bound_numer", lambda d, v: (v, d.hi), lambda d, v: cmpop("gt", v, d.hi)),
                      ("set_upper_bound_numer", lambda d, v: (d.lo, v), lambda d, v: cmpop("lt", v, d.lo)),
                      ("set_lower_bound_to_zero", lambda d, v: (0, d.hi), lambda d, v: cmpop("lt", d.hi, 0)),
                      ("set_upper_bound_to_zero", lambda d, v: (d.lo, 0), lambda d, v: cmpop("gt", d.lo, 0))):
        C.append(SetBound("interval::" + m, m, f, pan))
    for m in ("convert_log2_denom", "into_converted_log2_denom", "to_converted_log2_denom"):
        C.append(Convert("interval::" + m, m))
    for (tr, me, sg) in (("Add", "add", 1), ("Sub", "sub", -1)):
        for (t2, m2) in ((tr, me), (tr + "Assign", me + "_assign")):
            for rhs in ("D", "int", "ratio"):
                C.append(AddSub(f"interval::{m2}<{rhs}>", m2, t2, rhs, sg))
    for (t2, m2) in (("Mul", "mul"), ("MulAssign", "mul_assign")):
        C.append(MulD(f"interval::{m2}<D>", m2, t2, "D"))
        for rhs in ("int", "ratio"):
            C.append(MulScalar(f"interval::{m2}<{rhs}>", m2, t2, rhs, False))
    for (t2, m2) in (("Div", "div"), ("DivAssign", "div_assign")):
        C.append(DivD(f"interval::{m2}<D>", m2, t2, "D"))
        for rhs in ("int", "ratio"):
            C.append(MulScalar(f"interval::{m2}<{rhs}>", m2, t2, rhs, True))
    for (t2, m2) in (("ExactDiv", "exact_div"), ("ExactDivAssign", "exact_div_assign")):
        C.append(DivD(f"interval::{m2}<D>", m2, t2, "D"))
    for (t2, m2) in (("ExactDiv", "checked_exact_div"), ("ExactDivAssign", "checked_exact_div_assign")):
        C.append(CheckedDivD(f"interval::{m2}<D>", m2, t2, "D"))
    C.append(Recip("interval::recip", "recip"))
    C.append(CheckedRecip("interval::checked_recip", "checked_recip"))
    C.append(NegD("interval::neg", "neg", "Neg"))
    for m in ("into_square", "square", "square_assign"):
        C.append(Square("interval::" + m, m))
    for m in ("into_sqrt", "sqrt", "sqrt_assign"):
        C.append(Sqrt("interval::" + m, m))
    for m in ("into_abs", "abs", "abs_assign"):
        C.append(Abs("interval::" + m, m))
    for w in ("floor", "ceil"):
        for m in (f"into_{w}", w, f"{w}_assign"):
            C.append(FloorCeil("interval::" + m, m, w == "ceil"))
    C.append(Union("interval::interval_union", "interval_union", "IntervalUnion"))
    C.append(Union("interval::interval_union_assign", "interval_union_assign", "IntervalUnionAssign"))
    C.append(ContainsZero("interval::contains_zero", "contains_zero"))
    C.append(IsSame("interval::is_same", "is_same"))
    return C
