"""Rational powers of algebraic numbers.

PWR(v, n, d) is v^(n/d) for n/d in lowest terms, d >= 1, where it is a real number (v > 0, or d = 1 and v != 0, or n > 0);
for n > 0 and v != 0 it is +-exp(n/d log|v|).  IPW(b, e): the integer b^e."""
import z3
import models as M
import c_interval
import c_trans
import c_poly
import c_alg
import c_sel
import c_biv
from values import *
from engine import Contract, Clause
from models import last
from iters import RP, VAL
from c_interval import DV
from c_trans import LN, EXP
from c_alg import AC, PEV, PN, ax, bnd, num, pol, rat, reg, rmul, out_num, inh, is_num, path_is
from c_biv import GX, GY, bv, arg, AX_R

I, RS = z3.IntSort(), z3.RealSort()
PWR = z3.Function("PWR", RS, I, I, RS)
PWS = z3.Function("PWS", RS, I, I, z3.BoolSort(), RS)      # +-v^(n/d): the value of a selector
IPW = z3.Function("IPW", I, I, I)
MAXE = 1 << 60
AX_W = ("real powers: v^0 = 1, v^1 = v, v^-1 = 1/v, 0^(n/d) = 0 for n > 0, 1^(n/d) = 1, (-1)^n = +-1 by parity, v^(-n/d) = (1/v)^(n/d), (a/b)^k = a^k/b^k; for n > 0, "
        "v != 0: v^(n/d) = s exp(n/d log|v|), s negative exactly for v < 0 and odd n; exp(e log x) is positive and monotone in x > 0 for e > 0")
AX_RP = "resultant with respect to y of p(y) and x^d - y^n (n, d >= 1): nonzero for nonconstant p, and zero at v^(n/d) for every root v of p (property N04)"
AX_XR = "results of exp beyond 2^(2^50) are not covered"


def rabs(v):
    return z3.simplify(z3.If(v >= 0, v, -v))


def expw(st, v, n, d):
    """exp(n/d log|v|)"""
    return EXP(rmul(st, VAL(to_z(n), to_z(d)), LN(rabs(v))))


def lowest(st, n, d):
    """d >= 1 divides no n coprime to it unless d = 1"""
    g = M.GCD(n, d) == 1
    st.assume(z3.Implies(z3.And(g, d >= 1, z3.Or(n == 0, n == d, n == -d)), d == 1))


def pwr(eng, st, v, n, d):
    ax(eng, AX_W)
    n, d = to_z(n), to_z(d)
    p = PWR(v, n, d)
    e = expw(st, v, n, d)
    st.assume(e > 0)
    lowest(st, n, d)
    st.assume(z3.Implies(n == 0, p == 1))
    st.assume(z3.Implies(z3.And(n == 1, d == 1), p == v))
    st.assume(z3.Implies(z3.And(n == -1, d == 1, v != 0), rmul(st, p, v) == 1))
    st.assume(z3.Implies(z3.And(v == 0, n > 0), p == 0))
    st.assume(z3.Implies(v == 1, p == 1))
    st.assume(z3.Implies(z3.And(v == -1, d == 1), p == z3.If(n % 2 == 1, z3.RealVal(-1), z3.RealVal(1))))
    st.assume(z3.Implies(z3.And(n > 0, v > 0), p == e))
    st.assume(z3.Implies(z3.And(n > 0, v < 0, d == 1), p == z3.If(n % 2 == 1, -e, e)))
    return p


# ---------------------------------------------------------------- the selector
def sel_target(eng, st, s):
    """value and own invariant of a PowRootSelector view"""
    v = s.shr[0].V
    e = s.f["exponent"]
    sg = s.f["result_sign"]
    if not isinstance(sg, Adt):
        raise Unsupported("representation changed: root selector")
    w = expw(st, v, *e.f)
    st.assume(w > 0)
    neg = eng.prog.ty(sg.ty)["variants"][sg.var]["name"] == "Negative"
    s.neg = neg
    s.own_ = z3.And(v != 0, to_z(e.f[0]) >= 1, to_z(e.f[1]) >= 1)
    t = PWS(v, to_z(e.f[0]), to_z(e.f[1]), z3.BoolVal(neg))
    st.assume(t == (-w if neg else w))
    return t


def enclose(k, c):
    """interval contracts used by the selector, in real units (see c_sel.enclose)"""
    eng, st = c.eng, c.st
    if not st.ghost.get("targets") or not isinstance(k, c_interval.DC):
        return
    nm = k.name
    f = None
    if isinstance(k, c_interval.Abs):
        f = lambda r: (rabs(r), True)
    elif isinstance(k, c_interval.NegD):
        f = lambda r: (-r, True)
    elif isinstance(k, c_trans.Log):
        f = lambda r: (LN(r), r > 0)
    elif isinstance(k, c_trans.Exp):
        f = lambda r: (EXP(r), True)
    elif isinstance(k, c_interval.MulScalar) and not k.div:
        n, d = k.scal(c)
        f = lambda r: (rmul(st, VAL(to_z(n), to_z(d)), r), True)
    elif nm == "interval::set_to_upper_bound":
        o = k.out(c)
        u = bnd(st, o.hi, o.n)
        reg(st, "inside", (bnd(st, o.lo, o.n), u, u, z3.BoolVal(True)))
        reg(st, "uppers", u)
        return
    elif nm == "interval::set_lower_bound_to_zero":
        f = lambda r: (r, r >= 0)
    if f is None:
        return
    ax(eng, c_sel.AX_E)
    a, o = DV(eng, c.a[0]), k.out(c)
    for (r, g) in c_sel.inside(c, a)[2]:
        v, h = f(r)
        c_sel.enclosed(c, o, v, z3.And(g, h) if h is not True else g)


def mono(c, s):
    """exp(e log x) is monotone: for the upper bound that stood in for the base"""
    ax(c.eng, AX_W)
    v = rabs(s.shr[0].V)
    e = VAL(*[to_z(x) for x in s.f["exponent"].f])
    n, d = [to_z(x) for x in s.f["exponent"].f]
    c.st.assume(z3.Implies(z3.And(n >= 1, d >= 1), e > 0))
    for u in c.st.ghost.get("uppers", ()):
        x, y = EXP(rmul(c.st, e, LN(v))), EXP(rmul(c.st, e, LN(u)))
        c.st.assume(z3.And(x > 0, y > 0, z3.Implies(z3.And(v > 0, v <= u, e > 0), x <= y)))


class LogR(c_trans.Log):
    """as seen by a caller: every real in the argument has its logarithm in the result (added by enclose)"""
    inline, assumed = False, True

    def requires(self, c):
        return [Clause("precision-bound", cmpop("le", self.self_(c).n, c_trans.MAXPUB))]

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        return [c_interval.frame_n(a, o), Clause("ordered", c_interval.wf(o))]


class ExpR(c_trans.Exp):
    assumed = True

    def requires(self, c):
        a = self.self_(c)
        ax(c.eng, AX_XR)
        return [Clause("precision-bound", cmpop("le", a.n, c_trans.MAXPUB))]

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        return [c_interval.frame_n(a, o), Clause("ordered", c_interval.wf(o)), Clause("not-negative", to_z(o.hi) >= 0)]


class GetInterval(c_sel.GetInterval):
    def ensures(self, c):
        mono(c, c_sel.Sel(c.eng, c.st, c.a[0]))
        return super().ensures(c)


# ---------------------------------------------------------------- powers
class Pow(AC):
    def __init__(self, name_, m, checked=True):
        super().__init__(name_, m)
        self.checked = checked

    def parts(self, c):
        a = c.a[0]
        if isinstance(a, Adt) and not is_num(c.eng.prog.ty(a.ty)):
            a = c_poly.cow(a)
        a = num(c.eng, c.st, a)
        e = c.a[1]
        if isinstance(e, Adt) and c.eng.prog.ty(e.ty)["path"] == M.RATIO:
            n, d = e.f
        elif isinstance(e, Tup):
            raise Unsupported("exponent given as a pair")
        else:
            n, d = e, 1
        return a, to_z(n), to_z(d)

    def requires(self, c):
        a, n, d = self.parts(c)
        bad = z3.Or(z3.And(a.V == 0, n <= 0), z3.And(a.V < 0, d != 1))
        return [Clause("exponent-size", z3.And(-MAXE < n, n < MAXE, d < MAXE))] + ([] if self.checked else [Clause("defined", z3.Not(bad))])

    def ensures(self, c):
        st = c.st
        a, n, d = self.parts(c)
        bad = z3.Or(z3.And(a.V == 0, n <= 0), z3.And(a.V < 0, d != 1))
        if self.checked and not c.r.f:
            return [Clause("none-only-when-undefined", bad)]
        r = num(c.eng, st, c.r.f[0] if self.checked else c.r)
        p = pwr(c.eng, st, a.V, n, d)
        if not c.assuming:
            iw = st.ghost.get("ipws", ())
            for (x, k, u) in iw:
                for (y, l, w) in iw:
                    st.assume(z3.Implies(z3.And(k == l, a.V == VAL(x, y), y >= 1, n == k, d == 1), p == VAL(u, w)))
                    st.assume(z3.Implies(z3.And(k == l, a.V == VAL(y, x), x >= 1, y != 0, n == -k, d == 1), p == VAL(u, w)))
            for b in st.ghost.get("nums", ()):
                if not b.V.eq(a.V):
                    st.assume(z3.Implies(z3.And(n < 0, rmul(st, b.V, a.V) == 1), p == pwr(c.eng, st, b.V, z3.simplify(-n), d)))
        return out_num(c, r, [Clause("defined", z3.Not(bad), lemma=True), Clause("value", r.V == p, core=True)])


def ipw(st, b, e):
    b, e = to_z(b), to_z(e)
    p = IPW(b, e)
    if not any(q.eq(p) for (_, _, q) in st.ghost.get("ipws", ())):
        st.assume(z3.And(z3.Implies(b != 0, p != 0), z3.Implies(b >= 1, p >= 1)))
        reg(st, "ipws", (b, e, p))
    return p


class Mono2(c_biv.BC):
    """c y^k"""

    def __init__(self):
        AC.__init__(self, "poly::make_monomial (bivariate)", lambda eng, fn: fn["method"] == "make_monomial" and c_biv.is_pp(eng, eng.prog.ty(fn["locals"][0])))

    def ensures(self, c):
        ax(c.eng, c_biv.AX_B)
        k = to_z(c.a[1])
        reg(c.st, "monos", k)
        return [Clause("value", bv(c.eng, c.st, c.r) == arg(c, 0) * RP(GY, k))]


def mono1(k, c):
    """c x^k as a coefficient"""
    if isinstance(k, c_poly.Monomial) and k.kind == "Z" and c.st.ghost.get("monos"):
        ax(c.eng, c_biv.AX_B)
        h = pol(c.eng, c.st, c.r)[1]
        e = to_z(c.a[1])
        n, _ = c_poly.coeff(c.a[0])
        c.st.assume(PEV(h, GX) == z3.ToReal(n) * RP(GX, e))
        reg(c.st, "monos", e)


class Resultant(c_biv.Resultant):
    def ensures(self, c):
        cl = super().ensures(c)
        st = c.st
        h = pol(c.eng, st, c.r)[1]
        l, r = arg(c, 0), arg(c, 1)
        ks = st.ghost.get("monos", ())
        if ks:
            ax(c.eng, AX_RP)
        for a in st.ghost.get("nums", ()):
            for n in ks:
                for d in ks:
                    for x, y in ((l, r), (r, l)):
                        for s in (1, -1):
                            w = expw(st, a.V, n, d)
                            t = z3.If(z3.And(a.V < 0, n % 2 == 1), -w, w)
                            cl.append(Clause("powers", z3.Implies(z3.And(x == PEV(a.h, GY), y == s * (RP(GX, d) - RP(GY, n)), PN(a.h) >= 2, PEV(a.h, a.V) == 0, n >= 1, d >= 1, a.V != 0, z3.Or(a.V > 0, d == 1)),
                                                                  z3.And(PN(h) >= 1, PEV(h, t) == 0))))
        return cl


def contracts():
    pw = lambda eng, fn: fn["method"] == "pow" and last(fn["trait"] or "") == "Pow" and fn["argc"] == 2 and is_num(eng.prog.ty(eng.prog.deref_ty(fn["locals"][1])))
    notpair = lambda m: lambda eng, fn: m(eng, fn) and eng.prog.ty(eng.prog.deref_ty(fn["locals"][2]))["k"] != "tuple"
    return [LogR("trans::log", "log"), ExpR("trans::exp/into", "into_exp"), ExpR("trans::exp/ref", "exp"), Mono2(), Resultant(),
            GetInterval("get_interval", "pow"), c_sel.ShrinkInterval("shrink_interval", "pow"), c_sel.SelectRoot("select_root", "pow"),
            Pow("alg::checked_pow_impl", path_is("RealAlgebraicNumber::checked_pow_impl")), Pow("alg::checked_into_pow", notpair(inh("checked_into_pow"))), Pow("alg::checked_pow", notpair(inh("checked_pow"))),
            Pow("alg::pow", notpair(pw), False)]


def install(m):
    M.POWX = ipw
    c_sel.POW = sel_target
    m.post_hooks.append(enclose)
    m.post_hooks.append(mono1)
