"""Sums and products of algebraic numbers: bivariate polynomials and their resultants.

B2(coefficients, lengths, m) is the value of a polynomial in y with m coefficients that are integer polynomials in x, at two
unconstrained indeterminates GX, GY; HOM(p, x, y) = y^deg(p) p(x/y).  The ring operations of Polynomial<Polynomial<BigInt>> and its
resultant carry assumed contracts (the same generic code is proved for BigInt and Ratio coefficients, N01; the resultant is N04)."""
import z3
import models as M
import iters
from values import *
from engine import Contract, Clause, VEC
from iters import AR, EV, EVR, XP, cval
from models import last
import c_poly
from c_poly import P, poly_kind, is_poly
from c_alg import AC, PEV, PN, PC0, PC1, ax, name, pol, rmul, OKM

I, RS = z3.IntSort(), z3.RealSort()
A2 = z3.ArraySort(I, AR)
B2 = z3.Function("B2", A2, AR, I, RS)
HOM = z3.Function("HOM", I, RS, RS, RS)
GX, GY = z3.Real("GX"), z3.Real("GY")
AX_B = ("Polynomial<Polynomial<BigInt>>: construction from coefficients, zero, + and * are the ring operations (B2 is a homomorphism at two unconstrained "
        "indeterminates); an equation between B2 values that holds for unconstrained indeterminates is an identity of polynomials")
AX_R = ("resultant with respect to y of p(y) and q(x-y): nonzero for nonconstant p, q, and zero at every sum of a root of p and a root of q; of y^deg(p) p(x/y) and q(y), "
        "with p(0), q(0) nonzero: nonzero, and zero at every product of a root of p and a root of q (property N04)")


def is_pp(eng, t):
    return is_poly(t) and poly_kind(eng, eng.prog.ty(t["targs"][0])) == "Z"


def bv(eng, st, v):
    """value of a polynomial with polynomial coefficients, or of one of its coefficients"""
    t = eng.prog.ty(v.ty)
    if poly_kind(eng, t) == "Z":
        return coef(eng, st, v)
    if not is_pp(eng, t):
        v = v.f[0] if len(v.f) == 1 else v          # EvalPoint
        t = eng.prog.ty(v.ty)
    if not is_pp(eng, t):
        raise Unsupported("bivariate polynomial")
    return b2(eng, st, v.f[0])


def coef(eng, st, e):
    h = pol(eng, st, e)[1]
    st.assume(z3.Implies(PN(h) <= 2, PEV(h, GX) == z3.If(PN(h) >= 1, z3.ToReal(PC0(h)), 0) + z3.If(PN(h) >= 2, z3.ToReal(PC1(h)) * GX, 0)))
    e = P(e).e
    for k in (-1, 0, 1):
        st.assume(z3.Implies(e == k, PEV(h, GX) == k))
    return PEV(h, GX)


def b2(eng, st, q):
    if isinstance(q, Arr):
        r = z3.RealVal(0)
        for e in reversed(q.e):
            r = r * GY + coef(eng, st, e)
        return r
    if not isinstance(q, SSeq) or len(q.arrs) != 2:
        raise Unsupported("bivariate polynomial")
    return B2(z3.simplify(q.arrs[0]), z3.simplify(q.arrs[1]), z3.simplify(to_z(q.len)))


class BC(AC):
    assumed = True

    def __init__(self, name_, trait, method, argc, val):
        def m(eng, fn):
            if fn["method"] != method or last(fn["trait"] or "") != trait or fn["argc"] != argc or "algebraics::polynomial" not in fn["path"]:
                return False
            return is_pp(eng, eng.prog.ty(fn["locals"][0]))
        super().__init__(name_, m)
        self.val = val

    def ensures(self, c):
        ax(c.eng, AX_B)
        return [Clause("value", bv(c.eng, c.st, c.r) == self.val(c))]


def arg(c, i):
    v = c.a[i]
    if isinstance(v, Tup):
        v = v.f[0]          # (elements, divisor)
    if isinstance(v, (Arr, SSeq)):
        return b2(c.eng, c.st, v)
    return bv(c.eng, c.st, v)


class Resultant(AC):
    assumed = True

    def __init__(self):
        super().__init__("poly::resultant (bivariate)", lambda eng, fn: fn["method"] == "resultant" and fn["argc"] == 2 and is_pp(eng, eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))))

    def ensures(self, c):
        ax(c.eng, AX_R)
        st = c.st
        p, h = pol(c.eng, st, c.r)
        l, r = arg(c, 0), arg(c, 1)
        cl = []
        nums = st.ghost.get("nums", ())
        seen = set()
        for a in nums:
            for b in nums:
                k = (a.h.sexpr(), b.h.sexpr(), a.V.sexpr(), b.V.sexpr())
                if k in seen:
                    continue
                seen.add(k)
                ok = z3.And(PN(a.h) >= 2, PN(b.h) >= 2, PEV(a.h, a.V) == 0, PEV(b.h, b.V) == 0)
                for x, y in ((l, r), (r, l)):
                    cl.append(Clause("sums", z3.Implies(z3.And(x == PEV(a.h, GY), y == PEV(b.h, GX - GY), ok), z3.And(PN(h) >= 1, PEV(h, a.V + b.V) == 0))))
                    cl.append(Clause("products", z3.Implies(z3.And(x == HOM(a.h, GX, GY), y == PEV(b.h, GY), ok, PC0(a.h) != 0, PC0(b.h) != 0), z3.And(PN(h) >= 1, PEV(h, rmul(st, a.V, b.V)) == 0))))
        return cl


class EvalB(AC):
    """value of an integer polynomial at an EvalPoint"""

    def __init__(self):
        def m(eng, fn):
            if not (fn["method"] == "eval_generic" and fn["path"].startswith("algebraics::polynomial") and fn["argc"] == 3):
                return False
            t = [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["locals"][1:4]]
            return poly_kind(eng, t[0]) == "Z" and t[1]["k"] == "adt" and last(t[1]["path"]) == "EvalPoint"
        super().__init__("alg::eval_generic<EvalPoint>", m)

    def requires(self, c):
        return [Clause("starts-at-zero", arg(c, 2) == 0)]

    def ensures(self, c):
        p, h = pol(c.eng, c.st, c.a[0])
        x, r = arg(c, 1), bv(c.eng, c.st, c.r)
        if not c.assuming:
            c.st.assume(PEV(h, x) == EVR(p.A, p.n, x))
        return [Clause("value", r == PEV(h, x), core=True)]


def relate_biv(c, st, it, J, n, paths, src, seq):
    if len(seq.arrs) != 2 or seq.arrs[0].sort() != A2 or not paths:
        return
    if not all(isinstance(e, Adt) and poly_kind(c.eng, c.eng.prog.ty(e.ty)) == "Z" for _, e in paths):
        return
    for p in st.ghost.get("polys", ()):
        A = p.arg(0)
        if cval(p.arg(1) - n) != 0:
            continue
        k = n - 1 - J
        if iters.valid(paths, lambda e: P(e).e == z3.Select(A, J)):
            ax(c.eng, AX_B)
            st.assume(b2(c.eng, st, seq) == PEV(p, GY))
            return
        if iters.valid(paths, lambda e: P(e).e == z3.Select(A, k) * XP(k)):
            ax(c.eng, AX_B)
            st.assume(b2(c.eng, st, seq) == HOM(p, GX, GY))
            return


def contracts():
    return [BC("poly::zero (bivariate)", "Zero", "zero", 0, lambda c: z3.RealVal(0)),
            BC("poly::from (bivariate)", "From", "from", 1, lambda c: arg(c, 0)),
            BC("poly::add (bivariate)", "Add", "add", 2, lambda c: arg(c, 0) + arg(c, 1)),
            BC("poly::mul (bivariate)", "Mul", "mul", 2, lambda c: arg(c, 0) * arg(c, 1)),
            Resultant(), EvalB()]


def install(m):
    m.relate_hooks.append(relate_biv)
    c_poly.POINT_HOOKS.append(point)


def point(l, v):
    t = l.eng.prog.ty(v.ty) if isinstance(v, Adt) else None
    if t and t["k"] == "adt" and last(t["path"]) == "EvalPoint":
        return bv(l.eng, l.st, l.eng.snap(l.st, v))
    return None
