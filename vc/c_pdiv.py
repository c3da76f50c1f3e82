"""Contracts on polynomial division (instances over BigInt and Ratio<BigInt>); values as in c_poly.py, real-number form.

VQ / VR stand for quotient and remainder of the unique division with remainder over the field of fractions; RZ says that the
remainder is zero.  They are introduced (assumed, by uniqueness) at the call sites of pseudo-division, whose own proof
establishes the division identity and the degree bound."""
import z3
import models as M
import iters
import c_poly
from values import *
from iters import EV, XP, arr_of, PW, HQ, VAL, ADIV, RP
from engine import Contract, Clause
from loops import LoopSpec
from c_poly import P, PC, inh, is_poly, poly_kind, coeff, inv_clauses, hdr_iter, iter_of, optv, pval, rat, cow, vfrac

I, R, AR = z3.IntSort(), z3.RealSort(), iters.AR
VQ = z3.Function("VQ", AR, I, I, AR, I, I, R)
VR = z3.Function("VR", AR, I, I, AR, I, I, R)
RZ = z3.Function("RZ", AR, I, I, AR, I, I, z3.BoolSort())
ZQ = z3.Function("ZQ", AR, I, I, AR, I, I, z3.BoolSort())
ZR = z3.Function("ZR", AR, I, I, AR, I, I, z3.BoolSort())
CONG = z3.Function("CONG", R, R, AR, I, I, z3.BoolSort())        # the difference is a multiple of the polynomial
CONGAX = "congruence modulo a polynomial is an equivalence compatible with products and powers; p and p mod m are congruent"
UNIQ = "division with remainder over a field is unique: VQ/VR name its quotient and remainder, RZ says the remainder is zero, ZQ / ZR that quotient / remainder have integer coefficients (a multiple f*Q has integer quotient Q iff f divides its coefficients)"


def key(a, b):
    p, q = P(a), P(b)
    return p.A, p.n, p.d, q.A, q.n, q.d


def unchanged_from(k, i, A, B):
    """A[k] == B[k] for k >= i"""
    body = z3.Implies(k >= i, z3.Select(A, k) == z3.Select(B, k))
    try:
        return z3.ForAll([k], body, patterns=[z3.Select(A, k)])
    except z3.Z3Exception:
        return z3.ForAll([k], body)


# ---------------------------------------------------------------- on coefficient lists
class Element(Contract):
    """factor*N = Q*D + R with factor = lc^quotient_len, R shorter than D"""
    name = "pdiv::element_pseudo_div_rem"

    def matches(self, eng, fn):
        if fn["method"] != "element_pseudo_div_rem" or "polynomial::div_rem" not in fn["path"] or "locals" not in fn:
            return False
        t = eng.prog.ty(eng.prog.deref_ty(fn["locals"][2]))
        return t["k"] == "slice" and eng.is_bigint(eng.prog.ty(t["t"]))

    def args(self, c):
        return arr_of(c.a[0]), arr_of(c.a[1]), to_z(c.a[2])

    def requires(self, c):
        (N, n), (D, d), q = self.args(c)
        return [Clause("lengths", z3.And(d >= 1, n >= d, q == n - d + 1))]

    def ensures(self, c):
        (N, n), (D, d), q = self.args(c)
        (Q, qn), (Rm, rn), f = arr_of(c.r.f[0]), arr_of(c.r.f[1]), to_z(c.r.f[2])
        return [Clause("lengths", z3.And(qn == q, rn == d - 1), lemma=True), Clause("factor", f == PW(z3.Select(D, d - 1), q), lemma=True),
                Clause("identity", f * EV(N, n) == EV(Q, qn) * EV(D, d) + EV(Rm, rn))]


class ElemOuter(LoopSpec):
    name = "quotient-digits"
    vars = ("remainder",)

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        return {}

    def rng(self, l):
        v = l.st.read(hdr_iter(l))
        while isinstance(v, Adt) and M.last(l.eng.prog.ty(v.ty)["path"]) != "Range":
            v = v.f[0]
        return to_z(v.f[0]), to_z(v.f[1])

    def view(self, l):
        lo, hi = self.rng(l)
        q = l.z("quotient_len")
        D, d = arr_of(l.v("denominator"))
        N, n = arr_of(l.e("remainder"))
        Rm, rn = arr_of(l.v("remainder"))
        A, an = arr_of(l.v("reverse_quotient"))
        return lo, hi, q, D, d, N, n, Rm, rn, A, an

    def inv(self, l):
        lo, hi, q, D, d, N, n, Rm, rn, A, an = self.view(l)
        lc = z3.Select(D, d - 1)
        t = q - hi
        return [Clause("range", z3.And(lo == 0, 0 <= hi, hi <= q)), Clause("lengths", z3.And(rn == n - t, an == t)),
                Clause("identity", PW(lc, an) * EV(N, n) == HQ(A, an, lc, q) * EV(D, d) + EV(Rm, rn))]

    def lemmas(self, l):
        l.rec["head_view"] = self.view(l)

    def on_back(self, l):
        lo, hi, q, D, d, N, n, Rm, rn, A, an = self.view(l)
        _, hi0, _, _, _, _, _, R0, rn0, A0, an0 = l.rec["head_view"]
        lc = z3.Select(D, d - 1)
        c = z3.Select(R0, rn0 - 1)
        st = l.st
        qi, m = hi, rn0 - 1
        EN, ED, ED1 = EV(N, n), EV(D, d), EV(D, d - 1)
        # X^(qi+d-1) = X^qi X^(d-1)
        st.assume(z3.Implies(z3.And(qi >= 0, d >= 1), XP(qi + (d - 1)) == XP(qi) * XP(d - 1)))
        step = lambda lab, g, hyps=None: Clause(lab, g, hyps=hyps or [], alone=hyps is not None, lemma=True).oblige(l.eng, st, f"{l.eng.cur}/{self.name}/step/{lab}")
        step("popped", EV(R0, rn0) == EV(R0, rn0 - 1) + c * (XP(qi) * XP(d - 1)))
        step("leading", ED == ED1 + lc * XP(d - 1))
        step("row", EV(Rm, rn) == lc * EV(R0, rn0 - 1) - c * XP(qi) * ED1)
        step("digit", z3.And(an == an0 + 1, HQ(A, an, lc, q) == lc * HQ(A0, an0, lc, q) + c * XP(qi)))
        step("power", PW(lc, an) == lc * PW(lc, an0))
        h = [PW(lc, an0) * EN == HQ(A0, an0, lc, q) * ED + EV(R0, rn0), EV(R0, rn0) == EV(R0, rn0 - 1) + c * (XP(qi) * XP(d - 1)), ED == ED1 + lc * XP(d - 1),
             EV(Rm, rn) == lc * EV(R0, rn0 - 1) - c * XP(qi) * ED1, HQ(A, an, lc, q) == lc * HQ(A0, an0, lc, q) + c * XP(qi), PW(lc, an) == lc * PW(lc, an0)]
        step("algebra", PW(lc, an) * EN == HQ(A, an, lc, q) * ED + EV(Rm, rn), h)


class ElemScale(LoopSpec):
    name = "scale-remainder"
    vars = ("remainder",)

    def inv(self, l):
        (A, n), (B, m) = arr_of(l.v("remainder")), arr_of(l.e("remainder"))
        it = l.st.read(l.ref("iter"))
        if not isinstance(it, It):
            raise Unsupported("loop iterator shape")
        i = to_z(it.d["pos"])
        lc = l.z("divisor_last")
        k = z3.Int("k!fr")
        return [Clause("index", z3.And(0 <= i, i <= n, n == m, to_z(it.d["end"]) == m)),
                Clause("rest-unchanged", unchanged_from(k, i, A, B)),
                Clause("value", EV(A, m) == lc * EV(B, i) + (EV(B, m) - EV(B, i)))]


class ElemRow(LoopSpec):
    name = "subtract-row"
    vars = ("remainder",)

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        return {}

    def inv(self, l):
        (A, n), (B, m) = arr_of(l.v("remainder")), arr_of(l.e("remainder"))
        j, e = c_poly.hdr_range(l)
        D, d = arr_of(l.v("denominator"))
        qi, c = l.z("quotient_index"), l.z("quotient_coefficient")
        return [Clause("index", z3.And(0 <= j, j <= d - 1, e == d - 1, n == m)), Clause("value", EV(A, m) == EV(B, m) - c * XP(qi) * EV(D, j))]

    def on_back(self, l):
        qi, j = l.z("quotient_index"), c_poly.hdr_range(l)[0] - 1
        l.st.assume(z3.Implies(z3.And(qi >= 0, j >= 0), XP(qi + j) == XP(qi) * XP(j)))


class ElemScaleQ(LoopSpec):
    name = "scale-quotient"
    vars = ("quotient",)

    def ghost0(self, l):
        B = arr_of(l.v("quotient"))[0]
        src = [x for x in l.st.ghost.get("reversed", ()) if x[0].get_id() == B.get_id()]
        if not src:
            raise Unsupported("quotient is not the reversed digit list")
        l.rec["rev"] = src[0]
        return {}

    def inv(self, l):
        (Q, n), (B, m) = arr_of(l.v("quotient")), arr_of(l.e("quotient"))
        it = l.st.read(l.ref("iter"))
        if not isinstance(it, It) or not it.d["ref"].path or it.d["ref"].path[-1][0] != "ss" or it.d["ref"].path[-1][1] != 1:
            raise Unsupported("loop iterator shape")
        j = to_z(it.d["pos"]) + 1
        _, A, an = l.rec["rev"]
        lc, f, q = l.z("divisor_last"), l.z("factor"), l.z("quotient_len")
        k = z3.Int("k!fr")
        return [Clause("index", z3.And(1 <= j, j <= m, n == m, m == an, to_z(it.d["end"]) == m - 1)), Clause("factor", f == PW(lc, j)),
                Clause("rest-unchanged", unchanged_from(k, j, Q, B)),
                Clause("value", EV(Q, j) + f * HQ(A, an - j, lc, q) == HQ(A, an, lc, q))]

    def on_back(self, l):
        (Q, n), (B, m) = arr_of(l.v("quotient")), arr_of(l.e("quotient"))
        j = to_z(l.st.read(l.ref("iter")).d["pos"])
        # the element just scaled
        l.st.assume(z3.Select(B, j) == z3.Select(B, j))


# ---------------------------------------------------------------- integer powers
class DivisorPow(Contract):
    def __init__(self, name, method):
        self.name, self.method = name, method

    def matches(self, eng, fn):
        if fn["method"] != self.method or "locals" not in fn or "blocks" not in fn:
            return False
        t = eng.prog.ty(fn["locals"][1])
        return eng.is_bigint(t) or t["k"] == "adt" and M.last(t["path"]) == "DivisorIsOne"

    def ensures(self, c):
        if isinstance(c.r, Adt):
            return []
        return [Clause("power", to_z(c.r) == PW(to_z(c.a[0]), to_z(c.a[1])))]


class IntPowLoop(LoopSpec):
    name = "square-and-multiply"
    vars = ("base", "exponent")

    def lemmas(self, l):
        l.rec["h"] = (l.v("base"), l.z("exponent"))
        if not isinstance(l.v("base"), Adt):
            b, e = l.z("base"), l.z("exponent")
            l.st.assume(z3.Implies(e >= 1, PW(b, e) == b * PW(b, e - 1)))

    def on_back(self, l):
        b0, e0 = l.rec["h"]
        if isinstance(b0, Adt):
            return
        b0, b, e = to_z(b0), l.z("base"), l.z("exponent")
        l.st.assume(z3.Implies(z3.And(e >= 0, b == b0 * b0), PW(b, e) == PW(b0, 2 * e)))      # (x*x)^k = x^(2k)
        l.st.assume(z3.Implies(e >= 0, PW(b0, 2 * e + 1) == b0 * PW(b0, 2 * e)))

    def inv(self, l):
        e = l.z("exponent")
        cl = [Clause("exponent", e >= 1)]
        if isinstance(l.v("base"), Adt):
            return cl
        r = optv(l.vt("retval", "Option"))
        r = z3.IntVal(1) if r is None else to_z(r)
        return cl + [Clause("value", PW(l.z("base"), e) * r == PW(to_z(l.e("base")), to_z(l.e("exponent"))))]


# ---------------------------------------------------------------- pseudo-division
class Pseudo(PC):
    """factor*self = quotient*rhs + remainder, deg remainder < deg rhs"""

    def __init__(self, name, method, kind, opt):
        self.opt = opt
        super().__init__(name, inh(method), kind)

    def panics(self, c):
        return False if self.opt else P(c.a[1]).n == 0

    def ensures(self, c):
        p, q = P(c.a[0]), P(c.a[1])
        r = c.r
        if self.opt:
            r = optv(r)
            if r is None:
                return [Clause("none-only-for-zero-divisor", q.n == 0)]
        return [Clause("divisor-nonzero", q.n > 0)] + self.result(c, r)

    def fields(self, c, r):
        t = c.eng.prog.ty(r.ty)
        fs = [f[0] for f in t["variants"][0]["fields"]]
        return [r.f[fs.index(x)] for x in ("quotient", "remainder", "factor")]

    def result(self, c, r):
        p, q = P(c.a[0]), P(c.a[1])
        qv, rv, f = self.fields(c, r)
        Q, Rm = P(qv), P(rv)
        fn, fd = coeff(f)
        ql = z3.If(p.n >= q.n, p.n - q.n + 1, z3.IntVal(0))
        lc = z3.Select(q.A, q.n - 1)
        cl = [Clause("degree", Rm.n < q.n, lemma=True), Clause("factor-positive-denominator", fd >= 1, lemma=True)]
        if not c.assuming:
            m = p.n - q.n
            c.st.assume(z3.Implies(m >= 0, PW(q.d, m + 1) == q.d * PW(q.d, m)))
            long, lng = m >= 0, z3.And(ql == m + 1, fn * (PW(q.d, m) * q.d) == PW(lc, m + 1) * fd, PW(q.d, m + 1) == q.d * PW(q.d, m))
            short = z3.And(ql == 0, fn == fd)
            cl += [Clause("factor-by-length", z3.And(z3.Implies(m >= 0, lng), z3.Implies(m < 0, short)), lemma=True)]
            self.fh = [z3.Implies(m >= 0, lng), z3.Implies(m < 0, short), PW(q.d, 0) == 1, PW(lc, 0) == 1]
        cl += [Clause("factor", fn * PW(q.d, ql) == PW(lc, ql) * fd, hyps=[] if c.assuming else self.fh, alone=not c.assuming, lemma=True),
              Clause("factor-nonzero", fn != 0, lemma=True, hyps=[] if c.assuming else [z3.Implies(z3.And(lc != 0, ql >= 0), PW(lc, ql) != 0)])]
        if self.kind == "Z":
            cl.append(Clause("identity", fn * p.e == Q.e * q.e + Rm.e, lemma=True))
            vs = [(z3.ToReal(x), z3.BoolVal(True)) for x in (p.e, q.e, Q.e, Rm.e, fn)]
            cl.append(Clause("real-identity", vs[4][0] * vs[0][0] == vs[2][0] * vs[1][0] + vs[3][0], hyps=[fn * p.e == Q.e * q.e + Rm.e], alone=True, lemma=True, export=False))
            cl.append(Clause("real-identity", vs[4][0] * vs[0][0] == vs[2][0] * vs[1][0] + vs[3][0]))
        else:
            vs = [vfrac(*x) for x in ((p.e, p.d), (q.e, q.d), (Q.e, Q.d), (Rm.e, Rm.d), (fn, fd))]
            goal = vs[4][0] * vs[0][0] == vs[2][0] * vs[1][0] + vs[3][0]
            if c.assuming:
                for x in vs:
                    c.st.assume(x[1])
            else:
                self.algebra(c, cl, p, q, Q, Rm, (fn, fd), vs, goal, ql)
            cl.append(Clause("identity", goal))
        cl += inv_clauses(Q, "quotient-") + inv_clauses(Rm, "remainder-")
        if c.assuming:
            c.eng.used_axioms.add(UNIQ)
            k = key(c.a[0], c.a[1])
            c.st.assume(z3.And(RZ(*k) == (Rm.n == 0), vs[2][0] == vs[4][0] * VQ(*k), vs[3][0] == vs[4][0] * VR(*k)))
            c.st.assume(z3.Implies(Rm.n == 0, z3.And(VR(*k) == 0, vs[3][0] == 0)))
            if self.kind == "Z":
                c.st.assume(z3.And(ADIV(Q.A, Q.n, fn) == ZQ(*k), ADIV(Rm.A, Rm.n, fn) == ZR(*k)))
        return cl

    def algebra(self, c, cl, p, q, Q, Rm, f, vs, goal, ql):
        for x, d in zip(vs, (p.d, q.d, Q.d, Rm.d, f[1])):
            c.st.assume(z3.Implies(d >= 1, x[1]))


class CoeffDiv(PC):
    """polynomial divided by a coefficient: exact, or a panic / None / Err"""

    def __init__(self, name, match, kind, form):
        self.form = form      # val, assign, opt, res
        super().__init__(name, match, kind)

    def poly(self, v):
        return cow(v) if isinstance(v, Adt) and len(v.f) == 1 else v

    def bad(self, c):
        p = P(self.poly(c.a[0]))
        n, d = coeff(c.a[1])
        if self.kind == "Z":
            return z3.Not(ADIV(p.A, p.n, n))
        return z3.And(p.n > 0, n == 0)

    def panics(self, c):
        return self.bad(c) if self.form in ("val", "assign") else False

    def ensures(self, c):
        pv_ = self.poly(c.a[0])
        p = P(pv_)
        r = c.r
        if self.form == "assign":
            r = c.n[0]
        elif self.form == "opt":
            r = optv(r)
            if r is None:
                return [Clause("none-only-when-inexact", self.bad(c))]
        elif self.form == "res":
            ok = c.eng.prog.ty(r.ty)["variants"][r.var]["name"] == "Ok"
            r = c.n[0]
            if not ok:
                q = P(r)
                return [Clause("err-only-when-inexact", self.bad(c)), Clause("unchanged", z3.And(q.n == p.n, q.A == p.A, q.d == p.d))]
        q = P(r)
        n, d = coeff(c.a[1])
        cl = [Clause("possible", z3.Not(self.bad(c)), lemma=True)]
        if self.kind == "Z":
            cl += [Clause("value", q.e * n == p.e, lemma=True), Clause("real-value", z3.ToReal(q.e) * z3.ToReal(n) == z3.ToReal(p.e), hyps=[q.e * n == p.e], alone=True, lemma=True)]
        else:
            cl += [Clause("value", pval(c.st, r) * rat(c.st, c.a[1]) == pval(c.st, pv_), lemma=True)]
        return cl + [Clause("length", q.n == p.n, lemma=True)] + inv_clauses(q)


class ExactPseudo(Pseudo):
    """(quotient, factor) with factor*self = quotient*rhs"""

    def bad(self, c):
        return z3.Or(P(c.a[1]).n == 0, z3.Not(RZ(*key(c.a[0], c.a[1]))))

    def panics(self, c):
        return False if self.opt else self.bad(c)

    def ensures(self, c):
        r = c.r
        if self.opt:
            r = optv(r)
            if r is None:
                return [Clause("none-only-when-inexact", self.bad(c))]
        Q, f = P(r.f[0]), coeff(r.f[1])
        k = key(c.a[0], c.a[1])
        vq, vf, vp, vd = pval(c.st, r.f[0]), rat(c.st, r.f[1]), pval(c.st, c.a[0]), pval(c.st, c.a[1])
        cl = [Clause("possible", z3.Not(self.bad(c)), lemma=True), Clause("factor-nonzero", z3.And(f[0] != 0, f[1] >= 1), lemma=True), Clause("identity", vf * vp == vq * vd, lemma=True),
              Clause("quotient", vq == vf * VQ(*k), lemma=True)]
        if self.kind == "Z":
            cl.append(Clause("divisibility", ADIV(Q.A, Q.n, f[0]) == ZQ(*k)))
        return cl + inv_clauses(Q)


class PolyDiv(PC):
    """what: q (quotient), r (remainder), qr (both), x (exact quotient)"""

    def __init__(self, name, match, kind, form, what):
        self.form, self.what = form, what
        super().__init__(name, match, kind)

    def bad(self, c):
        k = key(c.a[0], c.a[1])
        xs = [P(c.a[1]).n == 0]
        if self.what == "x":
            xs.append(z3.Not(RZ(*k)))
        if self.kind == "Z":
            if "r" in self.what:
                xs.append(z3.Not(ZR(*k)))
            if self.what != "r":
                xs.append(z3.Not(ZQ(*k)))
        return z3.Or(*xs)

    def panics(self, c):
        return self.bad(c) if self.form in ("val", "assign") else False

    def ensures(self, c):
        r = c.r
        if self.form == "assign":
            r = c.n[0]
        elif self.form == "opt":
            r = optv(r)
            if r is None:
                return [Clause("none-only-when-impossible", self.bad(c))]
        elif self.form == "res":
            ok = c.eng.prog.ty(r.ty)["variants"][r.var]["name"] == "Ok"
            r = c.n[0]
            if not ok:
                p, q = P(c.a[0]), P(r)
                return [Clause("err-only-when-impossible", self.bad(c)), Clause("unchanged", z3.And(q.n == p.n, q.A == p.A, q.d == p.d))]
        rs = list(r.f) if self.what == "qr" else [r]
        k = key(c.a[0], c.a[1])
        vp, vd = pval(c.st, c.a[0]), pval(c.st, c.a[1])
        cl = [Clause("possible", z3.Not(self.bad(c)), lemma=True)]
        for w, v in zip(self.what, rs):
            p = P(v)
            cl.append(Clause({"q": "quotient", "x": "quotient", "r": "remainder"}[w], pval(c.st, v) == (VR(*k) if w == "r" else VQ(*k)), lemma=True))
            if w == "r":
                cl += [Clause("remainder-degree", p.n < P(c.a[1]).n, lemma=True)]
        if self.what == "qr":
            cl.append(Clause("identity", vp == pval(c.st, rs[0]) * vd + pval(c.st, rs[1])))
        elif self.what == "x":
            cl.append(Clause("identity", vp == pval(c.st, r) * vd))
        elif self.what == "q":
            cl.append(Clause("identity", vp == pval(c.st, r) * vd + VR(*k)))
        else:
            cl.append(Clause("identity", vp == VQ(*k) * vd + pval(c.st, r)))
        for v in rs:
            cl += inv_clauses(P(v))
        if c.assuming and self.what == "r":
            q = P(c.a[1])
            c.eng.used_axioms.add(CONGAX)
            c.st.assume(CONG(pval(c.st, r), vp, q.A, q.n, q.d))
        return cl


class Powmod(PC):
    """self^n reduced by the modulus; fails only for a zero modulus, 0^0 and negative exponents"""

    def __init__(self, name, method, form):
        self.form = form
        super().__init__(name, inh(method), "Q")

    def bad(self, c):
        p, q, n = P(c.a[0]), P(c.a[2]), to_z(c.a[1])
        return z3.Or(q.n == 0, n < 0, z3.And(n == 0, p.n == 0))

    def panics(self, c):
        return self.bad(c) if self.form == "val" else False

    def ensures(self, c):
        r = c.r
        if self.form == "opt":
            r = optv(r)
            if r is None:
                return [Clause("none-only-when-undefined", self.bad(c))]
        q, n, z = P(c.a[2]), to_z(c.a[1]), P(r)
        v = pval(c.st, c.a[0])
        if not c.assuming:
            c.st.assume(z3.And(RP(v, z3.IntVal(0)) == 1, RP(v, z3.IntVal(1)) == v))
        return [Clause("defined", z3.Not(self.bad(c)), lemma=True), Clause("degree", z.n < q.n, lemma=True), Clause("congruent", CONG(pval(c.st, r), RP(v, n), q.A, q.n, q.d))] + inv_clauses(z)


class PowmodLoop(LoopSpec):
    name = "square-and-multiply"
    vars = ("exponent",)

    def vals(self, l):
        r = optv(l.vt("retval", "Option"))
        return pval(l.st, l.vt("base", "Polynomial")), l.z("exponent"), (z3.RealVal(1) if r is None else pval(l.st, r))

    def mod(self, l):
        q = P(l.v("modulus"))
        return q.A, q.n, q.d

    def ghost0(self, l):
        p0, n0 = pval(l.st, l.v("self")), l.z("exponent")
        l.rec["p0"] = (p0, n0)
        b, e, r = self.vals(l)
        l.eng.used_axioms.add(CONGAX)
        l.st.assume(z3.Implies(z3.And(e >= 0, CONG(b, p0, *self.mod(l))), CONG(RP(b, e), RP(p0, e), *self.mod(l))))
        return {}

    def lemmas(self, l):
        b, e, r = self.vals(l)
        l.rec["b"] = (b, e, r)
        m = self.mod(l)
        p0, n0 = l.rec["p0"]
        T = RP(p0, n0)
        l.st.assume(z3.Implies(e >= 1, z3.And(RP(b, e) == b * RP(b, e - 1), RP(b, z3.IntVal(1)) == b)))
        # at the last digit: r*b = T (mod m), and a representative of r*b is one of T
        l.rec["T"] = T
        x = z3.Real("x!cg")
        l.st.assume(z3.ForAll([x], z3.Implies(z3.And(CONG(x, r * b, *m), CONG(r * b, T, *m)), CONG(x, T, *m)), patterns=[CONG(x, r * b, *m)]))

    def on_back(self, l):
        b0, e0, r0 = l.rec["b"]
        b, e, r = self.vals(l)
        m = self.mod(l)
        T = l.rec["T"]
        C = lambda x, y: CONG(x, y, *m)
        s = l.st
        k = e
        s.assume(z3.Implies(k >= 0, z3.And(RP(b0, 2 * k) == RP(b0 * b0, k), RP(b0, 2 * k + 1) == b0 * RP(b0, 2 * k))))
        s.assume(z3.Implies(z3.And(k >= 0, C(b, b0 * b0)), C(RP(b, k), RP(b0 * b0, k))))                          # powers
        s.assume(z3.Implies(z3.And(C(RP(b, k), RP(b0 * b0, k)), r == r0), C(RP(b, k) * r, RP(b0 * b0, k) * r0)))     # products
        s.assume(z3.Implies(z3.And(C(RP(b, k), RP(b0 * b0, k)), z3.Or(C(r, r0 * b0), r == r0 * b0)), C(RP(b, k) * r, RP(b0 * b0, k) * (r0 * b0))))
        for mid in (RP(b0 * b0, k) * r0, RP(b0 * b0, k) * (r0 * b0)):
            s.assume(z3.Implies(z3.And(C(RP(b, k) * r, mid), C(mid, T)), C(RP(b, k) * r, T)))                       # transitivity

    def inv(self, l):
        b, e, r = self.vals(l)
        p0, n0 = l.rec["p0"]
        m = self.mod(l)
        rv = optv(l.vt("retval", "Option"))
        cl = [Clause("exponent", e >= 1), Clause("value", CONG(RP(b, e) * r, RP(p0, n0), *m)), Clause("base-degree", P(l.vt("base", "Polynomial")).n < m[1])]
        cl += [Clause("base-" + x.label, x.goal) for x in inv_clauses(P(l.vt("base", "Polynomial")))]
        if rv is not None:
            cl += [Clause("result-degree", P(rv).n < m[1])] + [Clause("result-" + x.label, x.goal) for x in inv_clauses(P(rv))]
        return cl


def tr(trait, method, rhs):
    def match(eng, fn):
        if M.last(fn["trait"]) != trait or fn["method"] != method:
            return False
        ta = [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["trait_args"]]
        return is_poly(ta[0]) and (is_poly(ta[1] if len(ta) > 1 else ta[0]) == (rhs == "poly"))
    return match


def contracts():
    C = [Element(), DivisorPow("pdiv::divisor_pow_usize", "divisor_pow_usize")]
    for k in "ZQ":
        C += [Pseudo(f"pdiv::checked_pseudo_div_rem/{k}", "checked_pseudo_div_rem", k, True), Pseudo(f"pdiv::pseudo_div_rem/{k}", "pseudo_div_rem", k, False),
              ExactPseudo(f"pdiv::checked_exact_pseudo_div/{k}", "checked_exact_pseudo_div", k, True), ExactPseudo(f"pdiv::exact_pseudo_div/{k}", "exact_pseudo_div", k, False)]
        for m, f in (("div_single", "val"), ("div_assign_single", "assign"), ("checked_div_single", "opt"), ("checked_div_assign_single", "res")):
            C.append(CoeffDiv(f"pdiv::{m}/{k}", inh(m), k, f))
        for t, m, f in (("Div", "div", "val"), ("DivAssign", "div_assign", "assign"), ("ExactDiv", "exact_div", "val"), ("ExactDiv", "checked_exact_div", "opt"),
                        ("ExactDivAssign", "exact_div_assign", "assign"), ("ExactDivAssign", "checked_exact_div_assign", "res")):
            C.append(CoeffDiv(f"pdiv::{m}/coeff/{k}", tr(t, m, "coeff"), k, f))
            if t.startswith("Exact"):
                C.append(PolyDiv(f"pdiv::{m}/poly/{k}", tr(t, m, "poly"), k, f, "x"))
        C += [PolyDiv(f"pdiv::div_rem/{k}", inh("div_rem"), k, "val", "qr"), PolyDiv(f"pdiv::checked_div_rem/{k}", inh("checked_div_rem"), k, "opt", "qr")]
    for t, m, f, w in (("Div", "div", "val", "q"), ("DivAssign", "div_assign", "assign", "q"), ("Rem", "rem", "val", "r"), ("RemAssign", "rem_assign", "assign", "r"),
                       ("CheckedDiv", "checked_div", "opt", "q"), ("CheckedRem", "checked_rem", "opt", "r")):
        C.append(PolyDiv(f"pdiv::{m}/poly/Q", tr(t, m, "poly"), "Q", f, w))
    C += [Powmod("pdiv::checked_powmod", "checked_powmod", "opt"), Powmod("pdiv::powmod", "powmod", "val")]
    return C


def loopspecs():
    f = lambda n: (lambda fn: "algebraics::polynomial" in fn["path"] and fn["method"] == n)
    return {f("element_pseudo_div_rem"): {0: ElemOuter(), 1: ElemScale(), 2: ElemRow(), 3: ElemScaleQ()}, f("divisor_pow_usize"): {0: IntPowLoop()}, f("checked_powmod"): {0: PowmodLoop()}}
