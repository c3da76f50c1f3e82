"""Contracts on polynomial gcd, extended gcd and resultant (instances over BigInt and Ratio<BigInt>); values as in c_poly.py.

IDL(a, b) names the ideal of Q[X] generated by a and b, PRI(a) the one generated by a: "g divides both and every common divisor
divides g" is PRI(g) == IDL(a, b).  RESZ / RESQ name the resultant (determinant of the Sylvester matrix)."""
import z3
import models as M
import c_poly
import c_pdiv
import c_traits
from values import *
from iters import PW, RP, VAL, ADIV
from engine import Contract, Clause
from loops import LoopSpec
from c_poly import P, PC, inh, is_poly, poly_kind, coeff, inv_clauses, optv, pval, rat, cow

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
G = z3.DeclareSort("Ideal")
IDL = z3.Function("IDL", R, R, G)
PRI = z3.Function("PRI", R, G)
RESZ = z3.Function("RESZ", I, I, I, I, I)
RESQ = z3.Function("RESQ", R, I, R, I, R)
CH = z3.Function("CH", I, I, I, I, I, I, I, B)
SCH = z3.Function("SCH", I, I, I, I, I, I, B)
MAXLEN = 1 << 31

AX_I = "ideals of Q[X]: (a,b) = (b,a); (a,0) = (a); (a,b) = (b,r) when f*a = q*b + r with f a nonzero constant; multiplying a generator by a nonzero constant changes nothing; a generator of (a,b) divides a and b"
AX_RES = "resultants: Res(u,v) = (-1)^(mn) Res(v,u); Res(u,v) = v^m for constant v; Res(u,v) = 0 when v is not constant and divides f*u; l^k Res(u,v) = (-1)^(mn) b^n Res(v,r) when l^d*u = q*v + b*r, l = lc(v), m = deg u >= n = deg v >= 1, d = m-n+1, s = deg r, k = n*d+s-m"
AX_SUB = "fundamental theorem of subresultants (integer coefficients): the divisions that scale the remainder sequences of nonzero_resultant and subresultant_gcd are exact"
AX_LC = "p = x*q for a constant x and equal lengths: the leading coefficients satisfy the same equation"
AX_PW = "laws of powers: (n/d)^k d^k = n^k"


def remember(st, k, v):
    st.ghost[k] = st.ghost.get(k, ()) + (v,)


class K:
    """a polynomial seen through the kind of its coefficients"""

    def __init__(self, st, v):
        self.p = P(v)
        self.n = self.p.n
        self.deg = self.p.n - 1
        self.q = self.p.q
        self.v = pval(st, v)
        self.e = self.v if self.q else self.p.e
        lc = z3.Select(self.p.A, self.n - 1)
        if self.q:
            st.assume(z3.Implies(self.p.d >= 1, VAL(lc, self.p.d) * z3.ToReal(self.p.d) == z3.ToReal(lc)))
            self.lc = VAL(lc, self.p.d)
        else:
            self.lc = lc


def cv(st, v):
    """value of a coefficient (Int or Real by kind)"""
    return rat(st, v) if isinstance(v, Adt) else to_z(v)


def pw(x, k):
    return RP(x, k) if x.sort() == R else PW(x, k)


def res(u, v):
    return (RESQ if u.q else RESZ)(u.e, u.n, v.e, v.n)


def one(u):
    return z3.RealVal(1) if u.q else z3.IntVal(1)


def sign(u, v):
    o = one(u)
    return z3.If(z3.And(u.deg % 2 == 1, v.deg % 2 == 1), -o, o)


# ---------------------------------------------------------------- records of the calls made on the way
def saw_pseudo(c, p, q, Q, Rm, f):
    st = c.st
    u, v, r = K(st, p), K(st, q), K(st, Rm)
    fv = cv(st, f)
    if u.q:
        c.eng.used_axioms.add(AX_PW)
        ql = z3.If(u.n >= v.n, u.n - v.n + 1, z3.IntVal(0))
        lc = z3.Select(v.p.A, v.n - 1)
        k = RP(v.lc, ql)
        st.assume(z3.And(k * z3.ToReal(PW(v.p.d, ql)) == z3.ToReal(PW(lc, ql)), PW(v.p.d, ql) >= 1))
        fn, fd = coeff(f)
        g = fv == k
        Clause("factor-value", g, hyps=[fv * z3.ToReal(fd) == z3.ToReal(fn), fd >= 1, fn * PW(v.p.d, ql) == PW(lc, ql) * fd,
               k * z3.ToReal(PW(v.p.d, ql)) == z3.ToReal(PW(lc, ql)), PW(v.p.d, ql) >= 1], alone=True, lemma=True).oblige(c.eng, st, f"{c.eng.cur}/factor-value")
    c.eng.used_axioms.add(AX_I)
    st.assume(z3.And(IDL(u.v, v.v) == IDL(v.v, r.v), z3.Implies(r.n == 0, IDL(v.v, r.v) == PRI(v.v))))
    remember(st, "gcd.pseudo", (u, v, r, fv))
    remember(st, "gcd.divided", (u, v, r))
    for h in st.ghost.get("gcd.hooks", ()):
        h(c, st, u, v, r, fv)


def saw_div(c, p, q, Rm):
    st = c.st
    u, v, r = K(st, p), K(st, q), K(st, Rm)
    c.eng.used_axioms.add(AX_I)
    st.assume(z3.And(IDL(u.v, v.v) == IDL(v.v, r.v), z3.Implies(r.n == 0, IDL(v.v, r.v) == PRI(v.v))))
    remember(st, "gcd.divided", (u, v, r))


def saw_coeffdiv(c, p, n, q):
    """q = p/n"""
    st = c.st
    a, b, x = K(st, p), K(st, q), cv(st, n)
    remember(st, "gcd.scaled", (a, x, b))
    c.eng.used_axioms.add(AX_I)
    c.eng.used_axioms.add(AX_LC)
    ok = z3.And(x != 0, b.e * x == a.e, a.n == b.n)
    st.assume(z3.Implies(z3.And(ok, a.n > 0), a.lc == x * b.lc))
    st.assume(z3.Implies(ok, PRI(a.v) == PRI(b.v)))
    for (u, v, r) in st.ghost.get("gcd.divided", ()):
        st.assume(z3.Implies(ok, IDL(v.v, a.v) == IDL(v.v, b.v)))
    for (a2, x2, b2) in st.ghost["gcd.scaled"]:
        ok2 = z3.And(x2 != 0, b2.e * x2 == a2.e, a2.n == b2.n)
        st.assume(z3.Implies(z3.And(ok, ok2), z3.And(IDL(a.v, a2.v) == IDL(b.v, b2.v), IDL(a2.v, a.v) == IDL(b2.v, b.v))))


# ---------------------------------------------------------------- powers of coefficients
def ckind(eng, t):
    if eng.is_bigint(t):
        return "Z"
    if t["k"] == "adt" and t["path"] == M.RATIO and eng.is_bigint(eng.prog.ty(t["targs"][0])):
        return "Q"
    return None


class CoeffPow(Contract):
    def __init__(self, kind):
        self.kind, self.name = kind, f"pgcd::coefficient_pow_usize/{kind}"

    def matches(self, eng, fn):
        return fn["method"] == "coefficient_pow_usize" and "locals" in fn and "blocks" in fn and ckind(eng, eng.prog.ty(fn["locals"][1])) == self.kind

    def ensures(self, c):
        b, e, r = cv(c.st, c.a[0]), to_z(c.a[1]), cv(c.st, c.r)
        if self.kind == "Q":
            c.st.assume(z3.And(RP(b, z3.IntVal(0)) == 1, RP(b, z3.IntVal(1)) == b))
        cl = [Clause("power", r == pw(b, e), lemma=True)]
        if self.kind == "Q":
            cl += [Clause("denominator", coeff(c.r)[1] >= 1, lemma=True)]
            if c.assuming:
                c.st.assume(z3.Implies(b != 0, RP(b, e) != 0))
                c.st.assume((coeff(c.a[0])[0] == 0) == (b == 0))
                c.st.assume((coeff(c.r)[0] == 0) == (r == 0))
        return cl


class CoeffPowLoop(LoopSpec):
    name = "square-and-multiply"
    vars = ("base", "exponent")

    def vals(self, l):
        r = optv(l.vt("retval", "Option"))
        b = cv(l.st, l.v("base"))
        return b, l.z("exponent"), (z3.RealVal(1) if b.sort() == R else z3.IntVal(1)) if r is None else cv(l.st, r)

    def lemmas(self, l):
        b, e, r = self.vals(l)
        l.rec["h"] = (b, e)
        l.st.assume(z3.Implies(e >= 1, z3.And(pw(b, e) == b * pw(b, e - 1), pw(b, z3.IntVal(1)) == b)))

    def on_back(self, l):
        b0, e0 = l.rec["h"]
        b, e, r = self.vals(l)
        l.st.assume(z3.Implies(z3.And(e >= 0, b == b0 * b0), pw(b, e) == pw(b0, 2 * e)))
        l.st.assume(z3.Implies(e >= 0, pw(b0, 2 * e + 1) == b0 * pw(b0, 2 * e)))

    def inv(self, l):
        b, e, r = self.vals(l)
        return [Clause("exponent", e >= 1), Clause("value", pw(b, e) * r == pw(cv(l.st, l.e("base")), to_z(l.e("exponent"))))]


class SignedPow(Contract):
    """factor * base^(p-n), exact"""

    def __init__(self, kind):
        self.kind, self.name = kind, f"pgcd::exact_mul_by_signed_power/{kind}"

    def matches(self, eng, fn):
        return fn["path"].endswith("gcd::exact_mul_by_signed_power") and "locals" in fn and ckind(eng, eng.prog.ty(fn["locals"][1])) == self.kind

    def parts(self, c):
        return cv(c.st, c.a[0]), cv(c.st, c.a[1]), to_z(c.a[2]), to_z(c.a[3])

    def panics(self, c):
        f, b, p, n = self.parts(c)
        d = pw(b, n - p)
        if self.kind == "Q":
            c.st.assume(z3.Implies(z3.And(b != 0, p <= n), d != 0))
            return z3.And(p < n, d == 0)
        return z3.And(p < n, to_b(bor(cmpop("eq", d, 0), cmpop("ne", modz(c.st, f, d), 0))))

    def ensures(self, c):
        f, b, p, n = self.parts(c)
        r = cv(c.st, c.r)
        cl = [Clause("value", z3.And(z3.Implies(p >= n, r == f * pw(b, p - n)), z3.Implies(p < n, r * pw(b, n - p) == f)), lemma=True)]
        if self.kind == "Q":
            cl += [Clause("denominator", coeff(c.r)[1] >= 1, lemma=True)]
            if c.assuming:
                c.st.assume((coeff(c.r)[0] == 0) == (r == 0))
                c.st.assume(z3.Implies(b != 0, z3.And(z3.Implies(p >= n, RP(b, p - n) != 0), z3.Implies(p < n, RP(b, n - p) != 0))))
        return cl


def to_b(x):
    return x if isinstance(x, z3.ExprRef) else z3.BoolVal(bool(x))


def modz(st, n, d):
    """n mod d, zero for the known multiples of d"""
    m = st.mod_floor(n, d)
    for x in st.ghost.get("cofactors", ()):
        st.assume(z3.Implies(z3.And(d != 0, n == d * x), to_b(cmpop("eq", m, 0))))
    return m


# ---------------------------------------------------------------- reduction
class ReducingFactor(PC):
    """the leading coefficient (rational coefficients)"""

    def __init__(self, name, method, opt):
        self.opt = opt
        super().__init__(name, inh(method), "Q")

    def ensures(self, c):
        p = P(c.a[0])
        r = c.r
        lc = z3.Select(p.A, p.n - 1)
        if self.opt:
            r = optv(r)
            if r is None:
                return [Clause("none-only-for-zero", p.n == 0)]
        n, d = coeff(r)
        nz = z3.And(n != 0, n * p.d == lc * d)
        cl = [Clause("denominator", d >= 1, lemma=True)]
        if self.opt:
            cl += [Clause("nonzero", p.n > 0, lemma=True), Clause("value", nz, lemma=True)]
        else:
            cl += [Clause("value", z3.If(p.n > 0, nz, n == 0))]
        if c.assuming:
            k = K(c.st, c.a[0])
            x = rat(c.st, r)
            c.st.assume(z3.Implies(z3.And(p.n > 0, d >= 1, nz), z3.And(x == k.lc, x != 0)))
        return cl


class Reduced(PC):
    """self / lc(self): monic"""

    def ensures(self, c):
        r = c.n[0] if c.n and c.n[0] is not None else c.r
        o, z = K(c.st, c.a[0]), K(c.st, r)
        if c.assuming:
            c.eng.used_axioms.add(AX_I)
            remember(c.st, "gcd.reduced", (o, z))
        return [Clause("length", z.n == o.n, lemma=True), Clause("value", z3.Implies(o.n > 0, z.v * o.lc == o.v), lemma=True), Clause("zero", z3.Implies(o.n == 0, z.v == 0), hyps=[z3.Implies(z.n == 0, z.p.e == 0)], lemma=True),
                Clause("monic", z3.Implies(z.n > 0, z3.Select(z.p.A, z.n - 1) == z.p.d), lemma=True)] + inv_clauses(z.p)


# ---------------------------------------------------------------- gcd
def same_ideals(c, a, b):
    """ideal facts about the reductions met on the way"""
    st = c.st
    red = st.ghost.get("gcd.reduced", ())
    for (o, z) in red:
        st.assume(z3.Implies(z3.Or(o.n == 0, z.v * o.lc == o.v), PRI(o.v) == PRI(z.v)))
        for (o2, z2) in red:
            st.assume(IDL(o.v, o2.v) == IDL(z.v, z2.v))


class SubGcd(PC):
    def requires(self, c):
        a, b = K(c.st, c.a[0]), K(c.st, c.a[1])
        if not c.calling:
            c.eng.used_axioms.update((AX_I, AX_SUB))
            st = c.st
            st.assume(z3.And(IDL(a.v, b.v) == IDL(b.v, a.v), z3.Implies(b.n == 0, IDL(a.v, b.v) == PRI(a.v)), z3.Implies(a.n == 0, IDL(b.v, a.v) == PRI(b.v))))
        return [Clause("resource-bound", z3.And(a.n <= MAXLEN, b.n <= MAXLEN))]

    def ensures(self, c):
        a, b, r = K(c.st, c.a[0]), K(c.st, c.a[1]), K(c.st, c.r)
        if not c.assuming:
            for (x,) in c.st.ghost.get("gcd.last", ()):
                c.st.assume(z3.Implies(r.v == -x, PRI(r.v) == PRI(x)))
        return [Clause("generates", PRI(r.v) == IDL(a.v, b.v)), Clause("nonzero", z3.Implies(z3.Or(a.n > 0, b.n > 0), r.n > 0)), Clause("bounded", r.n <= z3.If(a.n >= b.n, a.n, b.n))] + inv_clauses(r.p)


class SubGcdLoop(LoopSpec):
    name = "remainder-sequence"
    vars = ("self", "rhs")

    def view(self, l):
        st = l.st
        f2, f1 = K(st, l.v("f_i_2")), K(st, l.v("f_i_1"))
        return f2, f1, cv(st, l.v("a_i_2")), cv(st, l.v("c_i_2")), l.z("n_i_2"), l.z("n_i_1"), l.z("i")

    def ghost0(self, l):
        f2, f1, a, c, n2, n1, i = self.view(l)
        l.rec["start"] = (f2, f1)
        if not f2.q:
            l.st.assume(z3.Implies(z3.And(a == 1, c == 1, f2.n >= f1.n, f1.n >= 1), SCH(f2.e, f2.n, f1.e, f1.n, a, c)))
        return {}

    def inv(self, l):
        f2, f1, a, c, n2, n1, i = self.view(l)
        s2, s1 = l.rec["start"]
        cl = [Clause("degrees", z3.And(n2 == f2.n - 1, n1 == f1.n - 1, n1 >= 0, n2 >= n1, f2.n <= s2.n)), Clause("counter", z3.And(i >= 3, i + n1 <= 3 + s2.n)),
              Clause("scales-nonzero", z3.And(a != 0, c != 0)), Clause("ideal", IDL(f2.v, f1.v) == IDL(s2.v, s1.v))]
        if not f2.q:
            cl.append(Clause("subresultant-chain", SCH(f2.e, f2.n, f1.e, f1.n, a, c)))
        else:
            cl.append(Clause("denominators", z3.And(coeff(l.v("a_i_2"))[1] >= 1, coeff(l.v("c_i_2"))[1] >= 1)))
        return cl

    def lemmas(self, l):
        f2, f1, a, c, n2, n1, i = self.view(l)
        st = l.st
        l.rec["h"] = (f2, f1, a, c, n2, n1)
        remember(st, "gcd.last", (f1.v,))
        if f2.q:
            for nm, x in (("a_i_2", a), ("c_i_2", c)):
                st.assume((coeff(l.v(nm))[0] == 0) == (x == 0))
            return
        d = n2 - n1
        x = st.fresh_int("csub")
        remember(st, "cofactors", x)
        S = SCH(f2.e, f2.n, f1.e, f1.n, a, c)
        st.assume(z3.Implies(z3.And(S, d >= 2), PW(f1.lc, d) == PW(c, d - 1) * x))

        def hook(cc, st, u, v, r, f):
            st.assume(z3.Implies(z3.And(S, u.e == f2.e, u.n == f2.n, v.e == f1.e, v.n == f1.n), ADIV(r.p.A, r.n, -a * PW(-c, d))))
        st.ghost["gcd.hooks"] = (hook,)

    def on_back(self, l):
        f2, f1, a, c, n2, n1, i = self.view(l)
        g2, g1, a0, c0, m2, m1 = l.rec["h"]
        st = l.st
        if f2.q:
            return
        d = m2 - m1
        div = -a0 * PW(-c0, d)
        for (u, v, r, f) in st.ghost.get("gcd.pseudo", ()):
            h = [SCH(g2.e, g2.n, g1.e, g1.n, a0, c0), u.e == g2.e, u.n == g2.n, v.e == g1.e, v.n == g1.n, f2.e == g1.e, f2.n == g1.n, f1.e * div == r.e, f1.n == r.n, a == g1.lc,
                 z3.If(d <= 1, c == PW(g1.lc, d) * PW(c0, 1 - d), c * PW(c0, d - 1) == PW(g1.lc, d)), f1.n >= 1]
            st.assume(z3.Implies(z3.And(*h), SCH(f2.e, f2.n, f1.e, f1.n, a, c)))
        k = z3.If(d <= 1, PW(c0, 1 - d), PW(c0, d - 1))
        st.assume(z3.Implies(c0 != 0, k != 0))
        st.assume(z3.Implies(g1.lc != 0, PW(g1.lc, d) != 0))


class Gcd(PC):
    """gcd, gcd_lcm, extended_gcd, extended_gcd_lcm over the rationals: monic generator, Bezout cofactors, lcm*gcd = self*rhs"""

    def __init__(self, method):
        self.method = method
        super().__init__(f"pgcd::{method}", lambda eng, fn: M.last(fn["trait"]) in ("GCD", "ExtendedGCD") and fn["method"] == method, "Q")

    def requires(self, c):
        a, b = K(c.st, c.a[0]), K(c.st, c.a[1])
        if not c.calling:
            c.eng.used_axioms.add(AX_I)
            st = c.st
            for (x, y) in ((a, b), (b, a)):
                st.assume(z3.And(IDL(x.v, y.v) == IDL(y.v, x.v), z3.Implies(y.n == 0, IDL(x.v, y.v) == PRI(x.v))))
        return [Clause("resource-bound", z3.And(a.n <= MAXLEN, b.n <= MAXLEN))]

    def ensures(self, c):
        st = c.st
        a, b = K(st, c.a[0]), K(st, c.a[1])
        if self.method == "gcd":
            fs = {"gcd": c.r}
        else:
            fs = dict(zip([f[0] for f in c.eng.prog.ty(c.r.ty)["variants"][0]["fields"]], c.r.f))
        g = K(st, fs["gcd"])
        if not c.assuming:
            red = st.ghost.get("gcd.reduced", ())
            for (o, z) in red:
                st.assume(z3.Implies(z3.Or(z3.And(o.n == 0, z.n == 0), z3.And(z.v * o.lc == o.v, o.lc != 0)), PRI(o.v) == PRI(z.v)))
                for (o2, z2) in red:
                    h = [z3.Or(z3.And(x.n == 0, y.n == 0), z3.And(y.v * x.lc == x.v, x.lc != 0)) for (x, y) in ((o, z), (o2, z2))]
                    st.assume(z3.Implies(z3.And(*h), IDL(o.v, o2.v) == IDL(z.v, z2.v)))
        cl = [Clause("generates", PRI(g.v) == IDL(a.v, b.v), lemma=True), Clause("zero-only-for-zeros", (g.n == 0) == z3.And(a.n == 0, b.n == 0), lemma=True),
              Clause("monic", z3.Implies(g.n > 0, z3.Select(g.p.A, g.n - 1) == g.p.d), lemma=True)]
        if "x" in fs:
            x, y = K(st, fs["x"]), K(st, fs["y"])
            cl.append(Clause("bezout", g.v == x.v * a.v + y.v * b.v))
        if "lcm" in fs:
            m = K(st, fs["lcm"])
            cl.append(Clause("lcm", z3.And(m.v * g.v == a.v * b.v, z3.Implies(g.n == 0, m.v == 0))))
        for v in fs.values():
            cl += inv_clauses(P(v))
        if c.assuming:
            from c_pdiv import RZ, key
            for i in (0, 1):
                st.assume(z3.Implies(z3.And(PRI(g.v) == IDL(a.v, b.v), g.n > 0), RZ(*key(c.a[i], fs["gcd"]))))
        return cl


class ExtLoop(LoopSpec):
    name = "euclid"

    def lemmas(self, l):
        l.rec["h"] = self.view(l)

    def on_back(self, l):
        (s0, t0), a, b = l.rec["h"]
        (s, t), _, _ = self.view(l)
        st = l.st
        recs = []
        for w in t:
            m = [z for z in st.ghost.get("gcd.scaled", ()) if z[2].v.get_id() == w.v.get_id()]
            if not m:
                return
            recs.append(m[-1])
        # v = x*a + y*b before the common factor is divided out, hence after
        (v1, f1, v2), (x1, f2, x2), (y1, f3, y2) = recs
        g = v1.v == x1.v * a.v + y1.v * b.v
        Clause("unscaled-bezout", g, lemma=True).oblige(l.eng, st, f"{l.eng.cur}/{self.name}/step/unscaled-bezout")
        h = [g, v2.v * f1 == v1.v, x2.v * f2 == x1.v, y2.v * f3 == y1.v, f1 == f2, f1 == f3, f1 != 0]
        for k, z in enumerate(h[1:]):
            Clause(f"scale{k}", z, lemma=True).oblige(l.eng, st, f"{l.eng.cur}/{self.name}/step/scale{k}")
        Clause("scaled-bezout", v2.v == x2.v * a.v + y2.v * b.v, hyps=h, alone=True, lemma=True).oblige(l.eng, st, f"{l.eng.cur}/{self.name}/step/scaled-bezout")

    def view(self, l):
        out = []
        for nm in ("lhs_state", "rhs_state"):
            s = l.v(nm)
            fs = [f[0] for f in l.eng.prog.ty(s.ty)["variants"][0]["fields"]]
            out.append([K(l.st, s.f[fs.index(x)]) for x in ("v", "x", "y")])
        return out, K(l.st, l.v("lhs")), K(l.st, l.v("rhs"))

    def inv(self, l):
        (s, t), a, b = self.view(l)
        cl = []
        for nm, (v, x, y) in (("lhs", s), ("rhs", t)):
            cl += [Clause(nm + "-bezout", v.v == x.v * a.v + y.v * b.v), Clause(nm + "-monic", z3.Implies(v.n > 0, z3.Select(v.p.A, v.n - 1) == v.p.d))]
        l.st.assume(z3.Implies(t[0].n == 0, IDL(s[0].v, t[0].v) == PRI(s[0].v)))
        return cl + [Clause("nonzero", s[0].n > 0), Clause("ideal", IDL(s[0].v, t[0].v) == IDL(a.v, b.v))]


# ---------------------------------------------------------------- resultant
class Resultant(PC):
    """nonzero_resultant, resultant"""

    def __init__(self, method, kind):
        self.method = method
        super().__init__(f"pgcd::{method}/{kind}", inh(method), kind)

    def requires(self, c):
        return [Clause("resource-bound", z3.And(P(c.a[0]).n <= MAXLEN, P(c.a[1]).n <= MAXLEN))]

    def ensures(self, c):
        u, v = K(c.st, c.a[0]), K(c.st, c.a[1])
        zero = z3.Or(u.n == 0, v.n == 0)
        r = c.r
        if self.method == "nonzero_resultant":
            r = optv(r)
            if r is None:
                return [Clause("none-only-when-zero", z3.Or(zero, res(u, v) == 0))]
            x = cv(c.st, r)
            cl = [Clause("nonzero", z3.And(u.n > 0, v.n > 0, x != 0), lemma=True), Clause("value", x == res(u, v))]
        else:
            x = cv(c.st, r)
            cl = [Clause("value", z3.If(zero, x == 0, x == res(u, v)))]
        if u.q:
            cl.append(Clause("denominator", coeff(r)[1] >= 1))
        return cl


class RecRes(Contract):
    """one step of the remainder sequence: Some(w) is the resultant and nonzero, None means that it is zero"""
    recursive = True

    def __init__(self, kind):
        self.kind, self.name = kind, f"pgcd::recursive_resultant/{kind}"

    def matches(self, eng, fn):
        return fn["path"].endswith("recursive_resultant") and "locals" in fn and ckind(eng, eng.prog.ty(fn["locals"][5])) == self.kind

    def parts(self, c):
        return K(c.st, c.a[0]), K(c.st, c.a[1]), to_z(c.a[2]), to_z(c.a[3]), cv(c.st, c.a[4])

    def chain(self, u, v, i, dp, pp):
        return z3.BoolVal(True) if u.q else CH(u.e, u.n, v.e, v.n, i, dp, pp)

    def requires(self, c):
        st = c.st
        u, v, i, dp, pp = self.parts(c)
        c.eng.used_axioms.update((AX_RES, AX_SUB))
        o = one(u)
        if not c.calling:
            m, n = u.deg, v.deg
            d = m + 1 - n
            f = u.lc
            psi = st.fresh_int("psi") if not u.q else st.fresh_real("psi")
            later = z3.And(i > 1, self.chain(u, v, i, dp, pp))
            # the exact quotient the code divides out
            st.assume(z3.Implies(z3.And(later, dp >= 2), pw(-f, dp - 1) == pw(pp, dp - 2) * psi))
            st.assume(z3.Implies(z3.And(dp >= 2, pp != 0), pw(pp, dp - 2) != 0))
            st.assume(z3.Implies(z3.And(dp >= 2, f != 0), pw(-f, dp - 1) != 0))
            remember(st, "cofactors", psi)
            ps = z3.If(i == 1, -o, z3.If(dp == 1, pp, psi))
            beta = z3.If(i == 1, z3.If(d % 2 == 1, -o, o), -f * pw(ps, d - 1))
            st.ghost["rr"] = (u, v, i, dp, pp, ps, beta)
            st.assume(z3.Implies(z3.And(u.n >= 1, v.n == 1), res(u, v) == pw(v.lc, m)))
            st.assume(z3.Implies(v.lc != 0, pw(v.lc, m) != 0))
            st.assume(z3.Implies(z3.And(ps != 0, d >= 1), pw(ps, d - 1) != 0))
            ok = z3.Or(i == 1, later)

            def hook(cc, st, u2, v2, r, fv):
                same = z3.And(u2.e == u.e, u2.n == u.n, v2.e == v.e, v2.n == v.n, v.n >= 2)
                st.assume(z3.Implies(z3.And(same, r.n == 0), res(u, v) == 0))
                if not u.q:
                    st.assume(z3.Implies(z3.And(same, ok, r.n > 0), ADIV(r.p.A, r.n, beta)))
                h = [1 <= n, n <= m, m <= MAXLEN]
                Clause("exponent-range", z3.And(n * d >= m, n * d <= MAXLEN * MAXLEN), hyps=[z3.Implies(z3.And(n >= 1, m >= n), (n - 1) * (m - n) >= 0), z3.Implies(z3.And(*h), n * d <= MAXLEN * MAXLEN)] + h,
                       alone=True).oblige(cc.eng, st, f"{cc.eng.cur}/exponent-range")
                st.assume(z3.Implies(z3.And(*h), z3.And(n * d >= m, n * d <= MAXLEN * MAXLEN)))
            st.ghost["gcd.hooks"] = (hook,)
        elif st.ghost.get("rr"):
            u0, v0, i0, dp0, pp0, ps, beta = st.ghost["rr"]
            for (pu, pvv, r, f) in st.ghost.get("gcd.pseudo", ()):
                for (a, x, b) in st.ghost.get("gcd.scaled", ()):
                    if not u.q:
                        h = [pu.e == u0.e, pu.n == u0.n, pvv.e == v0.e, pvv.n == v0.n, u.e == v0.e, u.n == v0.n, a.e == r.e, a.n == r.n, v.e * beta == r.e, v.n == r.n, i == i0 + 1, dp == u0.n - v0.n + 1, pp == ps,
                             z3.Or(i0 == 1, self.chain(u0, v0, i0, dp0, pp0)), r.n > 0, v0.n >= 2, u0.n >= v0.n]
                        st.assume(z3.Implies(z3.And(*h), CH(u.e, u.n, v.e, v.n, i, dp, pp)))
        return [Clause("nonzero", z3.And(u.n > 0, v.n > 0)), Clause("resource-bound", z3.And(u.n <= MAXLEN, v.n <= MAXLEN)),
                Clause("step-counter", z3.And(i >= 1, i + v.n <= 2 * MAXLEN + 4)),
                Clause("chain", z3.Or(i == 1, z3.And(i > 1, dp >= 1, u.n > v.n, pp != 0, self.chain(u, v, i, dp, pp))))]

    def quotient(self, st, x, f, w):
        for (q, d, n) in st.ghost.get("gcd.ratio-quotients", ()):
            if q.get_id() == x.get_id():
                return [Clause("divisor-is-the-power", d == f, lemma=True, export=False), Clause("dividend", n == w, lemma=True, export=False),
                        Clause("quotient", x * f == w, hyps=[x * d == n, d == f, n == w], alone=True, lemma=True, export=False)]
        return []

    def ensures(self, c):
        st = c.st
        u, v, i, dp, pp = self.parts(c)
        if c.assuming and st.ghost.get("rr"):
            u0, v0 = st.ghost["rr"][:2]
            c.eng.used_axioms.add(AX_RES)
            st.assume(res(v, u) == sign(u, v) * res(u, v))
            for (pu, pvv, r, f) in st.ghost.get("gcd.pseudo", ()):
                for (a, x, b) in st.ghost.get("gcd.scaled", ()):
                    m, n, s = pu.deg, pvv.deg, b.deg
                    d = m + 1 - n
                    k = n * d + s - m
                    h = z3.And(m >= n, n >= 1, s >= 0, f == pw(pvv.lc, d), b.e * x == r.e, b.n == r.n, a.e == r.e)
                    w = sign(pu, pvv) * pw(x, n) * res(pvv, b)
                    st.assume(z3.Implies(h, pw(pvv.lc, k) * res(pu, pvv) == w))
                    st.assume(z3.Implies(z3.And(x != 0, n >= 0), pw(x, n) != 0))
                    st.assume(z3.Implies(z3.And(pvv.lc != 0, k >= 0), pw(pvv.lc, k) != 0))
                    if pu.q:
                        remember(st, "rr.steps", (pw(pvv.lc, k), w))
                    else:
                        remember(st, "cofactors", res(pu, pvv))
        r = optv(c.r)
        if r is None:
            return [Clause("none-only-when-zero", res(u, v) == 0)]
        x = cv(st, r)
        if u.q and not c.assuming:
            for (f, w) in st.ghost.get("rr.steps", ())[-1:]:
                g = x * f == w
                sg = sign(u, v)
                cl0 = [Clause("divisor-nonzero", f != 0, lemma=True, export=False), Clause("sign", z3.Or(sg == 1, sg == -1), lemma=True, export=False),
                       Clause("step-value", f * res(u, v) == w, lemma=True, export=False), *self.quotient(st, x, f, w), Clause("divided-out", g, lemma=True, export=False),
                       Clause("cancel", x == res(u, v), hyps=[g, f != 0, f * res(u, v) == w], alone=True, lemma=True, export=False)]
                return cl0 + [Clause("nonzero", x != 0, lemma=True), Clause("value", x == res(u, v)), Clause("denominator", coeff(r)[1] >= 1)]
        cl = [Clause("nonzero", x != 0, lemma=True), Clause("value", x == res(u, v), lemma=True)]
        if u.q:
            cl.append(Clause("denominator", coeff(r)[1] >= 1))
            if c.assuming:
                st.assume((coeff(r)[0] == 0) == (x == 0))
        return cl


def contracts():
    C = []
    for k in "ZQ":
        C += [Resultant("nonzero_resultant", k), Resultant("resultant", k), RecRes(k)]
        C += [CoeffPow(k), SignedPow(k), SubGcd(f"pgcd::subresultant_gcd/{k}", inh("subresultant_gcd"), k)]
    C += [ReducingFactor("pgcd::nonzero_reducing_factor/Q", "nonzero_reducing_factor", True), ReducingFactor("pgcd::reducing_factor/Q", "reducing_factor", False)]
    C += [Reduced(f"pgcd::{m}/Q", inh(m), "Q") for m in ("reduce_assign", "into_reduced", "to_reduced")]
    C += [Gcd(m) for m in ("gcd", "gcd_lcm", "extended_gcd", "extended_gcd_lcm")]
    return C


def loopspecs():
    f = lambda n: (lambda fn: "algebraics::polynomial" in fn["path"] and fn["method"] == n)
    return {f("coefficient_pow_usize"): {0: CoeffPowLoop()}, f("subresultant_gcd"): {0: SubGcdLoop()}, f("extended_gcd"): {0: ExtLoop()}}


def post(k, c):
    """after the postcondition of a division has been assumed at a call site"""
    if isinstance(k, c_pdiv.Pseudo) and not isinstance(k, c_pdiv.ExactPseudo):
        r = optv(c.r) if k.opt else c.r
        if r is not None:
            qv, rv, f = k.fields(c, r)
            saw_pseudo(c, c.a[0], c.a[1], qv, rv, f)
    elif isinstance(k, c_traits.RExact) and k.method == "exact_div" and isinstance(c.a[1], Adt):
        n, d, q = c.a[0], c.a[1], c.r
        if all(isinstance(z, Adt) for z in (n, d, q)):
            (nn, nd), (dn, dd), (qn, qd) = coeff(n), coeff(d), coeff(q)
            h = []
            for (x, y) in ((nn, nd), (dn, dd), (qn, qd)):
                f = VAL(x, y) * z3.ToReal(y) == z3.ToReal(x)
                c.st.assume(z3.Implies(y >= 1, f))
                h += [f, y >= 1]
            h += [dn != 0, qn * dn * nd == qd * dd * nn]
            remember(c.st, "gcd.ratio-quotients", (VAL(qn, qd), VAL(dn, dd), VAL(nn, nd)))
            Clause("real-quotient", VAL(qn, qd) * VAL(dn, dd) == VAL(nn, nd), hyps=h, alone=True, lemma=True).oblige(c.eng, c.st, f"{c.eng.cur}/exact-div-real-quotient")
    elif isinstance(k, c_pdiv.PolyDiv) and k.what == "qr" and k.form == "val":
        saw_div(c, c.a[0], c.a[1], c.r.f[1])
    elif isinstance(k, c_poly.BinOp) and k.kind == "Q" and k.rhs == "poly" and k.method in ("add", "sub"):
        a, b, r = (c_poly.pv(x) for x in (c.a[0], c.a[1], c.r))
        x, y, z = (c_poly.vfrac(*w) for w in (a, b, r))
        g = z[0] == (x[0] + y[0] if k.method == "add" else x[0] - y[0])
        h = [x[1], y[1], z[1], a[1] >= 1, b[1] >= 1, r[1] >= 1, c_poly.sum_is(r, a, b, 1 if k.method == "add" else -1)]
        for d in (x[1], y[1], z[1]):
            c.st.assume(d)
        Clause("real-value", g, hyps=h, alone=True, lemma=True).oblige(c.eng, c.st, f"{c.eng.cur}/{k.method}-real-value")
    elif isinstance(k, c_pdiv.CoeffDiv) and k.form in ("val", "assign"):
        saw_coeffdiv(c, k.poly(c.a[0]), c.a[1], c.n[0] if k.form == "assign" else c.r)


def install(m):
    m.post_hooks.append(post)
