"""Contracts on polynomial arithmetic (instances over BigInt and Ratio<BigInt>).

A polynomial with numerators A[0..n) and divisor d stands for EV(A, n)/d (see iters.py): contracts state EV identities, so they
are identities of polynomials.  Data invariant: no trailing zero, d >= 1, numerators and divisor in lowest terms."""
import z3
import models as M
import iters
from values import *
from iters import EVR, RP, VAL, EV, DV, GA, QV, XP, X, arr_of, ev
from engine import Contract, Clause, VEC
from loops import LoopSpec

POLY = "algebraics::polynomial::Polynomial"
IND = True


def is_poly(t):
    return t["k"] == "adt" and t["path"] == POLY


def poly_kind(eng, t):
    """'Z' / 'Q' for the supported instances, else None"""
    if not is_poly(t):
        return None
    c = eng.prog.ty(t["targs"][0])
    if eng.is_bigint(c):
        return "Z"
    if c["k"] == "adt" and c["path"] == M.RATIO and eng.is_bigint(eng.prog.ty(c["targs"][0])):
        return "Q"
    return None


class P:
    """view of a polynomial value"""

    def __init__(self, v):
        if not isinstance(v, Adt) or len(v.f) != 2:
            raise Unsupported("polynomial representation changed")
        self.seq = v.f[0]
        self.A, self.n = arr_of(self.seq)
        self.q = not isinstance(v.f[1], Adt)
        self.d = to_z(v.f[1]) if self.q else z3.IntVal(1)

    @property
    def e(self):
        return EV(self.A, self.n)

    def at(self, k):
        return z3.If(z3.And(0 <= k, k < self.n), z3.Select(self.A, k), z3.IntVal(0))

    @property
    def e1(self):
        """value when there is one coefficient"""
        return EV(self.A, z3.IntVal(1))

    def inv(self):
        xs = [self.n >= 0, z3.Implies(self.n > 0, z3.Select(self.A, self.n - 1) != 0)]
        if self.q:
            xs += [self.d >= 1, z3.Implies(self.n == 0, self.d == 1), z3.Implies(self.n > 0, GA(self.A, self.n, self.d) == 1)]
        return z3.And(*xs)


def inv_clauses(p, pre=""):
    xs = [Clause(pre + "no-trailing-zero", z3.Implies(p.n > 0, z3.Select(p.A, p.n - 1) != 0), lemma=True)]
    if p.q:
        xs += [Clause(pre + "divisor-positive", p.d >= 1, lemma=True), Clause(pre + "lowest-terms", z3.And(z3.Implies(p.n == 0, p.d == 1), z3.Implies(p.n > 0, GA(p.A, p.n, p.d) == 1)))]
    return xs


def fresh_poly(eng, st, t, name):
    if poly_kind(eng, t) is None:
        return None
    fs = t["variants"][0]["fields"]
    if [f[0] for f in fs] != ["elements", "divisor"]:
        raise Unsupported("polynomial representation changed")
    outs = eng.fresh_list(st, [(f"{name}.{fn}", u) for fn, u in fs])
    if len(outs) != 1:
        raise Unsupported("polynomial representation changed")
    (s1, vs) = outs[0]
    v = Adt(t["id"], 0, vs)
    p = P(v)
    s1.assume(p.n >= 0)
    if not getattr(eng, "raw", False):
        s1.assume(p.inv())
    if p.q:
        s1.ghost["divs"] = s1.ghost.get("divs", ()) + (p.d,)
    return [(s1, v)]


def poly_inv(eng, v):
    if poly_kind(eng, eng.prog.ty(v.ty)) is None:
        return None
    return P(v).inv()


def coeff(v):
    """(numerator, denominator) of a coefficient value"""
    if isinstance(v, Adt):
        return to_z(v.f[0]), to_z(v.f[1])
    return to_z(v), z3.IntVal(1)


class PC(Contract):
    """matches by path suffix and polynomial kinds of the arguments"""
    kinds = None

    def __init__(self, name, match, kind):
        self.name, self.match, self.kind = name, match, kind

    def matches(self, eng, fn):
        if not fn["path"].startswith("algebraics::polynomial") and "algebraics::polynomial" not in fn["path"]:
            return False
        if not self.match(eng, fn):
            return False
        ts = [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["locals"][:1 + fn["argc"]]] if "locals" in fn else []
        ks = {poly_kind(eng, t) for t in self._flat(eng, ts) if is_poly(t)}
        return ks == {self.kind}

    def _flat(self, eng, ts):
        out = []
        for t in ts:
            out.append(t)
            if t["k"] == "adt" and not is_poly(t):
                out += self._flat(eng, [eng.prog.ty(x) for x in t.get("targs", []) if isinstance(x, int) and x >= 0])
            elif t["k"] == "ref":
                out += self._flat(eng, [eng.prog.ty(t["t"])])
        return out


def inh(m):
    return lambda eng, fn: not fn["trait"] and fn["method"] == m


def frac_eq(e1, d1, e2, d2):
    """e1/d1 == e2/d2"""
    return e1 * d2 == e2 * d1


class Normalize(PC):
    raw_args = (0,)

    def requires(self, c):
        p = P(c.a[0])
        return [Clause("divisor-positive", p.d >= 1)] if p.q else []

    def ensures(self, c):
        o, r = P(c.a[0]), P(c.n[0] if c.n[0] is not None else c.r)
        return [Clause("value", frac_eq(r.e, r.d, o.e, o.d), lemma=True), Clause("not-longer", r.n <= o.n, lemma=True),
                Clause("only-zeros-dropped", z3.Implies(z3.And(o.n > 0, z3.Select(o.A, o.n - 1) != 0), r.n == o.n), lemma=True)] + inv_clauses(r)


class NormalizeLoop(LoopSpec):
    name = "strip"
    vars = ("self",)

    def inv(self, l):
        p, o = P(l.v("self")), P(l.e("self"))
        return [Clause("value", p.e == o.e), Clause("length", z3.And(p.n >= 0, p.n <= o.n)), Clause("divisor", p.d == o.d),
                Clause("only-zeros-dropped", z3.Implies(z3.And(o.n > 0, z3.Select(o.A, o.n - 1) != 0), z3.And(p.n == o.n, z3.Select(p.A, o.n - 1) == z3.Select(o.A, o.n - 1))))]


class Reduce(Contract):
    """Ratio::reduce_divisor(elements, divisor)"""
    raw_args = (0, 1)

    def __init__(self, name):
        self.name = name

    def matches(self, eng, fn):
        if fn["method"] != "reduce_divisor" or "locals" not in fn:
            return False
        a = eng.prog.ty(eng.prog.deref_ty(fn["locals"][1])), eng.prog.ty(eng.prog.deref_ty(fn["locals"][2]))
        return a[0]["k"] == "slice" and eng.is_bigint(eng.prog.ty(a[0]["t"])) and eng.is_bigint(a[1])

    def requires(self, c):
        d = to_z(c.a[1])
        c.st.ghost["divs"] = c.st.ghost.get("divs", ()) + (d,)
        A, n = arr_of(c.a[0])
        return [Clause("divisor-positive", d >= 1), Clause("no-trailing-zero", z3.Implies(n > 0, z3.Select(A, n - 1) != 0))]

    def ensures(self, c):
        (A, n), d = arr_of(c.a[0]), to_z(c.a[1])
        (B, m), r = arr_of(c.n[0]), to_z(c.n[1])
        return [Clause("length", m == n, lemma=True), Clause("value", frac_eq(EV(B, n), r, EV(A, n), d), lemma=True), Clause("divisor-positive", r >= 1, lemma=True),
                Clause("no-trailing-zero", z3.Implies(n > 0, z3.Select(B, n - 1) != 0), lemma=True),
                Clause("lowest-terms", z3.And(z3.Implies(n == 0, r == 1), z3.Implies(n > 0, GA(B, n, r) == 1)))]


class Negate(PC):
    def ensures(self, c):
        o, r = P(c.a[0]), P(c.n[0] if c.n[0] is not None else c.r)
        return [Clause("value", frac_eq(r.e, r.d, -o.e, o.d), lemma=True), Clause("length", r.n == o.n, lemma=True), Clause("divisor", r.d == o.d, lemma=True)] + inv_clauses(r)



def sgn(c, i):
    """sign of the passed operation"""
    f = c.a[i] if not isinstance(c, int) else None
    if not isinstance(f, FnV):
        raise Unsupported("operation passed to add_sub_assign")
    m = c.eng.prog.fns[f.inst]["method"]
    if m not in ("add_assign", "sub_assign"):
        raise Unsupported("operation passed to add_sub_assign")
    return 1 if m == "add_assign" else -1


def sum_is(r, a, b, sign):
    """r == a + sign*b as fractions (e, d)"""
    return r[0] * (a[1] * b[1]) == (a[0] * b[1] + sign * b[0] * a[1]) * r[1]


def pv(v):
    p = P(v)
    return p.e, p.d


class AddSubAssign(PC):
    def ensures(self, c):
        r = P(c.n[0])
        return [Clause("value", sum_is(pv(c.n[0]), pv(c.a[0]), pv(c.a[1]), sgn(c, 2)), lemma=True)] + inv_clauses(r)


class AddSubSingle(PC):
    def ensures(self, c):
        r = P(c.n[0])
        return [Clause("value", sum_is(pv(c.n[0]), pv(c.a[0]), coeff(cow(c.a[1])), sgn(c, 2)), lemma=True)] + inv_clauses(r)


def cow(v):
    if isinstance(v, Adt) and len(v.f) == 1:
        return v.f[0]
    raise Unsupported("Cow")


def vfrac(e, d):
    """e/d as a real number, with its defining fact"""
    return VAL(e, d), VAL(e, d) * z3.ToReal(d) == z3.ToReal(e)


def pval(st, v):
    p = P(v)
    if not p.q:
        return z3.ToReal(p.e)
    st.assume(z3.Implies(p.d >= 1, vfrac(p.e, p.d)[1]))
    return VAL(p.e, p.d)


class BinOp(PC):
    """a op b for every combination of owned and borrowed operands; in-place forms change the first"""

    def __init__(self, name, trait, method, rhs, kind):
        self.trait, self.method, self.rhs = trait, method, rhs

        def match(eng, fn):
            if M.last(fn["trait"]) != trait or fn["method"] != method or len(fn["trait_args"]) != 2:
                return False
            ta = [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["trait_args"]]
            return is_poly(ta[0]) and (is_poly(ta[1]) == (rhs == "poly"))
        super().__init__(name, match, kind)

    def ensures(self, c):
        r = c.n[0] if self.method.endswith("_assign") else c.r
        a = pv(c.a[0])
        b = pv(c.a[1]) if self.rhs == "poly" else coeff(c.a[1])
        op = self.method.split("_")[0]
        if op == "mul":
            g = pv(r)[0] * (a[1] * b[1]) == a[0] * b[0] * pv(r)[1]
        else:
            g = sum_is(pv(r), a, b, 1 if op == "add" else -1)
        cl = [Clause("value", g, lemma=True)] + inv_clauses(P(r))
        if op == "mul" and self.rhs == "poly" and self.kind == "Z":
            cl.append(Clause("real-value", z3.ToReal(pv(r)[0]) == z3.ToReal(a[0]) * z3.ToReal(b[0]), hyps=[g], alone=True, lemma=True, export=False))
            cl.append(Clause("real-value", cl[-1].goal))
        if op == "mul" and self.rhs == "poly" and self.kind == "Q":
            vs = [vfrac(*x) for x in (pv(r), a, b)]
            cl.append(Clause("real-value", vs[0][0] == vs[1][0] * vs[2][0], hyps=[x[1] for x in vs] + [pv(r)[1] >= 1, a[1] >= 1, b[1] >= 1, g], alone=True, lemma=True, export=False))
            cl.append(Clause("real-value", z3.Implies(z3.And(*[x[1] for x in vs]), cl[-1].goal)))
        return cl


class Neg(PC):
    def ensures(self, c):
        o, r = P(c.a[0]), P(c.r)
        return [Clause("value", frac_eq(r.e, r.d, -o.e, o.d), lemma=True), Clause("length", r.n == o.n, lemma=True)] + inv_clauses(r)


class FromSeq(PC):
    """From<Vec<T>>, From<&[T]>, From<Cow<[T]>>"""

    def __init__(self, name, kind):
        def match(eng, fn):
            if M.last(fn["trait"]) != "From" or fn["method"] != "from" or fn["argc"] != 1:
                return False
            t = eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))
            if t["k"] == "adt" and M.last(t["path"]) == "Cow":
                return eng.prog.ty(t["targs"][0])["k"] == "slice"
            return t["k"] == "slice" or t["k"] == "adt" and t["path"] == VEC
        super().__init__(name, match, kind)

    def ensures(self, c):
        v = c.a[0]
        if isinstance(v, Adt):
            v = cow(v)
        r = P(c.r)
        if self.kind == "Z":
            A, n = arr_of(v)
            return [Clause("value", r.e == EV(A, n), lemma=True), Clause("length", z3.And(r.n <= n, z3.Implies(z3.And(n > 0, z3.Select(A, n - 1) != 0), r.n == n)), lemma=True)] + inv_clauses(r)
        if isinstance(v, Arr):
            raise Unsupported("fractions of known length")
        N, D = v.arrs
        n = to_z(v.len)
        return [Clause("value", z3.ToReal(r.e) == z3.ToReal(r.d) * QV(N, D, n), lemma=True),
                Clause("length", z3.And(r.n <= n, z3.Implies(z3.And(n > 0, z3.Select(N, n - 1) != 0), r.n == n)), lemma=True)] + inv_clauses(r)


def seqval(kind, v):
    return EV(*arr_of(v)) if kind == "Z" else QV(v.arrs[0], v.arrs[1], to_z(v.len))


class StripLoop(LoopSpec):
    """drop trailing zero coefficients"""
    name = "strip"
    vars = ("coefficients",)

    def seq(self, v):
        v = cow(v) if isinstance(v, Adt) else v
        if isinstance(v, Arr):
            raise Unsupported("known length")
        return v

    def inv(self, l):
        p, o = self.seq(l.v("coefficients")), self.seq(l.e("coefficients"))
        k = "Q" if len(p.arrs) == 2 else "Z"
        pn, on = to_z(p.len), to_z(o.len)
        cl = [Clause("length", z3.And(0 <= pn, pn <= on)), Clause("value", seqval(k, p) == seqval(k, o)),
              Clause("last-unchanged", z3.Implies(z3.And(on > 0, pn == on), z3.Select(p.arrs[0], on - 1) == z3.Select(o.arrs[0], on - 1))),
              Clause("only-zeros-dropped", z3.Implies(z3.And(on > 0, z3.Select(o.arrs[0], on - 1) != 0), pn == on))]
        return cl


def iter_of(l, name="iter"):
    """the element iterator inside the loop's iterator variable"""
    v = l.st.read(l.ref(name))
    while isinstance(v, Adt):
        its = [x for x in v.f if isinstance(x, (It, Adt))]
        if not its:
            raise Unsupported("loop iterator shape")
        v = its[0]
    if not isinstance(v, It):
        raise Unsupported("loop iterator shape")
    return v


def hdr_iter(l):
    """place of the iterator whose `next` the loop header calls"""
    fn, bb = l.fr.fn, l.rec.get("hdr")
    cand = None
    for _ in range(4):
        b = fn["blocks"][bb]
        for x in b["s"]:
            if cand is None and x[0] == "=" and x[2][0] == "ref" and not any(e[0] == "deref" for e in x[2][2][1]):
                cand = x[2][2]
        t = b["t"]
        if t[0] == "call":
            break
        if t[0] != "goto":
            break
        bb = t[1]
    if cand is None:
        raise Unsupported("loop header shape")
    return l.eng.place(l.st, l.fr, cand)


def hdr_range(l):
    r = l.st.read(hdr_iter(l))
    if not (isinstance(r, Adt) and M.last(l.eng.prog.ty(r.ty)["path"]) == "Range"):
        raise Unsupported("loop over something else than a range")
    return to_z(r.f[0]), to_z(r.f[1])


class MulOuter(LoopSpec):
    name = "rows"

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        return {}

    def inv(self, l):
        a, b = P(l.v("self")), P(l.v("rhs"))
        i, e = hdr_range(l)
        E, n = arr_of(l.v("elements"))
        return [Clause("index", z3.And(0 <= i, i <= a.n, e == a.n)), Clause("length", n == z3.If(i == 0, 0, i - 1 + b.n)),
                Clause("value", EV(E, n) == EV(a.A, i) * b.e)]


class MulInner(LoopSpec):
    name = "row"

    def on_back(self, l):
        i, j = l.z("l_index"), hdr_range(l)[0] - 1
        l.st.assume(z3.Implies(z3.And(i >= 0, j >= 0), XP(i + j) == XP(i) * XP(j)))     # X^(i+j) = X^i X^j

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        return {}

    def inv(self, l):
        a, b = P(l.v("self")), P(l.v("rhs"))
        i = l.z("l_index")
        j, e = hdr_range(l)
        E, n = arr_of(l.v("elements"))
        mx = lambda x, y: z3.If(x >= y, x, y)
        return [Clause("index", z3.And(0 <= j, j <= b.n, e == b.n, 0 <= i, i < a.n)), Clause("length", n == z3.If(i == 0, j, mx(i - 1 + b.n, i + j))),
                Clause("value", EV(E, n) == EV(a.A, i) * b.e + z3.Select(a.A, i) * XP(i) * EV(b.A, j))]


def scaled(r, a, b):
    return r[0] * (a[1] * b[1]) == a[0] * b[0] * r[1]


class MulSingle(PC):
    def ensures(self, c):
        a = c.a[0]
        if c.n[0] is None:
            a = cow(a)
            r = c.r
        else:
            r = c.n[0]
        b = cow(c.a[1])
        return [Clause("value", scaled(pv(r), pv(a), coeff(b)), lemma=True)] + inv_clauses(P(r))


class ScaleRaw(PC):
    """mul_assign_by_element_nonnormalized: the result is not normalised"""
    inline = True

    def ensures(self, c):
        o, r = P(c.a[0]), P(c.n[0])
        return [Clause("value", z3.And(r.e == o.e * to_z(c.a[1]), r.n == o.n, r.d == o.d))]


class FromCoeff(PC):
    def __init__(self, name, kind):
        def match(eng, fn):
            if M.last(fn["trait"]) != "From" or fn["method"] != "from" or fn["argc"] != 1:
                return False
            t = eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))
            return eng.is_bigint(t) or t["k"] == "adt" and t["path"] == M.RATIO
        super().__init__(name, match, kind)

    def ensures(self, c):
        r = P(c.r)
        n, d = coeff(c.a[0])
        return [Clause("value", frac_eq(r.e, r.d, n, d), lemma=True), Clause("length", r.n == z3.If(n == 0, 0, 1), lemma=True)] + inv_clauses(r) + ([Clause("coefficient", z3.Implies(n != 0, z3.Select(r.A, 0) == n))] if self.kind == "Z" else [])


class FromParts(PC):
    """From<(Vec<Element>, Divisor)>"""

    def __init__(self, name, kind):
        def match(eng, fn):
            return M.last(fn["trait"]) == "From" and fn["method"] == "from" and fn["argc"] == 1 and eng.prog.ty(fn["locals"][1])["k"] == "tuple"
        super().__init__(name, match, kind)

    def parts(self, c):
        v, d = c.a[0].f
        A, n = arr_of(v)
        return EV(A, n), (z3.IntVal(1) if isinstance(d, Adt) else to_z(d)), n

    def requires(self, c):
        e, d, n = self.parts(c)
        return [Clause("divisor-positive", d >= 1)]

    def ensures(self, c):
        r = P(c.r)
        e, d, n = self.parts(c)
        if c.assuming and r.q:
            v, df = vfrac(r.e, r.d)
            c.st.assume(df)
            c.st.assume(v * z3.ToReal(d) == z3.ToReal(e))       # the same fact over the reals
            c.st.ghost["parts"] = c.st.ghost.get("parts", ()) + ((e, d, r),)
        return [Clause("value", frac_eq(r.e, r.d, e, d), lemma=True), Clause("length", r.n <= n, lemma=True)] + inv_clauses(r)


class Monomial(PC):
    def requires(self, c):
        return [Clause("fits", to_z(c.a[1]) < (1 << 60))]

    def ensures(self, c):
        r = P(c.r)
        n, d = coeff(c.a[0])
        k = to_z(c.a[1])
        return [Clause("value", frac_eq(r.e, r.d, n * XP(k), d), lemma=True), Clause("length", r.n == z3.If(n == 0, 0, k + 1), lemma=True)] + inv_clauses(r)


class Const(PC):
    def __init__(self, name, trait, method, val, kind):
        self.val = val
        super().__init__(name, lambda eng, fn: M.last(fn["trait"]) == trait and fn["method"] == method, kind)

    def ensures(self, c):
        r = P(c.n[0]) if c.n and c.n[0] is not None else P(c.r)
        return [Clause("value", frac_eq(r.e, r.d, z3.IntVal(self.val), z3.IntVal(1)), lemma=True), Clause("length", r.n == self.val, lemma=True)] + inv_clauses(r)


class IsOne(PC):
    inline = True

    def ensures(self, c):
        p = P(c.a[0])
        r = c.r if isinstance(c.r, z3.ExprRef) else z3.BoolVal(bool(c.r))
        return [Clause("answer", r == z3.And(p.n == 1, z3.Select(p.A, 0) == 1, p.d == 1))]


class IsZero(PC):
    inline = True

    def ensures(self, c):
        p = P(c.a[0])
        r = c.r if isinstance(c.r, z3.ExprRef) else z3.BoolVal(bool(c.r))
        return [Clause("answer", r == (p.n == 0))]


class LenOf(PC):
    inline = True

    def ensures(self, c):
        return [Clause("answer", to_z(c.r) == P(c.a[0]).n)]


class Degree(PC):
    inline = True

    def ensures(self, c):
        p = P(c.a[0])
        if not c.r.f:
            return [Clause("none-only-for-zero", p.n == 0)]
        return [Clause("degree", z3.And(p.n > 0, to_z(c.r.f[0]) == p.n - 1))]


class Coefficient(PC):
    """coefficient accessors; None only beyond the degree"""
    inline = True

    def __init__(self, name, method, kind, idx, opt):
        self.idx, self.opt = idx, opt
        super().__init__(name, inh(method), kind)

    def ensures(self, c):
        p = P(c.a[0])
        k = to_z(c.a[1]) if self.idx else p.n - 1
        r = c.r
        if self.opt:
            if not r.f:
                return [Clause("none-only-beyond-degree", k >= p.n if self.idx else p.n == 0)]
            r = r.f[0]
            n, d = coeff(r)
            return [Clause("in-range", z3.And(k >= 0, k < p.n)), Clause("value", frac_eq(n, d, z3.Select(p.A, k), p.d))]
        n, d = coeff(r)
        return [Clause("value", frac_eq(n, d, p.at(k), p.d))]


class Derivative(PC):
    def ensures(self, c):
        o = P(c.a[0])
        r = P(c.n[0] if c.n[0] is not None else c.r)
        return [Clause("value", frac_eq(r.e, r.d, DV(o.A, o.n), o.d), lemma=True), Clause("length", r.n == z3.If(o.n == 0, 0, o.n - 1), lemma=True)] + inv_clauses(r)


class DerivLoop(LoopSpec):
    name = "scale-by-index"
    vars = ("self",)

    def inv(self, l):
        p, o = P(l.v("self")), P(l.e("self"))
        v = l.st.read(l.ref("iter"))
        it = iter_of(l)
        i = to_z(it.d["pos"])
        cnt = to_z(v.f[1])
        k = z3.Int("k!fr")
        S = [src for (B, src) in l.st.ghost.get("shifted", ()) if B.get_id() == o.A.get_id()]
        if not S:
            raise Unsupported("derivative: first element not removed")
        S = S[0]
        return [Clause("index", z3.And(0 <= i, i <= p.n, cnt == i, to_z(it.d["end"]) == p.n)), Clause("length", p.n == o.n), Clause("divisor", p.d == o.d),
                Clause("rest-unchanged", z3.ForAll([k], z3.Implies(k >= i, z3.Select(p.A, k) == z3.Select(o.A, k)), patterns=[z3.Select(p.A, k)])),
                Clause("last", z3.Implies(z3.And(i == p.n, p.n > 0), z3.Select(p.A, p.n - 1) == p.n * z3.Select(o.A, p.n - 1))),
                Clause("value", p.e == DV(S, i + 1) + (EV(o.A, o.n) - EV(o.A, i)))]


def rat(st, v):
    """real value of a coefficient"""
    n, d = coeff(v)
    if not isinstance(v, Adt):
        return z3.ToReal(n)
    st.assume(z3.Implies(d >= 1, VAL(n, d) * z3.ToReal(d) == z3.ToReal(n)))
    return VAL(n, d)


class Eval(PC):
    """p(x) = sum A[k] x^k / d"""

    def ensures(self, c):
        p = P(c.a[0])
        x, r = rat(c.st, c.a[1]), rat(c.st, c.r)
        return [Clause("value", r * z3.ToReal(p.d) == EVR(p.A, p.n, x), lemma=True)]


POINT_HOOKS = []


class Horner(LoopSpec):
    name = "horner"

    def point(self, l, nm):
        for h in POINT_HOOKS:
            r = h(l, l.v(nm))
            if r is not None:
                return r
        return rat(l.st, l.v(nm))

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        it, d = self.parts(l)
        seq = l.st.read(it.d["ref"]) if it.kind == "slice" else it.d["seq"]
        A, n = arr_of(seq)
        if d is None:
            raise Unsupported("eval iterator shape")
        l.rec["src"] = (A, n, d)
        return {}

    def parts(self, l):
        v = l.st.read(hdr_iter(l))
        d = None
        while isinstance(v, Adt):
            its = [x for x in v.f if isinstance(x, It) or isinstance(x, Adt) and self.has_it(x)]
            if len(its) != 1:
                raise Unsupported("eval iterator shape")
            for x in v.f:
                if x is not its[0]:
                    x = l.st.read(x) if isinstance(x, Ref) else x
                    if isinstance(x, Adt) and M.last(l.eng.prog.ty(x.ty)["path"]) == "Option":
                        x = x.f[0] if x.f else None
                    if x is not None:
                        d = z3.IntVal(1) if isinstance(x, Adt) else to_z(x)
            v = its[0]
        return v, d

    def has_it(self, v):
        return any(isinstance(x, It) or isinstance(x, Adt) and self.has_it(x) for x in v.f)

    def inv(self, l):
        A, n, d0 = l.rec["src"]
        it, d = self.parts(l)
        B, m = arr_of(l.st.read(it.d["ref"]) if it.kind == "slice" else it.d["seq"])
        x, r = self.point(l, "at"), self.point(l, "retval")
        i = to_z(it.d["end"])
        same = z3.BoolVal(True) if B.get_id() == A.get_id() else B == A
        return [Clause("range", z3.And(to_z(it.d["pos"]) == 0, 0 <= i, i <= n, m == n, same)),
                Clause("divisor", d == d0 if d is not None else i == 0),
                Clause("value", EVR(A, n, x) == EVR(A, i, x) + RP(x, i) * z3.ToReal(d0) * r, core=True)]


def optv(v):
    """contents of an Option value"""
    return v.f[0] if v.f else None


class CheckedPow(PC):
    """self^n; None only for 0^0"""

    def ensures(self, c):
        p, n = P(c.a[0]), to_z(c.a[1])
        if self.opt:
            r = optv(c.r)
            if r is None:
                return [Clause("none-only-for-zero-to-zero", z3.And(p.n == 0, n == 0))]
        else:
            r = c.r
        return [Clause("not-zero-to-zero", z3.Or(p.n != 0, n != 0)), Clause("value", pval(c.st, r) == RP(pval(c.st, c.a[0]), n), core=True), *inv_clauses(P(r))]

    def panics(self, c):
        return False if self.opt else z3.And(P(c.a[0]).n == 0, to_z(c.a[1]) == 0)

    def __init__(self, name, match, kind, opt):
        self.opt = opt
        super().__init__(name, match, kind)


class PowLoop(LoopSpec):
    name = "square-and-multiply"

    def ghost0(self, l):
        l.rec["p0"] = (pval(l.st, l.v("self")), l.z("exponent"))
        l.rec["b"] = None
        return {}

    def vals(self, l):
        r = optv(l.vt("retval", "Option"))
        return pval(l.st, l.vt("base", "Polynomial")), l.z("exponent"), (z3.RealVal(1) if r is None else pval(l.st, r))

    def lemmas(self, l):
        b, e, r = self.vals(l)
        l.rec["b"] = (b, e)
        l.st.assume(z3.Implies(e >= 1, z3.And(RP(b, e) == b * RP(b, e - 1), RP(b, z3.IntVal(1)) == b)))

    def on_back(self, l):
        b0, e0 = l.rec["b"]
        b, e, r = self.vals(l)
        # x^0 = 1, x^(k+1) = x*x^k, (x*x)^k = x^(2k)
        l.st.assume(z3.Implies(z3.And(e >= 0, b == b0 * b0), RP(b, e) == RP(b0, 2 * e)))
        l.st.assume(z3.Implies(e >= 0, RP(b0, 2 * e + 1) == b0 * RP(b0, 2 * e)))

    def inv(self, l):
        p0, n0 = l.rec["p0"]
        b, e, r = self.vals(l)
        rv = optv(l.vt("retval", "Option"))
        cl = [Clause("exponent", e >= 1), Clause("value", RP(b, e) * r == RP(p0, n0), core=True)]
        cl += [Clause("base-" + x.label, x.goal) for x in inv_clauses(P(l.vt("base", "Polynomial")))]
        if rv is not None:
            cl += [Clause("result-" + x.label, x.goal) for x in inv_clauses(P(rv))]
        return cl


class OneIfNonzero(PC):
    def ensures(self, c):
        p = P(c.a[0])
        m = c.fn["method"]
        if m == "to_one_if_nonzero":
            if not c.r.f:
                return [Clause("none-only-for-zero", p.n == 0)]
            r = c.r.f[0]
        else:
            ok = c.eng.prog.ty(c.r.ty)["variants"][c.r.var]["name"] == "Ok"
            r = c.n[0] if m == "set_one_if_nonzero" else c.r.f[0]
            if not ok:
                q = P(r)
                return [Clause("err-only-for-zero", p.n == 0), Clause("unchanged", z3.And(q.n == 0, q.d == p.d))]
        q = P(r)
        return [Clause("nonzero", p.n > 0), Clause("one", z3.And(q.n == 1, z3.Select(q.A, 0) == 1, q.d == 1), lemma=True), Clause("value", q.e == 1, hyps=[z3.Implies(q.n == 1, q.e == q.e1)], lemma=True)] + inv_clauses(q)


class CheckedOp(PC):
    """checked_add / checked_sub / checked_mul never fail"""

    def ensures(self, c):
        if not c.r.f:
            return [Clause("never-none", z3.BoolVal(False))]
        r = c.r.f[0]
        a, b = pv(c.a[0]), pv(c.a[1])
        op = self.op
        g = scaled(pv(r), a, b) if op == "mul" else sum_is(pv(r), a, b, 1 if op == "add" else -1)
        return [Clause("value", g, lemma=True)] + inv_clauses(P(r))

    def __init__(self, name, op, kind):
        self.op = op
        super().__init__(name, lambda eng, fn: fn["method"] == "checked_" + op and M.last(fn["trait"]) == "Checked" + op.capitalize(), kind)


class PadLoop(LoopSpec):
    name = "pad"
    vars = ("lhs",)

    def inv(self, l):
        p, o = P(l.v("lhs")), P(l.e("lhs"))
        r = P(l.v("rhs"))
        return [Clause("value", p.e == o.e), Clause("length", z3.And(p.n >= o.n, z3.Or(p.n == o.n, p.n <= r.n))), Clause("divisor", p.d == o.d)]


class AddLoop(LoopSpec):
    name = "combine"
    vars = ("lhs",)

    def inv(self, l):
        p, o = P(l.v("lhs")), P(l.e("lhs"))
        r = P(l.v("rhs"))
        it = iter_of(l)
        i = to_z(it.d["pos"])
        cnt = to_z(l.st.read(l.ref("iter")).f[1])
        lm, rm = l.z("lhs_multiplier"), l.z("rhs_multiplier")
        sg = 1 if l.eng.prog.fns[l.v("add_sub_assign").inst]["method"] == "add_assign" else -1
        k = z3.Int("k!fr")
        ri = z3.If(i < r.n, i, r.n)
        return [Clause("index", z3.And(0 <= i, i <= p.n, cnt == i, to_z(it.d["end"]) == p.n)), Clause("length", z3.And(p.n == o.n, p.n >= r.n)), Clause("divisor", p.d == o.d),
                Clause("rest-unchanged", z3.ForAll([k], z3.Implies(k >= i, z3.Select(p.A, k) == z3.Select(o.A, k)), patterns=[z3.Select(p.A, k)])),
                Clause("value", z3.And(z3.Implies(i <= r.n, p.e == lm * EV(o.A, i) + (EV(o.A, o.n) - EV(o.A, i)) + sg * rm * EV(r.A, i)),
                                       z3.Implies(i >= r.n, p.e == lm * EV(o.A, i) + (EV(o.A, o.n) - EV(o.A, i)) + sg * rm * EV(r.A, r.n))))]


class ScaleLoop(LoopSpec):
    name = "scale"
    vars = ("lhs",)

    def inv(self, l):
        p, o = P(l.v("lhs")), P(l.e("lhs"))
        it = iter_of(l)
        i = to_z(it.d["pos"])
        lm = l.z("lhs_multiplier")
        k = z3.Int("k!fr")
        return [Clause("index", z3.And(0 <= i, i <= p.n, to_z(it.d["end"]) == p.n)), Clause("length", p.n == o.n), Clause("divisor", p.d == o.d),
                Clause("rest-unchanged", z3.ForAll([k], z3.Implies(k >= i, z3.Select(p.A, k) == z3.Select(o.A, k)), patterns=[z3.Select(p.A, k)])),
                Clause("value", p.e == lm * EV(o.A, i) + (EV(o.A, o.n) - EV(o.A, i)))]


def contracts():
    C = []
    for k in "ZQ":
        C += [Normalize(f"poly::normalize/{k}", inh("normalize"), k), Negate(f"poly::negate/{k}", inh("negate"), k),
              AddSubAssign(f"poly::add_sub_assign/{k}", inh("add_sub_assign"), k), AddSubSingle(f"poly::add_sub_assign_single/{k}", inh("add_sub_assign_single"), k),
              Neg(f"poly::neg/{k}", lambda eng, fn: fn["method"] == "neg", k)]
        for op in ("add", "sub"):
            for rhs in ("poly", "coeff"):
                C += [BinOp(f"poly::{op}/{rhs}/{k}", op.capitalize(), op, rhs, k), BinOp(f"poly::{op}_assign/{rhs}/{k}", op.capitalize() + "Assign", op + "_assign", rhs, k)]
        C += [FromSeq(f"poly::from_seq/{k}", k), FromCoeff(f"poly::from_coefficient/{k}", k), FromParts(f"poly::from_parts/{k}", k), Monomial(f"poly::make_monomial/{k}", inh("make_monomial"), k),
              MulSingle(f"poly::mul_single/{k}", inh("mul_single"), k), MulSingle(f"poly::mul_assign_single/{k}", inh("mul_assign_single"), k),
              ScaleRaw(f"poly::mul_assign_by_element_nonnormalized/{k}", inh("mul_assign_by_element_nonnormalized"), k),
              Const(f"poly::zero/{k}", "Zero", "zero", 0, k), Const(f"poly::set_zero/{k}", "Zero", "set_zero", 0, k), Const(f"poly::one/{k}", "One", "one", 1, k),
              Const(f"poly::set_one/{k}", "One", "set_one", 1, k), Const(f"poly::default/{k}", "Default", "default", 0, k),
              IsOne(f"poly::is_one/{k}", lambda eng, fn: fn["method"] == "is_one", k), IsZero(f"poly::is_zero/{k}", lambda eng, fn: fn["method"] in ("is_zero", "is_empty"), k),
              LenOf(f"poly::len/{k}", inh("len"), k), Degree(f"poly::degree/{k}", inh("degree"), k),
              Coefficient(f"poly::nonzero_coefficient/{k}", "nonzero_coefficient", k, True, True), Coefficient(f"poly::coefficient/{k}", "coefficient", k, True, False),
              Coefficient(f"poly::nonzero_highest_power_coefficient/{k}", "nonzero_highest_power_coefficient", k, False, True),
              Coefficient(f"poly::highest_power_coefficient/{k}", "highest_power_coefficient", k, False, False)]
        for m in ("derivative", "into_derivative", "convert_to_derivative"):
            C.append(Derivative(f"poly::{m}/{k}", inh(m), k))
        C += [CheckedOp(f"poly::checked_{op}/{k}", op, k) for op in ("add", "sub", "mul")]
        C += [OneIfNonzero(f"poly::{m}/{k}", inh(m), k) for m in ("set_one_if_nonzero", "to_one_if_nonzero", "into_one_if_nonzero")]
        C += [CheckedPow(f"poly::checked_pow/{k}", inh("checked_pow"), k, True), CheckedPow(f"poly::pow/{k}", lambda eng, fn: fn["method"] == "pow" and M.last(fn["trait"]) == "Pow", k, False)]
        for m in ("eval", "into_eval"):
            C.append(Eval(f"poly::{m}/{k}", inh(m), k))
        for rhs in ("poly", "coeff"):
            C += [BinOp(f"poly::mul/{rhs}/{k}", "Mul", "mul", rhs, k), BinOp(f"poly::mul_assign/{rhs}/{k}", "MulAssign", "mul_assign", rhs, k)]
    C.append(Reduce("poly::reduce_divisor"))
    return C


def loopspecs():
    f = lambda n: (lambda fn: fn["path"].startswith("algebraics::polynomial") and fn["method"] == n)
    cowfrom = lambda fn: fn["path"].startswith("<algebraics::polynomial::Polynomial<T> as std::convert::From<std::borrow::Cow<")
    mulfn = lambda fn: "polynomial::mul::<impl std::ops::Mul for &'a" in fn["path"]
    return {f("checked_pow"): {0: PowLoop()}, f("eval_helper"): {0: Horner()}, mulfn: {0: MulOuter(), 1: MulInner()}, f("convert_to_derivative"): {0: DerivLoop()}, cowfrom: {0: StripLoop(), 1: StripLoop()}, f("normalize"): {0: NormalizeLoop()}, f("add_sub_assign"): {0: PadLoop(), 1: AddLoop()}, f("add_sub_assign_single"): {0: ScaleLoop()}}


def install(m):
    iters.install()
    M.VALS = True
    m.fresh_hooks.insert(0, fresh_poly)
    m.inv_hooks.append(poly_inv)
    m.lemma_hooks.append(iters.lemmas)
