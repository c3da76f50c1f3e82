"""Contracts on RealAlgebraicNumber.

A polynomial with coefficients A[0..n) is named PE(A, n) (equal names: equal polynomials); PEV(p, x) is its value at x.
UQ(p, x, y): exactly one root of p in [x, y]; RT(p, x, y): that root.  OKM(p): p is a minimal polynomial (irreducible over the
integers, primitive, positive leading coefficient).  A number stands for RT(minimal polynomial, bounds of its interval); its data
invariant is OKM and UQ.  SC(s, x): sign variations of the sequence s of polynomials at x, with leading zeros skipped and the
first sign counted; STU(s): s is a Sturm sequence of its first member."""
import z3
import models as M
import iters
from values import *
from engine import Contract, Clause, VEC
from loops import LoopSpec
from iters import EVR, VAL, AR, arr_of, cval
from models import last, GCD
from c_interval import DV, DC, R, is_d, Bound, RatioRange
import c_poly
from c_poly import P, poly_kind

I, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AA_, LL_ = z3.ArraySort(I, AR), AR
PE = z3.Function("PE", AR, I, I)
PN = z3.Function("PN", I, I)
PC0 = z3.Function("PC0", I, I)
PC1 = z3.Function("PC1", I, I)
PEV = z3.Function("PEV", I, RS, RS)
OKM = z3.Function("OKM", I, BS)
UQ = z3.Function("UQ", I, RS, RS, BS)
RT = z3.Function("RT", I, RS, RS, RS)
STU = z3.Function("STU", AA_, LL_, I, BS)
SC = z3.Function("SC", AA_, LL_, I, RS, I)       # sign variations of the first i members
LS = z3.Function("LS", AA_, LL_, I, RS, I)       # last nonzero sign of the first i members (0: none)
MAXK = 1 << 50
AX_P = "PE names polynomials (equal coefficients, equal name), PN its number of coefficients, PC0 / PC1 its two lowest ones, PEV its value at a real; VAL(n,d) = n/d"
AX_U = ("RT(p,x,y) is the root of p in [x,y] when UQ(p,x,y) says there is exactly one: it is a root, lies in [x,y], equals every root in [x,y], and stays "
        "the unique root of every subinterval that contains it; for a linear p it is -c0/c1")
AX_M = "a minimal polynomial has degree >= 1; of degree 1: c1 >= 1 and gcd(c0,c1) = 1 (and conversely); with a rational root: degree 1"
AX_S = ("Sturm's theorem: for a Sturm sequence s of a square-free p (a minimal polynomial) and x <= y, SC(s,x) - SC(s,y) is the number of roots of p in (x,y]")


def ax(eng, *xs):
    eng.used_axioms.update(xs)


def reg(st, key, item):
    st.ghost[key] = st.ghost.get(key, ()) + (item,)


# ---------------------------------------------------------------- points: bounds of intervals and other rationals
def sgn_facts(st, b, n):
    st.assume(z3.And((b > 0) == (n > 0), (b < 0) == (n < 0), (b == 0) == (n == 0)))


def bnd(st, x, k):
    """the real x/2^k"""
    p, x = to_z(st.pow2(k)), z3.simplify(to_z(x))
    k = z3.simplify(to_z(k))
    b = VAL(x, p)
    olds = st.ghost.get("bnds", ())
    for (x2, k2, b2) in olds:
        if b2.eq(b):
            return b
    sgn_facts(st, b, x)
    c = cval(k)
    if c == 0:
        st.assume(b == z3.ToReal(x))
    elif c is None:
        st.assume(z3.Implies(k == 0, b == z3.ToReal(x)))

    def rel(g, l, r, b2):
        g = z3.simplify(g)
        if z3.is_false(g):
            return
        f = z3.And((b <= b2) == (l <= r), (b >= b2) == (l >= r))
        st.assume(f if z3.is_true(g) else z3.Implies(g, f))
    for (x2, k2, b2) in olds:
        g = z3.simplify(z3.And(k == k2, x == -x2))
        if not z3.is_false(g):
            st.assume(z3.Implies(g, b == -b2))
        rel(k == k2, x, x2, b2)
        rel(k == k2 + 1, x, 2 * x2, b2)
        rel(k2 == k + 1, 2 * x, x2, b2)
    for (n, d, v) in st.ghost.get("rats", ()):
        if cval(to_z(d)) == 1:
            rat_int(st, b, x, p, n)
        elif c == 0:
            int_rat(st, b, x, n, d, v)
    reg(st, "bnds", (x, k, b))
    point(st, b)
    return b


def rat_int(st, b, x, p, q):
    """comparison of x/p with an integer q"""
    st.assume((z3.ToReal(to_z(q)) <= b) == (to_z(q) * p <= x))
    st.assume((b < z3.ToReal(to_z(q)) + 1) == (x < to_z(q) * p + p))


def int_rat(st, b, x, n, d, v):
    """comparison of the integer x with n/d"""
    st.assume(z3.Implies(d >= 1, z3.And((b <= v) == (x * d <= n), (b >= v) == (x * d >= n))))


def rat_cmp(n, d, b, m):
    """comparison of b = n/d with the integer m"""
    return z3.And((z3.ToReal(m) <= b) == (m * d <= n), (z3.ToReal(m) == b) == (m * d == n), (b < z3.ToReal(m) + 1) == (n < m * d + d), (b > z3.ToReal(m) - 1) == (n > m * d - d))


def rat(st, n, d):
    """the real n/d (d >= 1)"""
    n, d = z3.simplify(to_z(n)), z3.simplify(to_z(d))
    b = VAL(n, d)
    for (n2, d2, b2) in st.ghost.get("rats", ()):
        if b2.eq(b):
            return b
    sgn_facts(st, b, n)
    st.assume(z3.Implies(d >= 1, b * z3.ToReal(d) == z3.ToReal(n)))
    if cval(d) == 1:
        st.assume(b == z3.ToReal(n))
    else:
        st.assume(z3.Implies(d == 1, b == z3.ToReal(n)))
    for (n2, d2, b2) in st.ghost.get("rats", ()):
        if cval(d) == 1:
            if cval(d2) == 1:
                st.assume(z3.And((b <= b2) == (n <= n2), (b >= b2) == (n >= n2)))
            else:
                st.assume(z3.Implies(d2 >= 1, rat_cmp(n2, d2, b2, n)))
        elif cval(d2) == 1:
            st.assume(z3.Implies(d >= 1, rat_cmp(n, d, b, n2)))
    reg(st, "rats", (n, d, b))
    for (x, k, b2) in st.ghost.get("bnds", ()):
        if cval(d) == 1:
            rat_int(st, b2, x, to_z(st.pow2(k)), n)
        elif cval(k) == 0:
            int_rat(st, b2, x, n, d, b)
    point(st, b)
    return b


def point(st, b, rational=True):
    """a real that may be a root of the polynomials around"""
    for (b2, _) in st.ghost.get("pts", ()):
        if b2.eq(b):
            return
    reg(st, "pts", (b, rational))
    for nm in st.ghost.get("nums", ()):
        nm.meet(st, b, rational)


# ---------------------------------------------------------------- polynomials and numbers
def pol(eng, st, v):
    """(view, name) of a polynomial over the integers"""
    p = P(v)
    if p.q:
        raise Unsupported("rational polynomial")
    return p, name(eng, st, p.A, p.n)


def name(eng, st, A, n):
    ax(eng, AX_P)
    h = PE(A, n)
    olds = st.ghost.get("polys", ())
    for x in olds:
        if x.eq(h):
            return h
    for x in olds:
        st.assume(z3.Implies(z3.And(PN(h) == 2, PN(x) == 2, PC0(h) == PC0(x), PC1(h) == PC1(x)), h == x))
    reg(st, "polys", h)
    st.assume(z3.Implies(z3.Or(n == 0, z3.Select(A, n - 1) != 0), z3.And(PN(h) == n, z3.Implies(n > 0, PC0(h) == z3.Select(A, 0)), z3.Implies(n > 1, PC1(h) == z3.Select(A, 1)))))
    st.assume(PEV(h, z3.RealVal(0)) == z3.If(PN(h) >= 1, z3.ToReal(PC0(h)), z3.RealVal(0)))
    st.assume(z3.Implies(OKM(h), PN(h) >= 2))
    st.assume(z3.Implies(PN(h) == 2, OKM(h) == z3.And(PC1(h) >= 1, GCD(PC0(h), PC1(h)) == 1)))
    st.assume(GCD(PC0(h), PC1(h)) == GCD(-PC0(h), PC1(h)))
    st.assume(z3.Implies(PC1(h) == 1, GCD(PC0(h), PC1(h)) == 1))
    st.assume(z3.Implies(z3.And(PC0(h) == 0, GCD(PC0(h), PC1(h)) == 1, PC1(h) >= 0), PC1(h) == 1))
    st.assume(z3.Implies(z3.And(z3.Or(PC0(h) == PC1(h), PC0(h) == -PC1(h)), GCD(PC0(h), PC1(h)) == 1, PC1(h) >= 0), PC1(h) == 1))
    ax(eng, AX_M)
    return h


class Num:
    """an isolated root: polynomial name, bounds, value"""

    def __init__(self, eng, st, h, lo, hi, k):
        ax(eng, AX_U)
        self.h, self.lo, self.hi, self.k = h, to_z(lo), to_z(hi), to_z(k)
        self.x, self.y = bnd(st, lo, k), bnd(st, hi, k)
        self.setup(eng, st)

    def setup(self, eng, st):
        h, x, y = self.h, self.x, self.y
        self.U = UQ(h, x, y)
        self.V = RT(h, x, y)
        for o in st.ghost.get("nums", ()):
            if o.V.eq(self.V):
                return
        q = rat(st, -PC0(h), PC1(h))
        st.assume(z3.Implies(self.U, z3.And(x <= self.V, self.V <= y, PEV(h, self.V) == 0)))
        st.assume(z3.Implies(z3.And(PN(h) == 2, PC1(h) >= 1), z3.And(self.U == z3.And(x <= q, q <= y), z3.Implies(self.U, self.V == q))))
        for o in st.ghost.get("nums", ()):
            for a, b in ((self, o), (o, self)):
                st.assume(z3.Implies(z3.And(a.h == b.h, a.U, a.x <= b.x, b.x <= a.V, a.V <= b.y, b.y <= a.y), z3.And(b.U, b.V == a.V)))
        reg(st, "nums", self)
        for (g, g2) in st.ghost.get("mirrors", ()):
            for o in st.ghost["nums"]:
                mirror(st, g, g2, o, self)
                mirror(st, g, g2, self, o)
        for (b, r) in st.ghost.get("pts", ()):
            self.meet(st, b, r)
        for s_ in st.ghost.get("seqs", ()):
            s_.meet(st, self)

    def meet(self, st, b, rational):
        st.assume(z3.Implies(z3.And(self.U, PEV(self.h, b) == 0, self.x <= b, b <= self.y), self.V == b))
        if rational:
            st.assume(z3.Implies(z3.And(OKM(self.h), PEV(self.h, b) == 0), PN(self.h) == 2))
            st.assume(z3.Implies(z3.And(OKM(self.h), self.U, self.V == b), PN(self.h) == 2))

    @property
    def valid(self):
        return z3.And(OKM(self.h), self.U)


AX_N = "p mirrored (every second coefficient negated, the leading one kept) has the roots of p negated, and is minimal when p is"


def mirror(st, g, g2, a, b):
    st.assume(z3.Implies(z3.And(a.h == g, b.h == g2, b.x == -a.y, b.y == -a.x), z3.And(a.U == b.U, b.V == -a.V)))


def relate_mirror(c, st, it, J, n, paths, src, seq):
    if len(seq.arrs) != 1 or seq.arrs[0].sort() != AR:
        return
    for (arrs, idx, s_) in src:
        if len(arrs) != 1 or cval(to_z(idx) - J) != 0:
            continue
        A, B = arrs[0], seq.arrs[0]
        a = z3.Select(A, J)
        if arrs[0].sort() == AR and iters.valid(paths, lambda e: to_z(e) == z3.If((n - 1 - J) % 2 == 0, a, -a)):
            ax(c.eng, AX_N)
            g, g2 = name(c.eng, st, A, n), name(c.eng, st, B, n)
            st.assume(z3.Implies(n >= 1, z3.Select(B, n - 1) == z3.Select(A, n - 1)))
            st.assume(z3.Implies(n == 2, z3.Select(B, 0) == -z3.Select(A, 0)))
            st.assume(OKM(g) == OKM(g2))
            reg(st, "mirrors", (g, g2))
            for x in st.ghost.get("nums", ()):
                for y in st.ghost.get("nums", ()):
                    mirror(st, g, g2, x, y)
            return


def fields(eng, v):
    t = eng.prog.ty(v.ty)
    return {f[0]: x for f, x in zip(t["variants"][0]["fields"], v.f)}


def field(eng, v, nm):
    f = fields(eng, v)
    if nm not in f:
        raise Unsupported("representation changed: " + nm)
    return f[nm]


def num(eng, st, v):
    """view of a RealAlgebraicNumber (snapshot)"""
    t = last(eng.prog.ty(v.ty)["path"])
    if t == "RealAlgebraicNumber":
        v = field(eng, v, "data")
    elif t != "RealAlgebraicNumberData":
        raise Unsupported("not a number: " + t)
    p, h = pol(eng, st, field(eng, v, "minimal_polynomial"))
    d = DV(eng, field(eng, v, "interval"))
    n = Num(eng, st, h, d.lo, d.hi, d.n)
    n.P, n.D = p, d
    return n


def valid_clauses(n, pre="", core=True):
    return [Clause(pre + "minimal-polynomial", OKM(n.h), lemma=True, core=core), Clause(pre + "interval-ordered", n.lo <= n.hi, lemma=True), Clause(pre + "isolates-one-root", n.U, lemma=True, core=core)]


def is_num(t):
    return t["k"] == "adt" and last(t["path"]) == "RealAlgebraicNumber"


# ---------------------------------------------------------------- sign variations
class Seq:
    """sequence of polynomials"""

    def __init__(self, eng, st, v):
        if isinstance(v, Adt):
            v = v.f[0]          # Cow
        v = eng.as_sseq(None, v) if isinstance(v, Arr) else v
        if not isinstance(v, SSeq) or len(v.arrs) != 2:
            raise Unsupported("sequence of polynomials")
        self.AA, self.LL, self.m = v.arrs[0], v.arrs[1], to_z(v.len)
        self.eng = eng
        A0, n0 = z3.Select(self.AA, 0), z3.Select(self.LL, 0)
        self.h = name(eng, st, A0, n0)
        self.ok = STU(self.AA, self.LL, self.m)

    def same(self, o):
        return self.AA.eq(o.AA) and self.LL.eq(o.LL) and self.m.eq(o.m)

    def at(self, st, x):
        """SC at x, with Sturm's theorem against the points and numbers around"""
        ax(self.eng, AX_S)
        s = Scp(self, x)
        olds = st.ghost.get("seqs", ())
        if any(o.seq.same(self) and o.x.eq(x) for o in olds):
            return s.c
        st.assume(z3.And(s.c >= 0, s.c <= self.m))
        for o in olds:
            if o.seq.same(self):
                for a, b in ((o, s), (s, o)):
                    st.assume(z3.Implies(z3.And(self.ok, a.x <= b.x), a.c >= b.c))
                    for n in st.ghost.get("nums", ()):
                        sturm(st, self, a, b, n)
                    for t in st.ghost.get("targets", ()):
                        self.target(st, a, b, t)
        reg(st, "seqs", s)
        return s.c

    def target(self, st, a, b, t):
        k = a.c - b.c + z3.If(PEV(self.h, a.x) == 0, 1, 0)
        st.assume(z3.Implies(z3.And(self.ok, a.x <= b.x, a.x <= t, t <= b.x, PEV(self.h, t) == 0), k >= 1))
        u, v = UQ(self.h, a.x, b.x), RT(self.h, a.x, b.x)
        st.assume(z3.Implies(z3.And(self.ok, a.x <= b.x, k == 1), u))
        st.assume(z3.Implies(z3.And(u, a.x <= t, t <= b.x, PEV(self.h, t) == 0), v == t))


class Scp:
    def __init__(self, seq, x):
        self.seq, self.x = seq, x
        self.c = SC(seq.AA, seq.LL, seq.m, x)

    def meet(self, st, n):
        for o in st.ghost.get("seqs", ()):
            if o.seq.same(self.seq) and not o.x.eq(self.x):
                sturm(st, self.seq, self, o, n)


def sturm(st, s, a, b, n):
    st.assume(z3.Implies(z3.And(s.ok, s.h == n.h, OKM(n.h), n.U, n.x <= a.x, a.x <= b.x, b.x <= n.y), a.c - b.c == z3.If(z3.And(a.x < n.V, n.V <= b.x), 1, 0)))


def sg(x):
    return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))


def at_point(eng, st, v):
    """real number of a ValueOrInfinity"""
    t = eng.prog.ty(v.ty)
    vn = t["variants"][v.var]["name"]
    if vn == "Value":
        return rat(st, v.f[0].f[0], v.f[0].f[1])
    if vn == "Zero":
        point(st, z3.RealVal(0))
        return z3.RealVal(0)
    return None


class AC(Contract):
    crates = ("algebraics",)
    opaque = True

    def __init__(self, name, match):
        self.name, self.match = name, match

    def matches(self, eng, fn):
        return fn["crate"] in self.crates and "blocks" in fn and self.match(eng, fn)


def path_is(x):
    return lambda eng, fn: fn["path"].endswith(x)


class EvalQ(AC):
    """value of an integer polynomial at a fraction"""

    def matches(self, eng, fn):
        if not (fn["method"] == "eval_generic" and fn["path"].startswith("algebraics::polynomial") and fn["argc"] == 3 and "blocks" in fn):
            return False
        t = [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["locals"][1:4]]
        return poly_kind(eng, t[0]) == "Z" and t[1]["k"] == "adt" and t[1].get("path") == M.RATIO

    def requires(self, c):
        return [Clause("starts-at-zero", cmpop("eq", c.a[2].f[0], 0))]

    def ensures(self, c):
        p, h = pol(c.eng, c.st, c.a[0])
        x, r = rat(c.st, *c.a[1].f), rat(c.st, *c.r.f)
        if not c.assuming:
            c.st.assume(PEV(h, x) == EVR(p.A, p.n, x))
        return [Clause("value", r == PEV(h, x), core=True)]


class SignChangesAt(AC):
    def seq(self, c):
        return Seq(c.eng, c.st, c.a[0])

    def requires(self, c):
        x = at_point(c.eng, c.st, c.a[1])
        return [Clause("finite", x is not None)]

    def ensures(self, c):
        q = self.seq(c)
        x = at_point(c.eng, c.st, c.a[1])
        f = fields(c.eng, c.r)
        n, b = to_z(field(c.eng, c.r, "sign_change_count")), to_z(field(c.eng, c.r, "is_root"))
        cnt = q.at(c.st, x) if c.assuming else SC(q.AA, q.LL, q.m, x)
        return [Clause("variations", n == cnt), Clause("is-root", b == z3.And(q.m >= 1, PEV(q.h, x) == 0))]


class SignLoop(LoopSpec):
    name = "sign-variations"

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        it = l.st.read(c_poly.hdr_iter(l))
        if not isinstance(it, It) or it.kind != "slice":
            raise Unsupported("iterator shape")
        l.rec["seq"] = Seq(l.eng, l.st, l.st.read(it.d["ref"]))
        l.rec["x"] = at_point(l.eng, l.st, l.v("at"))
        return {}

    def inv(self, l):
        it = l.st.read(c_poly.hdr_iter(l))
        q, x = l.rec["seq"], l.rec["x"]
        i = to_z(it.d["pos"])
        v = l.v("last_sign")
        lsg = 0 if not v.f else (-1 if l.eng.prog.ty(v.f[0].ty)["variants"][v.f[0].var]["name"] == "Negative" else 1)
        ls, sc = LS(q.AA, q.LL, i, x), SC(q.AA, q.LL, i, x)
        st = l.st
        st.assume(z3.Implies(i == 0, z3.And(ls == 0, sc == 0)))
        p0 = sg(PEV(q.h, x))
        return [Clause("index", z3.And(i >= 0, i <= q.m, to_z(it.d["end"]) == q.m)), Clause("last-sign", ls == lsg), Clause("variations", z3.And(l.z("sign_change_count") == sc, sc >= 0, sc <= i)),
                Clause("is-root", to_z(l.v("is_root")) == z3.And(i >= 1, p0 == 0)), Clause("sign-seen", z3.Implies(z3.And(i >= 1, p0 != 0), ls != 0))]

    def lemmas(self, l):
        it = l.st.read(c_poly.hdr_iter(l))
        q, x = l.rec["seq"], l.rec["x"]
        i = to_z(it.d["pos"])
        h = name(l.eng, l.st, z3.Select(q.AA, i), z3.Select(q.LL, i))
        e = sg(PEV(h, x))
        ls, sc = (lambda j: LS(q.AA, q.LL, j, x)), (lambda j: SC(q.AA, q.LL, j, x))
        l.st.assume(ls(i + 1) == z3.If(e != 0, e, ls(i)))
        l.st.assume(sc(i + 1) == sc(i) + z3.If(z3.And(e != 0, e != ls(i)), 1, 0))
        l.st.assume(z3.Implies(i == 0, h == q.h))


# ---------------------------------------------------------------- interval bounds as reals
class BoundQ(Bound):
    def ensures(self, c):
        d = self.self_(c)
        b = bnd(c.st, getattr(d, self.which), d.n)
        r = rat(c.st, *c.r.f)
        x, p = to_z(getattr(d, self.which)), to_z(c.st.pow2(d.n))
        n, q = to_z(c.r.f[0]), to_z(c.r.f[1])
        if not c.assuming:
            c.st.assume(z3.Implies(z3.And(n * p == x * q, q >= 1, p >= 1), VAL(n, q) == VAL(x, p)))
        return super().ensures(c) + [Clause("real-value", r == b)]


class RatioRangeQ(RatioRange):
    def ensures(self, c):
        d = self.self_(c)
        out = []
        for i, w in ((0, "lo"), (1, "hi")):
            b = bnd(c.st, getattr(d, w), d.n)
            n, q = (to_z(x) for x in c.r.f[i].f)
            r = rat(c.st, n, q)
            x, p = to_z(getattr(d, w)), to_z(c.st.pow2(d.n))
            if not c.assuming:
                c.st.assume(z3.Implies(z3.And(n * p == x * q, q >= 1, p >= 1), VAL(n, q) == VAL(x, p)))
            out.append(Clause("real-value-" + w, r == b))
        return super().ensures(c) + out


# ---------------------------------------------------------------- narrowing the interval
class SturmSeq(AC):
    """assumed: the sequence is a Sturm sequence of the polynomial"""
    assumed = True

    def matches(self, eng, fn):
        return fn["crate"] == "algebraics" and fn["method"] in ("to_primitive_sturm_sequence", "into_primitive_sturm_sequence") and poly_kind(eng, eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))) == "Z"

    def ensures(self, c):
        p, h = pol(c.eng, c.st, c.a[0])
        q = Seq(c.eng, c.st, c.r)
        return [Clause("sturm-sequence", z3.Implies(OKM(h), z3.And(q.ok, q.m >= 1, z3.Select(q.AA, 0) == p.A, z3.Select(q.LL, 0) == p.n, q.h == h)))]


OKC = z3.Function("OKC", I, AA_, LL_, I, I, RS, BS)     # an unresolved cache entry is right for this sequence and bound


class Shr:
    """view of an IntervalShrinker snapshot"""

    def __init__(self, eng, st, v):
        self.eng, self.v = eng, v
        f = lambda n, w=v: field(eng, w, n)
        self.P, self.h = pol(eng, st, f("minimal_polynomial"))
        isc_ = f("interval")
        d = DV(eng, field(eng, isc_, "interval"))
        self.D = d
        self.n = Num(eng, st, self.h, d.lo, d.hi, d.n)
        self.q = Seq(eng, st, f("primitive_sturm_sequence"))
        self.cache = []
        for nm, b in (("lower_bound_sign_changes", self.n.x), ("upper_bound_sign_changes", self.n.y)):
            o = field(eng, isc_, nm)
            if isinstance(o, Opq):
                self.cache.append((nm.split("_")[0], OKC(o.what, self.q.AA, self.q.LL, self.q.m, self.h, b)))
            elif o.f:
                sc = self.q.at(st, b)
                self.cache.append((nm.split("_")[0], z3.And(to_z(field(eng, o.f[0], "sign_change_count")) == sc, to_z(field(eng, o.f[0], "is_root")) == (PEV(self.h, b) == 0))))
        self.x, self.y, self.V, self.U = self.n.x, self.n.y, self.n.V, self.n.U

    def clauses(self):
        n = self.n
        return valid_clauses(n) + [Clause("sturm-sequence", z3.And(self.q.ok, self.q.m >= 1, self.q.h == self.h))] + [Clause(f"cached-{w}", g, core=True) for (w, g) in self.cache]

    @property
    def inv(self):
        return z3.And(*[c.goal for c in self.clauses()])


class Shrink(AC):
    split, opaque = 8, False

    def ensures(self, c):
        o, n = Shr(c.eng, c.st, c.a[0]), Shr(c.eng, c.st, c.n[0])
        ex = c.eng.prog.ty(c.r.ty)["variants"][c.r.var]["name"] == "Exact"
        cl = [Clause("same-polynomial", n.h == o.h, lemma=True), Clause("narrower", z3.And(o.x <= n.x, n.y <= o.y), lemma=True, core=True), Clause("precision", z3.And(n.n.k >= o.n.k, n.n.k <= o.n.k + 1))]
        cl += n.clauses() + [Clause("same-value", n.V == o.V, core=True)]
        if ex:
            cl.append(Clause("exact", n.n.lo == n.n.hi))
        return cl


# ---------------------------------------------------------------- conversions and predicates
class FromSeqN(c_poly.FromSeq):
    """identities of EV are identities of polynomials: the name is the same"""

    def ensures(self, c):
        cl = super().ensures(c)
        if c.assuming and self.kind == "Z":
            v = c.a[0]
            A, n = arr_of(c_poly.cow(v) if isinstance(v, Adt) else v)
            cl.append(Clause("same-polynomial", name(c.eng, c.st, P(c.r).A, P(c.r).n) == name(c.eng, c.st, A, n)))
        return cl


class FromPartsN(c_poly.FromParts):
    def ensures(self, c):
        cl = super().ensures(c)
        if c.assuming and self.kind == "Z":
            A, n = arr_of(c.a[0].f[0])
            cl.append(Clause("same-polynomial", name(c.eng, c.st, P(c.r).A, P(c.r).n) == name(c.eng, c.st, A, n)))
        return cl


class PolyEq(AC):
    def matches(self, eng, fn):
        return fn["method"] == "eq" and last(fn["trait"]) == "PartialEq" and "blocks" in fn and poly_kind(eng, eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))) == "Z" and fn["argc"] == 2

    def ensures(self, c):
        (a, g), (b, h) = pol(c.eng, c.st, c.a[0]), pol(c.eng, c.st, c.a[1])
        if not c.assuming:
            c.st.assume(z3.Implies(z3.And(a.inv(), b.inv()), EQS(a.A, a.n, b.A, b.n) == (g == h)))
        return [Clause("equality", to_z(c.r) == (g == h))]


def inh(nm):
    return lambda eng, fn: fn["path"].endswith("RealAlgebraicNumber::" + nm) and not fn["trait"]


def tr(trait, method):
    def f(eng, fn):
        return fn["method"] == method and last(fn["trait"] or "") == trait and is_num(eng.prog.ty(eng.prog.deref_ty(fn["locals"][1 if fn["argc"] else 0])))
    return f


def res(c):
    """view of the number that results"""
    v = c.n[0] if c.n and c.n[0] is not None else c.r
    n = num(c.eng, c.st, v)
    return n


def out_num(c, n, extra, core=True):
    return c_poly.inv_clauses(n.P) + valid_clauses(n, core=core) + extra


def as_rat(c, v):
    if isinstance(v, Adt):
        return rat(c.st, v.f[0], v.f[1])
    return rat(c.st, v, 1)


class From(AC):
    def __init__(self, name_):
        def m(eng, fn):
            return fn["method"] == "from" and last(fn["trait"] or "") == "From" and is_num(eng.prog.ty(fn["locals"][0]))
        super().__init__(name_, m)

    def ensures(self, c):
        n = res(c)
        v = as_rat(c, c.a[0])
        nd = (to_z(c.a[0].f[0]), to_z(c.a[0].f[1])) if isinstance(c.a[0], Adt) else (to_z(c.a[0]), z3.IntVal(1))
        return out_num(c, n, [Clause("linear", z3.And(PN(n.h) == 2, PC0(n.h) == -nd[0], PC1(n.h) == nd[1])), Clause("value", n.V == v)], core=False)


class IsConst(AC):
    def __init__(self, name_, m, k):
        super().__init__(name_, m)
        self.k = k

    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        return [Clause("value", to_z(c.r) == (n.V == rat(c.st, self.k, 1)))]


class MkConst(IsConst):
    crates = ("algebraics", "num_traits")

    def ensures(self, c):
        n = res(c)
        return out_num(c, n, [Clause("value", n.V == rat(c.st, self.k, 1))])


class Degree(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        return [Clause("value", to_z(c.r) == n.P.n - 1), Clause("positive", to_z(c.r) >= 1)]


class IsRational(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        return [Clause("value", to_z(c.r) == (PN(n.h) == 2))]


class ToRational(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        if not c.r.f:
            return [Clause("none-when-irrational", PN(n.h) != 2)]
        q = c.r.f[0]
        a, b = to_z(q.f[0]), to_z(q.f[1])
        return [Clause("only-rational", PN(n.h) == 2, lemma=True), Clause("reduced", z3.And(b >= 1, GCD(a, b) == 1)), Clause("coefficients", z3.And(a == -PC0(n.h), b == PC1(n.h))), Clause("value", n.V == rat(c.st, a, b))]


class IsInteger(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        m = c.st.fresh_int("m") if not c.assuming else None
        r = to_z(c.r)
        cl = [Clause("integer", z3.Implies(r, n.V == z3.ToReal(-PC0(n.h)))), Clause("coefficients", r == z3.And(PN(n.h) == 2, PC1(n.h) == 1))]
        if m is not None:
            q = rat(c.st, m, 1)
            c.st.assume(z3.Implies(-PC0(n.h) == m * PC1(n.h), GCD(PC0(n.h), PC1(n.h)) == z3.If(PC1(n.h) >= 0, PC1(n.h), -PC1(n.h))))
            cl.append(Clause("not-integer", z3.Implies(z3.Not(r), n.V != q)))
        return cl


class ToInteger(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        if not c.r.f:
            return [Clause("none-when-not-integer", z3.Not(z3.And(PN(n.h) == 2, PC1(n.h) == 1)))]
        return [Clause("value", n.V == rat(c.st, c.r.f[0], 1))]


# ---------------------------------------------------------------- loops that narrow an interval
def find_adt(l, nm):
    """the live local of the struct type nm (by value)"""
    hits = []
    for i, ti in enumerate(l.fr.fn["locals"]):
        t = l.eng.prog.ty(ti)
        if t["k"] == "adt" and last(t["path"]) == nm:
            v = l.st.heap[l.fr.locals[i]]
            if isinstance(v, Adt):
                try:
                    hits.append(l.eng.snap(l.st, v))
                except Unsupported:
                    pass
    if not hits:
        raise Unsupported("loop invariant: no " + nm)
    return hits


class NarrowLoop(LoopSpec):
    """the interval of the shrinker narrows around the same value"""
    name = "narrowing"

    def shr(self, l):
        return Shr(l.eng, l.st, find_adt(l, "IntervalShrinker")[-1])

    def ghost0(self, l):
        if "s0" not in l.rec:
            l.rec["s0"] = self.shr(l)
        return {}

    def inv(self, l):
        s0, s1 = l.rec["s0"], self.shr(l)
        return [Clause("same-polynomial", s1.h == s0.h, lemma=True), Clause("narrower", z3.And(s0.x <= s1.x, s1.y <= s0.y), lemma=True)] + s1.clauses() + [Clause("same-value", s1.V == s0.V)]

    def lemmas(self, l):
        s1 = self.shr(l)
        l.st.assume(s1.n.k <= MAXK)


class Neg(AC):
    def ensures(self, c):
        a = c.a[0]
        if not is_num(c.eng.prog.ty(a.ty)):
            a = c_poly.cow(a)
        n, r = num(c.eng, c.st, a), res(c)
        return out_num(c, r, [Clause("value", r.V == -n.V), Clause("linear", z3.Implies(PN(n.h) == 2, z3.And(PN(r.h) == 2, PC0(r.h) == -PC0(n.h), PC1(r.h) == PC1(n.h))))])


class Cmp0(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        z = rat(c.st, 0, 1)
        o = c.eng.prog.ty(c.r.ty)["variants"][c.r.var]["name"]
        return [Clause("sign", {"Less": n.V < z, "Equal": n.V == z, "Greater": n.V > z}[o], core=True)]


class IntRound(AC):
    """integer floor / ceil / trunc"""

    def __init__(self, name_, m, how):
        super().__init__(name_, m)
        self.how = how

    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        q = rat(c.st, c.r, 1)
        return [Clause(k, g) for k, g in rounding(self.how, n.V, q)]


def rounding(how, v, q):
    if how == "floor":
        return [("not-above", q <= v), ("within-one", v < q + 1)]
    if how == "ceil":
        return [("not-below", q >= v), ("within-one", v > q - 1)]
    return [("towards-zero", z3.And(z3.Implies(v >= 0, z3.And(0 <= q, q <= v)), z3.Implies(v <= 0, z3.And(v <= q, q <= 0)))), ("within-one", z3.And(v < q + 1, v > q - 1))]


class AlgRound(IntRound):
    """floor / ceil / trunc as a number; fract"""

    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        r = res(c)
        if self.how == "fract":
            for (m, d, b) in c.st.ghost.get("rats", ()):
                if cval(d) == 1 and not c.assuming:
                    c.st.assume(z3.Implies(z3.And(b <= n.V, n.V < b + 1), z3.And(m == RFL(n.V), b == z3.ToReal(RFL(n.V)))))
            return out_num(c, r, [Clause("value", r.V == n.V - z3.ToReal(rfloor(c.st, n.V)))])
        i = z3.ToReal(-PC0(r.h))
        rat(c.st, -PC0(r.h), 1)
        return out_num(c, r, [Clause("integer", z3.And(PN(r.h) == 2, PC1(r.h) == 1, r.V == i), lemma=True)] + [Clause(k, g, lemma=True) for k, g in rounding(self.how, n.V, r.V)] +
                       ([Clause("truncation", -PC0(r.h) == rtrunc(c.st, n.V), core=True)] if self.how == "trunc" else []))

# ---------------------------------------------------------------- arithmetic on values
RM = z3.Function("RM", RS, RS, RS)               # product of two reals
RQ = z3.Function("RQ", RS, RS, RS)               # quotient
RTR = z3.Function("RTR", RS, I)                  # truncation
AX_R = "RM(x,y) is the product of two reals, RQ(x,y) the quotient (y != 0), RTR(x) the truncation towards zero"


def rmul(st, a, b):
    a, b = sorted((z3.simplify(a), z3.simplify(b)), key=lambda t: t.sexpr())
    p = RM(a, b)
    olds = st.ghost.get("prods", ())
    if any(q.eq(p) for (_, _, q) in olds):
        return p
    for x, y in ((a, b), (b, a)):
        st.assume(z3.And(z3.Implies(x == 0, p == 0), z3.Implies(x == 1, p == y), z3.Implies(x == -1, p == -y)))
        st.assume(z3.And(z3.Implies(z3.And(x > 0, y > 0), p > 0), z3.Implies(z3.And(x > 0, y < 0), p < 0), z3.Implies(z3.And(x < 0, y < 0), p > 0)))
    reg(st, "prods", (a, b, p))
    for (x, y, q) in olds:
        for (c, d) in ((a, b), (b, a)):
            for (e, f) in ((x, y), (y, x)):
                # same first factor
                st.assume(z3.Implies(z3.And(c == e, c != 0), (p == q) == (d == f)))
                st.assume(z3.Implies(z3.And(c == e, d == -f), p == -q))
    return p


def mul_assoc(st, x, y, z):
    """(xy)z == x(yz)"""
    st.assume(rmul(st, rmul(st, x, y), z) == rmul(st, x, rmul(st, y, z)))


def rquo(st, a, b):
    q = RQ(a, b)
    st.assume(z3.Implies(b != 0, rmul(st, q, b) == a))
    return q


def rtrunc(st, x):
    t = RTR(x)
    st.assume(z3.And(*[g for _, g in rounding("trunc", x, z3.ToReal(t))]))
    return t


RFL = z3.Function("RFL", RS, I)                  # floor


def rfloor(st, x):
    t = RFL(x)
    st.assume(z3.And(*[g for _, g in rounding("floor", x, z3.ToReal(t))]))
    return t


def bin_val(c, op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    ax(c.eng, AX_R)
    if op == "mul":
        return rmul(c.st, a, b)
    if op == "div":
        return rquo(c.st, a, b)
    t = rtrunc(c.st, rquo(c.st, a, b))
    return a - rmul(c.st, z3.ToReal(t), b)


class Bin(AC):
    """self op rhs; assign forms, checked forms (None / Err exactly when rhs is zero)"""

    def __init__(self, name_, trait, method, op, assumed=False, owned=None):
        def m(eng, fn):
            if not tr(trait, method)(eng, fn) or fn["argc"] != 2 or not is_num(eng.prog.ty(eng.prog.deref_ty(fn["locals"][2]))):
                return False
            return owned is None or owned == (eng.prog.ty(fn["locals"][2])["k"] == "adt")
        super().__init__(name_, m)
        self.op, self.assumed = op, assumed
        self.assign, self.checked = method.endswith("_assign"), method.startswith("checked")

    def requires(self, c):
        if self.op in ("div", "rem") and not self.checked:
            b = num(c.eng, c.st, c.a[1])
            return [Clause("divisor-not-zero", b.V != 0)]
        return []

    def ensures(self, c):
        a, b = num(c.eng, c.st, c.a[0]), num(c.eng, c.st, c.a[1])
        if self.checked:
            vn = c.eng.prog.ty(c.r.ty)["variants"][c.r.var]["name"]
            if vn in ("None", "Err"):
                cl = [Clause("only-zero-divisor", b.V == 0)]
                if self.assign:
                    n = num(c.eng, c.st, c.n[0])
                    cl += [Clause("unchanged", n.V == a.V)] + valid_clauses(n)
                return cl
            r = num(c.eng, c.st, c.n[0] if self.assign else c.r.f[0])
        else:
            r = num(c.eng, c.st, c.n[0] if self.assign else c.r)
        ex = []
        if self.op == "div" and not c.assuming:
            for (x, y, q) in c.st.ghost.get("prods", ()):
                for (u, v) in ((x, y), (y, x)):
                    if u.eq(z3.simplify(a.V)) and not v.eq(z3.simplify(b.V)):
                        mul_assoc(c.st, u, v, b.V)
        if self.checked:
            ex.append(Clause("divisor-not-zero", b.V != 0, lemma=True))
        return out_num(c, r, ex + [Clause("value", r.V == bin_val(c, self.op, a.V, b.V), core=self.op == "rem")])


# ---------------------------------------------------------------- powers of two
P2R = z3.Function("P2R", I, RS)
AX_2 = "P2R(m) = 2^m for every integer m: compared with x/2^k like pow2(m+k) with x; a reduced n/d equals it exactly when d = 1 and n = 2^m (m >= 0) or n = 1 and d = 2^-m (m < 0)"


def p2r(eng, st, m, bnds=(), rats=()):
    ax(eng, AX_2)
    m = z3.simplify(to_z(m))
    t = P2R(m)
    st.assume(t > 0)
    for (x, k, b) in bnds:
        p = to_z(st.pow2(z3.simplify(m + k)))
        st.assume(z3.Implies(m + k >= 0, z3.And((t <= b) == (p <= x), (t < b) == (p < x))))
    for (n, d, b) in rats:
        pos, neg_ = to_z(st.pow2(m)), to_z(st.pow2(z3.simplify(-m)))
        st.assume(z3.Implies(z3.And(d >= 1, GCD(n, d) == 1), (b == t) == z3.If(m >= 0, z3.And(d == 1, n == pos), z3.And(n == 1, d == neg_))))
        if cval(d) == 1:
            st.assume(z3.Implies(m >= 0, z3.And((t <= b) == (pos <= n), (t < b) == (pos < n))))
    return t


class IntervalLog2(AC):
    """floor / ceil of the base-2 logarithm of both bounds"""

    def __init__(self, name_, how):
        super().__init__(name_, path_is("DyadicFractionInterval::" + how + "_log2"))
        self.how = how

    def ensures(self, c):
        d = DV(c.eng, c.a[0])
        lo, hi, k = to_z(d.lo), to_z(d.hi), to_z(d.n)
        if not c.r.f:
            return [Clause("none-when-not-positive", lo <= 0)]
        cl = [Clause("positive", lo > 0)]
        for w, x, r in (("lower", lo, c.r.f[0].f[0]), ("upper", hi, c.r.f[0].f[1])):
            e = to_z(r) + k
            p = to_z(c.st.pow2(z3.simplify(e)))
            cl.append(Clause(w + "-range", z3.And(e >= 0, e < 1 << 62)))
            if self.how == "floor":
                cl.append(Clause(w, z3.And(p <= x, x < 2 * p)))
            else:
                cl.append(Clause(w, z3.And(x <= p, z3.If(e == 0, x == 1, 2 * x > p))))
            b = bnd(c.st, x, k)
            bs = () if c.assuming else [(x, k, b)]
            m = to_z(r)
            t = p2r(c.eng, c.st, m, bs)
            if self.how == "floor":
                u = p2r(c.eng, c.st, m + 1, bs)
                cl.append(Clause(w + "-real", z3.And(t <= b, b < u)))
                c.st.assume(u == 2 * t)
            else:
                u = p2r(c.eng, c.st, m - 1, bs)
                if not c.assuming:
                    c.st.assume(z3.Implies(z3.And(m - 1 + k == -1, x >= 1), u < b))        # 2^-(k+1) < 1/2^k <= x/2^k
                cl.append(Clause(w + "-real", z3.And(u < b, b <= t)))
                c.st.assume(t == 2 * u)
        return cl


class ToIntegerLog2(AC):
    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        if c.r.f:
            return [Clause("power-of-two", n.V == p2r(c.eng, c.st, c.r.f[0], (), () if c.assuming else c.st.ghost.get("rats", ())))]
        if c.assuming:
            return []
        t = p2r(c.eng, c.st, c.st.fresh_int("m"), (), c.st.ghost.get("rats", ()))
        point(c.st, t)
        return [Clause("not-a-power-of-two", n.V != t)]


class Log2(AC):
    split, split_depth = 8, 7

    def __init__(self, name_, m, how):
        super().__init__(name_, m)
        self.how = how

    def ensures(self, c):
        n = num(c.eng, c.st, c.a[0])
        if not c.r.f:
            return [Clause("none-when-not-positive", n.V <= 0)]
        r = to_z(c.r.f[0])
        t = p2r(c.eng, c.st, r)
        cl = [Clause("positive", n.V > 0)]
        o = p2r(c.eng, c.st, r + 1 if self.how == "floor" else r - 1)
        if self.how == "floor":
            c.st.assume(o == 2 * t)
            return cl + [Clause("not-above", t <= n.V), Clause("next-above", n.V < o)]
        c.st.assume(t == 2 * o)
        return cl + [Clause("not-below", n.V <= t), Clause("previous-below", o < n.V)]


def variant(c, v):
    return c.eng.prog.ty(v.ty)["variants"][v.var]["name"]


def ordering(o, a, b):
    return {"Less": a < b, "Equal": a == b, "Greater": a > b}[o]


class Cmp(AC):
    """comparisons of two numbers"""

    def __init__(self, name_, trait, method):
        super().__init__(name_, tr(trait, method))
        self.me = method

    def ensures(self, c):
        a, b = num(c.eng, c.st, c.a[0]), num(c.eng, c.st, c.a[1])
        if self.me == "cmp":
            return [Clause("order", ordering(variant(c, c.r), a.V, b.V))]
        if self.me == "partial_cmp":
            return [Clause("some", bool(c.r.f)), Clause("order", ordering(variant(c, c.r.f[0]), a.V, b.V) if c.r.f else False)]
        return [Clause("equality", to_z(c.r) == (a.V == b.V))]


class Signed(AC):
    def __init__(self, method):
        super().__init__("alg::" + method, tr("Signed", method))
        self.me = method

    def ensures(self, c):
        a = num(c.eng, c.st, c.a[0])
        if self.me == "is_positive":
            return [Clause("sign", to_z(c.r) == (a.V > 0))]
        if self.me == "is_negative":
            return [Clause("sign", to_z(c.r) == (a.V < 0))]
        r = num(c.eng, c.st, c.r)
        if self.me == "abs":
            v = z3.If(a.V >= 0, a.V, -a.V)
        elif self.me == "signum":
            v = z3.If(a.V > 0, z3.RealVal(1), z3.If(a.V < 0, z3.RealVal(-1), z3.RealVal(0)))
        else:
            b = num(c.eng, c.st, c.a[1])
            v = z3.If(a.V >= b.V, a.V - b.V, z3.RealVal(0))
        return out_num(c, r, [Clause("value", r.V == v)])


class RemoveZero(AC):
    """None exactly for zero; otherwise the sign, and a shrinker of the same value whose interval excludes zero"""

    def ensures(self, c):
        o = num(c.eng, c.st, c.a[0])
        if not c.r.f:
            return [Clause("none-when-zero", o.V == 0)]
        sign, sh = c.r.f[0].f
        s = Shr(c.eng, c.st, sh)
        pos = variant(c, sign) == "Positive"
        return [Clause("owned-sequence", variant(c, field(c.eng, sh, "primitive_sturm_sequence")) == "Owned"), Clause("sign", (o.V > 0) if pos else (o.V < 0), lemma=True), Clause("same-polynomial", s.h == o.h, lemma=True), Clause("narrower", z3.And(o.x <= s.x, s.y <= o.y), lemma=True),
                *s.clauses(), Clause("same-value", s.V == o.V), Clause("excludes-zero", z3.And(s.n.lo > 0) if pos else s.n.hi < 0)]


def inverses(st, a, b):
    """(n/d)(d/n) == 1"""
    rs = st.ghost.get("rats", ())
    for (n, d, x) in rs:
        for (m, e, y) in rs:
            st.assume(z3.Implies(z3.And(a == x, b == y, d >= 1, e >= 1, z3.Or(z3.And(n == e, d == m), z3.And(n == -e, d == -m))), rmul(st, b, a) == 1))


class Recip(AC):
    def __init__(self, name_, m, checked):
        super().__init__(name_, m)
        self.checked = checked

    def requires(self, c):
        return [] if self.checked else [Clause("not-zero", num(c.eng, c.st, c.a[0]).V != 0)]

    def ensures(self, c):
        a = num(c.eng, c.st, c.a[0])
        if self.checked and not c.r.f:
            return [Clause("none-when-zero", a.V == 0)]
        r = num(c.eng, c.st, c.r.f[0] if self.checked else c.r)
        if not c.assuming:
            inverses(c.st, a.V, r.V)
        return out_num(c, r, [Clause("not-zero", a.V != 0, lemma=True), Clause("value", rmul(c.st, r.V, a.V) == 1)])


def contracts():
    OPS = [Bin(f"alg::{me}" + ("" if k is None else " (owned)" if k else " (borrowed)"), t, me, op, owned=k) for (t, me, op) in
           (("Add", "add", "add"), ("Sub", "sub", "sub"), ("Mul", "mul", "mul"), ("Div", "div", "div"), ("Rem", "rem", "rem"),
            ("AddAssign", "add_assign", "add"), ("SubAssign", "sub_assign", "sub"), ("MulAssign", "mul_assign", "mul"), ("DivAssign", "div_assign", "div"), ("RemAssign", "rem_assign", "rem"),
            ("ExactDiv", "checked_exact_div", "div"), ("ExactDiv", "exact_div", "div"), ("ExactDivAssign", "checked_exact_div_assign", "div"), ("ExactDivAssign", "exact_div_assign", "div"))
           for k in ((True, False) if me in ("add_assign", "mul_assign") else (None,))]
    OPS += [Recip("alg::checked_recip", inh("checked_recip"), True), Recip("alg::recip", inh("recip"), False)]
    OPS += [Cmp("alg::eq", "PartialEq", "eq"), Cmp("alg::cmp", "Ord", "cmp"), Cmp("alg::partial_cmp", "PartialOrd", "partial_cmp"), *[Signed(m) for m in ("is_positive", "is_negative", "abs", "signum", "abs_sub")],
            RemoveZero("alg::remove_zero_from_interval", inh("remove_zero_from_interval"))]
    OPS += [IntervalLog2("interval::floor_log2", "floor"), IntervalLog2("interval::ceil_log2", "ceil"), ToIntegerLog2("alg::to_integer_log2", inh("to_integer_log2")),
            *[Log2(f"alg::{p}checked_{h}_log2", inh(f"{p}checked_{h}_log2"), h) for p in ("", "into_") for h in ("floor", "ceil")]]
    C = OPS + [Neg("alg::neg", tr("Neg", "neg")), Neg("alg::neg (Cow)", path_is("algebraic_numbers::neg")), Cmp0("alg::cmp_with_zero", inh("cmp_with_zero")),
         *[IntRound(f"alg::{p}_integer_{h}", inh(f"{p}_integer_{h}"), h) for p in ("to", "into") for h in ("floor", "ceil", "trunc")],
         *[AlgRound(f"alg::{p}{h}", inh(p + h), h) for p in ("", "into_") for h in ("floor", "ceil", "trunc", "fract")],
         FromSeqN("poly::from_seq/Z", "Z"), FromPartsN("poly::from_parts/Z", "Z"), PolyEq("poly::eq/Z", None), From("alg::from"),
         IsConst("alg::is_zero", tr("Zero", "is_zero"), 0), IsConst("alg::is_one", tr("One", "is_one"), 1), IsConst("alg::is_negative_one", inh("is_negative_one"), -1),
         MkConst("alg::zero", tr("Zero", "zero"), 0), MkConst("alg::one", tr("One", "one"), 1), MkConst("alg::negative_one", inh("negative_one"), -1),
         MkConst("alg::set_zero", tr("Zero", "set_zero"), 0), MkConst("alg::set_one", tr("One", "set_one"), 1), MkConst("alg::set_negative_one", inh("set_negative_one"), -1),
         Degree("alg::degree", inh("degree")), IsRational("alg::is_rational", inh("is_rational")), IsInteger("alg::is_integer", inh("is_integer")), ToRational("alg::to_rational", inh("to_rational")),
         ToInteger("alg::to_integer", inh("to_integer")),
         BoundQ("interval::lower_bound (real)", "lower_bound", "lo"), BoundQ("interval::upper_bound (real)", "upper_bound", "hi"), RatioRangeQ("interval::to_ratio_range (real)", "to_ratio_range"),
         SturmSeq("poly::primitive_sturm_sequence", None), Shrink("alg::shrink", path_is("IntervalShrinker::<'a>::shrink")),
         EvalQ("poly::eval_generic<fraction>", None), SignChangesAt("alg::sign_changes_at", path_is("algebraic_numbers::sign_changes_at"))]
    return C


def loopspecs():
    f = lambda n: (lambda fn: fn["path"].endswith("algebraic_numbers::" + n))
    g = lambda n: (lambda fn: fn["path"].endswith("RealAlgebraicNumber::" + n) and not fn["trait"])
    return {f("sign_changes_at"): {0: SignLoop()}, g("into_integer_floor"): {0: NarrowLoop()}, g("into_fract"): {0: NarrowLoop()},
            g("remove_zero_from_interval"): {0: NarrowLoop()}, g("do_checked_floor_ceil_log2"): {0: NarrowLoop()}}


def fresh_num(eng, st, t, name_):
    nm = last(t["path"])
    if eng.opaque and nm == "Option" and last(eng.prog.ty(t["targs"][0]).get("path", "")) == "SignChanges":
        return [(st, Opq(st.fresh_int(name_)))]
    if eng.opaque and nm == "Cow" and eng.prog.ty(t["targs"][0])["k"] == "slice":
        return [(s1, Adt(t["id"], -1, [v])) for (s1, v) in eng.fresh(st, t["targs"][0], name_)]
    if nm not in ("RealAlgebraicNumber", "IntervalShrinker"):
        return None
    outs = eng.fresh_list(st, [(f"{name_}.{fn}", fi) for fn, fi in t["variants"][0]["fields"]])
    if nm == "IntervalShrinker":
        for (s1, fs) in outs:
            if not eng.raw:
                h = Shr(eng, s1, eng.snap(s1, Adt(t["id"], 0, fs)))
                s1.assume(h.inv)
                s1.assume(h.n.k <= MAXK)
        return [(s1, Adt(t["id"], 0, fs)) for (s1, fs) in outs]
    for (s1, fs) in outs:
        n = num(eng, s1, Adt(t["id"], 0, fs))
        s1.assume(n.k <= MAXK)
        if not eng.raw:
            s1.assume(n.valid)
    return [(s1, Adt(t["id"], 0, fs)) for (s1, fs) in outs]


def num_inv(eng, v, st):
    t = eng.prog.ty(v.ty)
    if t["k"] != "adt" or st is None:
        return None
    if last(t["path"]) == "RealAlgebraicNumber":
        n = num(eng, st, v)
        return z3.And(n.P.inv(), n.lo <= n.hi, n.valid)
    if last(t["path"]) == "IntervalShrinker":
        return Shr(eng, st, v).inv
    return None


num_inv.with_state = True


def new_fraction(st, n, d):
    d = z3.simplify(to_z(d))
    if z3.is_app(d) and d.decl().name() == "pow2":
        bnd(st, n, d.arg(0))


EQS = z3.Function("EQS", AR, I, AR, I, BS)       # element-wise equality of two integer sequences


def sel_vec_eq(eng, fn, ta):
    if len(ta) == 2 and all(t["k"] == "adt" and t["path"] == VEC and eng.is_bigint(eng.prog.ty(t["targs"][0])) for t in ta):
        return m_vec_eq
    return None


def m_vec_eq(c):
    (A, n), (B, m) = arr_of(c.val(0)), arr_of(c.val(1))
    return [(c.st, EQS(A, n, B, m))]


sel_vec_eq._sel = True


def install(m):
    M.ANY_TRAIT[("PartialEq", "eq")] = sel_vec_eq
    M.VALX = new_fraction
    M.RMULT = rmul
    M.RINT = rat
    m.relate_hooks.append(relate_mirror)
    m.fresh_hooks.insert(0, fresh_num)
    m.inv_hooks.insert(0, num_inv)
