"""Contracts on the transcendental functions and cached constants of DyadicFractionInterval."""
import z3
from values import *
from engine import Contract, Clause
from loops import LoopSpec
from models import last, opt, one
import models as M
from c_interval import DC, DV, R, wf, frame_n, is_d, MAXN, align, guard, member

RS = z3.RealSort()
AGM = z3.Function("agm", RS, RS, RS)
AX_AGM = "AGM(a,g) for reals a,g >= 0: AGM(a,g) = AGM((a+g)/2, sqrt(a*g)) and min(a,g) <= AGM(a,g) <= max(a,g); homogeneous"


def meth(fn, name):
    return fn["crate"] == "algebraics" and fn["method"] == name and "blocks" in fn


# ------------------------------------------------------------------ arithmetic-geometric mean
def agm_facts(st, a, g):
    v = AGM(a, g)
    st.assume(z3.Implies(z3.And(a >= 0, g >= 0, a <= g), z3.And(a <= v, v <= g)))
    st.assume(z3.Implies(z3.And(a >= 0, g >= 0, g <= a), z3.And(g <= v, v <= a)))
    return v


def agm_step(st, a, g):
    """(a', g') with AGM(a', g') == AGM(a, g)"""
    a2, g2 = st.fresh_real("am"), st.fresh_real("gm")
    st.assume(2 * a2 == a + g)
    st.assume(z3.Implies(z3.And(a >= 0, g >= 0), z3.And(g2 >= 0, g2 * g2 == a * g)))
    st.assume(z3.Implies(z3.And(a >= 0, g >= 0), AGM(a2, g2) == AGM(a, g)))
    agm_facts(st, a2, g2)
    return a2, g2


class Agm(DC):
    inline = True

    def requires(self, c):
        a, b = self.self_(c), DV(c.eng, c.a[1])
        st = c.st
        c.eng.used_axioms.add(AX_AGM)
        X, hx = member(st, a, "memberA")
        Y, hy = member(st, b, "memberB")
        for h in hx + hy:
            st.assume(h)
        XN, YN = st.fresh_real("XN"), st.fresh_real("YN")
        for (g, n, sa, sb) in align(c, a, b):
            st.assume(guard(g, z3.And(XN == X * R(sa), YN == Y * R(sb))))
        st.ghost["agm"] = (XN, YN)
        return []

    def panics(self, c):
        a, b = self.self_(c), DV(c.eng, c.a[1])
        return bor(cmpop("lt", a.lo, 0), cmpop("lt", b.lo, 0))

    def ensures(self, c):
        a, b, o = self.self_(c), DV(c.eng, c.a[1]), self.out(c)
        XN, YN = c.st.ghost["agm"]
        V = agm_facts(c.st, XN, YN)
        cl = [Clause("ordered", wf(o)), Clause("encloses/lower", R(o.lo) <= V), Clause("encloses/upper", V <= R(o.hi))]
        for (g, n, sa, sb) in align(c, a, b):
            cl.append(Clause("precision", guard(g, cmpop("eq", o.n, n))))
        return cl


class AgmLoop(LoopSpec):
    name = "agm-iteration"

    def ghost0(self, l):
        XN, YN = l.st.ghost["agm"]
        agm_facts(l.st, XN, YN)
        A, G = agm_step(l.st, XN, YN)
        return {"A": A, "G": G}

    def ghost_next(self, l):
        A, G = agm_step(l.st, l.g["A"], l.g["G"])
        return {"A": A, "G": G}

    def inv(self, l):
        am, gm, nr, r = (DV(l.eng, l.v(x)) for x in ("arithmetic_mean", "geometric_mean", "next_result", "result"))
        A, G = l.g["A"], l.g["G"]
        XN, YN = l.st.ghost["agm"]
        V = AGM(XN, YN)
        agm_facts(l.st, A, G)
        n = l.rec.setdefault("n", r.n)
        out = [Clause("value", AGM(A, G) == V), Clause("non-negative", z3.And(A >= 0, G >= 0, R(am.lo) >= 0, R(gm.lo) >= 0)),
               Clause("precision", band(*[cmpop("eq", d.n, n) for d in (am, gm, nr, r)])),
               Clause("ordered", band(*[wf(d) for d in (am, gm, nr, r)])),
               Clause("arithmetic-mean", z3.And(R(am.lo) <= A, A <= R(am.hi))), Clause("geometric-mean/lower", R(gm.lo) <= G), Clause("geometric-mean/upper", G <= R(gm.hi)),
               Clause("result", z3.And(R(r.lo) <= V, V <= R(r.hi))),
               Clause("next-result", z3.And(R(nr.lo) <= V, V <= R(nr.hi)))]
        return out


# ------------------------------------------------------------------ log(2)
LN2 = z3.Real("LN2")
T2 = z3.Function("ln2_partial_sum", z3.IntSort(), RS)
AX_LN2 = "log(2) = sum_{i>=1} 1/(i*2^i); T2(i) is the sum of the terms below i: 0 <= (log(2) - T2(i))*i*2^i <= 2; 0.693 < log(2) < 0.694"
MAXP = 1 << 59      # precision asked of a computation
MAXQ = 1 << 57      # precision asked of a cached constant
MAXPUB = 1 << 56    # precision of public operations


def ln2_facts(eng, st):
    eng.used_axioms.add(AX_LN2)
    st.assume(z3.And(1000 * LN2 > 693, 1000 * LN2 < 694))


def enclosed(d, V):
    """d encloses the real V scaled by 2^n"""
    return z3.And(R(d.lo) <= V, V <= R(d.hi))


def scale(st, n):
    return R(st.pow2(n))


class Closure(Contract):
    """a closure computing a constant: at least the requested precision, error below one unit of it"""
    optional = True
    inexact = True

    def __init__(self, name, owner, const):
        self.name, self.owner, self.const = name, owner, const

    def matches(self, eng, fn):
        return fn["crate"] == "algebraics" and fn["path"].endswith(self.owner + "::{closure#0}") and "blocks" in fn and fn["argc"] == 2

    def requires(self, c):
        ln2_facts(c.eng, c.st)
        return [Clause("precision-bound", cmpop("le", self.arg(c), MAXP))]

    def arg(self, c):
        return c.a[1].f[0] if isinstance(c.a[1], Tup) else c.a[1]

    def ensures(self, c):
        o, n = DV(c.eng, c.r), self.arg(c)
        V = self.const(c.st) * scale(c.st, o.n)
        c.st.pow2(n)
        if not c.assuming and "wn" in c.st.ghost:
            c.st.pow2(sub(c.st.ghost["wn"], n))
        return [Clause("precision", cmpop("ge", o.n, n)), Clause("precision-bounded", cmpop("le", o.n, add(mul(2, n), 10))), Clause("ordered", wf(o)),
                Clause("encloses/lower", R(o.lo) <= V), Clause("encloses/upper", V <= R(o.hi)),
                Clause("width", cmpop("le", sub(o.hi, o.lo), c.st.pow2(sub(o.n, n))))]


class Ln2Loop(LoopSpec):
    name = "log2-series"

    def ghost0(self, l):
        l.st.assume(T2(1) == 0)
        l.st.ghost["wn"] = l.v("iter").f[1]
        return {}

    def it(self, l):
        v = l.v("iter")
        return to_z(v.f[0]), to_z(v.f[1])

    def inv(self, l):
        i, e = self.it(l)
        r = DV(l.eng, l.v("retval"))
        n = l.rec.setdefault("n", r.n)
        P = scale(l.st, n)
        l.st.assume(z3.Implies(i >= 1, z3.And(T2(i) >= 0, T2(i) <= LN2, (LN2 - T2(i)) * R(i) * R(l.st.pow2(i)) <= 2)))
        return [Clause("index", z3.And(i >= 1, i <= e)), Clause("range", e == to_z(n)), Clause("precision", cmpop("eq", r.n, n)),
                Clause("ordered", wf(r)), Clause("lower", R(r.lo) <= T2(i) * P), Clause("upper", T2(i) * P <= R(r.hi)),
                Clause("width", to_z(r.hi) - to_z(r.lo) <= i - 1)]

    def lemmas(self, l):
        i, e = self.it(l)
        st = l.st
        t = st.fresh_real("term")
        st.assume(t * R(i) * R(st.pow2(i)) == 1)
        st.assume(T2(i + 1) == T2(i) + t)


SQRT2 = z3.Real("SQRT2")
AX_SQRT2 = "sqrt(2) > 0 and sqrt(2)^2 = 2"


def sqrt2(st):
    st.eng.used_axioms.add(AX_SQRT2)
    st.assume(z3.And(SQRT2 > 0, SQRT2 * SQRT2 == 2))
    return SQRT2


# ------------------------------------------------------------------ log_core: log((x+1)/(x-1)), x >= 2
QS = z3.Function("logcore_partial_sum", RS, z3.IntSort(), RS)
WP = z3.Function("odd_power", RS, z3.IntSort(), RS)
LC = z3.Function("logcore", RS, RS)
AX_LC = ("LC(x) = log((x+1)/(x-1)) = sum_{i>=0} 2/((2i+1)*x^(2i+1)) for x >= 2; QS(x,i) is the sum of the first i terms, "
         "WP(x,i) = x^(2i+1) >= 2; 0 <= (LC(x) - QS(x,i))*2^i <= 1")


def lc_instance(st, a, o, y):
    """instance of log_core's postcondition for a member y of its argument"""
    pa, po = scale(st, a.n), scale(st, o.n)
    st.assume(z3.Implies(z3.And(R(a.lo) <= y * pa, y * pa <= R(a.hi)), z3.And(R(o.lo) <= LC(y) * po, LC(y) * po <= R(o.hi))))


class LogCore(DC):
    optional = True
    inexact = True

    def requires(self, c):
        a = self.self_(c)
        st = c.st
        c.eng.used_axioms.add(AX_LC)
        if not c.calling:
            x = st.fresh_real("x")
            P = scale(st, a.n)
            st.assume(z3.And(R(a.lo) <= x * P, x * P <= R(a.hi)))
            st.ghost["lcx"] = x
        return [Clause("at-least-2", to_z(a.lo) >= 2 * to_z(st.pow2(a.n))), Clause("precision-bound", cmpop("le", a.n, MAXP))]

    def ensures(self, c):
        a, o = self.self_(c), DV(c.eng, c.r)
        cl = [frame_n(a, o), Clause("ordered", wf(o))]
        if c.assuming:
            c.st.ghost["lc"] = c.st.ghost.get("lc", ()) + ((a, o),)
        else:
            x = c.st.ghost["lcx"]
            V = LC(x) * scale(c.st, o.n)
            cl += [Clause("encloses/lower", R(o.lo) <= V), Clause("encloses/upper", V <= R(o.hi))]
        return cl


def step(l, label, goal, hyps=(), alone=False):
    """intermediate assertion: an obligation that the following obligations may use"""
    Clause(label, goal, hyps, alone=alone, lemma=True).oblige(l.eng, l.st, f"{l.eng.cur}/{l.spec.name}/{label}")


class LogCoreLoop(LoopSpec):
    name = "logcore-series"
    vars = ("power", "retval")

    def on_back(self, l):
        st = l.st
        rr = st.ghost.get("ratio_range")
        if rr is None:
            return
        ln, ld, un, ud, o = rr
        i0, t = st.ghost["lct"]
        pw = DV(l.eng, l.h("power"))
        P = scale(st, l.rec["n"])
        x = st.ghost["lcx"]
        k = 2 * R(i0) + 1
        step(l, "term-bound-upper", z3.And(t > 0, t * k * R(pw.lo) <= 2 * P))
        step(l, "term-bound-lower", t * k * R(pw.hi) >= 2 * P)
        step(l, "term-ratio-upper", t * R(ud) <= R(un))
        step(l, "term-ratio-lower", t * R(ld) >= R(ln))
        sq, pw1 = DV(l.eng, l.v("self_squared")), DV(l.eng, l.v("power"))
        w0, q = WP(x, i0) * P, x * x * P
        w1 = st.fresh_real("w1")
        st.assume(w1 == WP(x, i0) * x * x)
        for nm, a, b, o1, le in (("lower", R(pw.lo), R(sq.lo), R(pw1.lo), True), ("upper", R(pw.hi), R(sq.hi), R(pw1.hi), False)):
            A, B = st.fresh_real("A"), st.fresh_real("B")
            st.assume(z3.And(A == w0, B == q))
            if le:
                step(l, "power-product-lower", a * b <= A * B, [a >= 0, b >= 0, a <= A, b <= B], alone=True)
                step(l, "power-product-lower/scaled", z3.And(o1 * P <= a * b, A * B == w1 * P * P))
                step(l, "power-lower", o1 <= w1 * P, [o1 * P <= a * b, a * b <= A * B, A * B == w1 * P * P, P >= 1], alone=True)
            else:
                step(l, "power-product-upper", a * b >= A * B, [A >= 0, B >= 0, a >= A, b >= B], alone=True)
                step(l, "power-product-upper/scaled", z3.And(o1 * P >= a * b, A * B == w1 * P * P))
                step(l, "power-upper", o1 >= w1 * P, [o1 * P >= a * b, a * b >= A * B, A * B == w1 * P * P, P >= 1], alone=True)
        step(l, "term-enclosed", z3.And(R(o.lo) <= t * P, t * P <= R(o.hi)))

    def ghost0(self, l):
        x = l.st.ghost["lcx"]
        l.st.assume(z3.And(QS(x, 0) == 0, WP(x, 0) == x))
        return {}

    def it(self, l):
        v = l.v("iter")
        return to_z(v.f[0]), to_z(v.f[1])

    def inv(self, l):
        i, e = self.it(l)
        st = l.st
        r, pw, sq = (DV(l.eng, l.v(x)) for x in ("retval", "power", "self_squared"))
        x = st.ghost["lcx"]
        n = l.rec.setdefault("n", e)
        P = scale(st, n)
        st.assume(z3.Implies(i >= 0, z3.And(WP(x, i) >= 2, QS(x, i) >= 0, QS(x, i) <= LC(x), (LC(x) - QS(x, i)) * R(st.pow2(i)) <= 1)))
        return [Clause("index", z3.And(i >= 0, i <= e)), Clause("range", e == to_z(n)),
                Clause("precision", z3.And(to_z(r.n) == e, to_z(pw.n) == e, to_z(sq.n) == e)),
                Clause("ordered", z3.And(wf(r), wf(pw))), Clause("power/positive", R(pw.lo) >= 2 * P),
                Clause("square", z3.And(R(sq.lo) <= x * x * P, x * x * P <= R(sq.hi), R(sq.lo) >= P)),
                Clause("power/lower", R(pw.lo) <= WP(x, i) * P), Clause("power/upper", WP(x, i) * P <= R(pw.hi)),
                Clause("lower", R(r.lo) <= QS(x, i) * P), Clause("upper", QS(x, i) * P <= R(r.hi))]

    def lemmas(self, l):
        i, e = self.it(l)
        st = l.st
        x = st.ghost["lcx"]
        t = st.fresh_real("term")
        st.assume(t * (2 * R(i) + 1) * WP(x, i) == 2)
        st.ghost["lct"] = (i, t)
        st.assume(z3.And(WP(x, i + 1) == WP(x, i) * x * x, QS(x, i + 1) == QS(x, i) + t))


# ------------------------------------------------------------------ cached constants (callers)
class Const(DC):
    """natural_log_of_2 / sqrt_2: requested precision, enclosure, at most two units wide"""

    def __init__(self, name, method, const):
        super().__init__(name, method)
        self.const = const

    def requires(self, c):
        ln2_facts(c.eng, c.st)
        return [Clause("precision-bound", cmpop("le", c.a[0], MAXQ))]

    def ensures(self, c):
        o, n = DV(c.eng, c.r), c.a[0]
        V = self.const(c.st) * scale(c.st, n)
        if c.assuming:
            c.st.ghost["const"] = o
        return [Clause("precision", cmpop("eq", o.n, n)), Clause("ordered", wf(o)), Clause("encloses/lower", R(o.lo) <= V),
                Clause("encloses/upper", V <= R(o.hi)), Clause("width", to_z(o.hi) - to_z(o.lo) <= 2)]


# ------------------------------------------------------------------ natural logarithm
LN = z3.Function("ln", RS, RS)
AX_LN = "log is monotone on positive reals and log(x*2^s) = s*log(2) + LC((x+1)/(x-1)) for 1 < x <= 3 and integer s"


class Log(DC):
    inline = True

    def requires(self, c):
        a = self.self_(c)
        st = c.st
        c.eng.used_axioms.update((AX_LN, AX_LC))
        ln2_facts(c.eng, st)
        st.assume(z3.And(R(a.lo) <= R(a.hi)))
        X, hx = member(st, a, "member")
        for h in hx:
            st.assume(h)
        st.ghost["logx"] = X
        return [Clause("precision-bound", cmpop("le", a.n, MAXPUB))]

    def panics(self, c):
        return cmpop("le", self.self_(c).lo, 0)

    def end(self, c, b, P, n):
        """decomposition of an end point b/P = x*2^s with 3/2 <= x < 3"""
        st = c.st
        fl = st.fresh_int("fl")
        st.assume(fl >= 0)
        p = to_z(st.pow2(fl))
        st.assume(z3.And(p <= b, b < 2 * p))
        small = 2 * b < 3 * p
        x, y, v = st.fresh_real("x"), st.fresh_real("y"), st.fresh_real("v")
        st.assume(x * R(p) == z3.If(small, 2 * R(b), R(b)))
        st.assume(z3.And(2 * x >= 3, x < 3))
        st.assume(z3.And(y * (x - 1) == x + 1, y > 2, y <= 5))
        sh = z3.If(small, fl - 1, fl) - n
        st.assume(v * P == R(b))
        st.assume(LN(v) == R(sh) * LN2 + LC(y))
        return fl, small, x, y, v, sh

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        st = c.st
        P = scale(st, a.n)
        n = to_z(a.n)
        X = st.ghost["logx"]
        v = st.fresh_real("v")
        st.assume(v * P == X)
        lc = st.ghost.get("lc", ())
        cl = [frame_n(a, o), Clause("ordered", wf(o))]
        lo, hi = to_z(a.lo), to_z(a.hi)
        E = [self.end(c, lo, P, n), self.end(c, hi, P, n)]
        v1, v2 = E[0][4], E[1][4]
        st.assume(z3.Implies(z3.And(v1 > 0, v1 <= v), LN(v1) <= LN(v)))
        st.assume(z3.Implies(z3.And(v > 0, v <= v2), LN(v) <= LN(v2)))
        if len(lc) == 2 and "const" in st.ghost and "muld" in st.ghost:
            L, (ma, mb, mo) = st.ghost["const"], st.ghost["muld"]
            W = scale(st, L.n)
            for k in (0, 1):
                fl, small, x, y, vv, sh = E[k]
                (la, lo_) = lc[k]
                code = to_z(ma.lo if k == 0 else ma.hi)      # shift used by the code, scaled by 2^W
                cl.append(Clause(f"shift{k}", R(code) == R(sh) * W, export=False, lemma=True))
                cl.append(Clause(f"argument{k}", z3.And(R(la.lo) <= y * W, y * W <= R(la.hi)), export=False, lemma=True))
                lc_instance(st, la, lo_, y)
                z = st.fresh_real("prod")
                st.assume(z == R(sh) * LN2 * W)
                if k == 0:
                    cl.append(Clause("product-lower", R(mo.lo) <= z, export=False, lemma=True))
                else:
                    cl.append(Clause("product-upper", z <= R(mo.hi), export=False, lemma=True))
        cl += [Clause("encloses/lower", R(o.lo) <= LN(v) * P), Clause("encloses/upper", LN(v) * P <= R(o.hi))]
        return cl


# ------------------------------------------------------------------ exponential
EXP = z3.Function("exp", RS, RS)
TT = z3.Function("exp_term", RS, z3.IntSort(), RS)
SE = z3.Function("exp_partial_sum", RS, z3.IntSort(), RS)
AX_EXP = ("exp is monotone and positive; exp(q*log(2) + r) = 2^q*exp(r) for integer q; TT(r,i) = r^i/i!, SE(r,i) is the sum of the first i terms; "
          "for 0 <= r <= 1 and i >= 1: SE(r,i+1) <= exp(r) <= SE(r,i+1) + TT(r,i) and exp(r) <= 3")


class Exp(DC):
    def requires(self, c):
        a = self.self_(c)
        st = c.st
        pre = [Clause("precision-bound", cmpop("le", a.n, MAXPUB)), Clause("input-bound", to_z(a.hi) <= (1 << 50) * to_z(st.pow2(a.n)))]
        if c.calling:
            return pre
        c.eng.used_axioms.add(AX_EXP)
        ln2_facts(c.eng, st)
        X, hx = member(st, a, "member")
        for h in hx:
            st.assume(h)
        P = scale(st, a.n)
        x = st.fresh_real("x")
        st.assume(x * P == X)
        st.assume(EXP(x) > 0)
        st.ghost["expx"] = x
        st.ghost["expa"] = a
        return pre

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        st = c.st
        P = scale(st, a.n)
        cl = [frame_n(a, o)]
        x = st.ghost.get("expx")
        if x is not None:
            # for every x in the input; a caller uses it for the x of its own statement
            inside = [z3.And(R(a.lo) <= x * P, x * P <= R(a.hi))] if c.assuming else []
            cl += [Clause("encloses/lower", R(o.lo) <= EXP(x) * P, inside), Clause("encloses/upper", EXP(x) * P <= R(o.hi), inside)]
        return cl + [Clause("ordered", wf(o))]


def exp_end(eng, st, d):
    """assertions before the final rounding: the scaled sum encloses exp(x)"""
    g = st.ghost["exploop"]
    x = st.ghost["expx"]
    out = []
    if "addd" in st.ghost:
        out += exp_body(st, g)
        (ra, rb, ro) = st.ghost["addd"]
        th = R(rb.hi)
        out.append(("sum/lower", R(ro.lo) <= EXP(g["rho1"]) * g["P"]))
        out.append(("sum/upper", EXP(g["rho2"]) * g["P"] <= R(ro.hi) + th))
    W = g["P"]
    for k, q, rho in ((1, g["q1"], g["rho1"]), (2, g["q2"], g["rho2"])):
        arg = st.fresh_real("arg")
        st.assume(arg == R(q) * LN2 + rho)
        s2 = st.fresh_real("s")
        pq, pm = R(st.pow2(q)), R(st.pow2(neg(q)))
        st.assume(z3.And(s2 > 0, z3.Implies(q >= 0, s2 == pq), z3.Implies(q < 0, s2 * pm == 1)))
        st.assume(EXP(arg) == s2 * EXP(rho))
        st.assume(z3.Implies(z3.And(rho >= 0, rho <= 1), z3.And(EXP(rho) > 0, EXP(rho) <= 3)))
        e = st.fresh_real("e")
        st.assume(e == s2 * EXP(rho) * W)
        if k == 1:
            st.assume(z3.Implies(arg <= x, EXP(arg) <= EXP(x)))
            out.append(("value/lower", e <= EXP(x) * W))
            out.append(("shifted/lower", R(d.lo) <= e))
        else:
            st.pow2(add(g["W"], 2))
            st.assume(z3.Implies(x <= arg, EXP(x) <= EXP(arg)))
            out.append(("value/upper", EXP(x) * W <= e))
            out.append(("shifted/upper", e <= R(d.hi)))
    for nm, f in out:
        Clause(nm, f, lemma=True).oblige(eng, st, f"{eng.cur}/end/{nm}")


def exp_body(st, g):
    """assertions about one iteration: term(i-1) -> term(i), sum(i) -> sum(i+1)"""
    i, P, r1, r2 = g["i"], g["P"], R(g["r1"]), R(g["r2"])
    (ma, mb, mo), (da, do), (ra, rb, ro) = st.ghost["muld"], st.ghost["muls"], st.ghost["addd"]
    T1, T2_ = TT(g["rho1"], i - 1), TT(g["rho2"], i - 1)
    U1, U2 = TT(g["rho1"], i), TT(g["rho2"], i)
    I = R(i)
    h = R(ma.hi)
    out = []
    out.append(("product/lower", R(mo.lo) <= T1 * r1))
    out.append(("product/upper", T2_ * r2 <= R(mo.hi)))
    out.append(("term/lower", R(do.lo) <= U1 * P))
    out.append(("term/upper", U2 * P <= R(do.hi)))
    out.append(("term/size-product", 10 * R(mo.hi) <= 7 * h + 10))
    out.append(("term/size", 10 * R(do.hi) * I <= 7 * h + 10 * I))
    return out


class ExpLoop(LoopSpec):
    name = "exp-series"
    cut = True

    def on_init(self, l):
        st = l.st
        g = st.ghost["exploop"]
        x, a = st.ghost["expx"], st.ghost["expa"]
        P, P0 = g["P"], scale(st, a.n)
        D = scale(st, sub(g["W"], a.n))
        st.assume(z3.And(P == P0 * D, D == 1024 * scale(st, sub(g["W"], add(a.n, 10)))))
        k = DV(l.eng, l.v("natural_log_of_2"))
        step(l, "log2", z3.And(to_z(k.lo) > 0, R(k.lo) <= LN2 * P, LN2 * P <= R(k.hi)))
        step(l, "scaled", z3.And(R(a.lo) * D <= x * P, x * P <= R(a.hi) * D))
        for nm, q, r, b, w in (("lower", g["q1"], g["r1"], (k.lo, k.hi), a.lo), ("upper", g["q2"], g["r2"], (k.hi, k.lo), a.hi)):
            for s, v in zip((w < 0, w >= 0), b):
                step(l, f"quotient/{nm}", z3.Implies(s, R(q) * R(v) + R(r) == R(w) * D))
            step(l, f"sign/{nm}", z3.And(z3.Implies(w < 0, q < 0), z3.Implies(w >= 0, q >= 0)))
            if nm == "lower":
                step(l, "argument/lower", R(q) * (LN2 * P) + R(r) <= x * P)
            else:
                step(l, "argument/upper", R(q) * (LN2 * P) + R(r) >= x * P)

    def it(self, l):
        v = l.v("iter")
        return to_z(v.f[0]), to_z(v.f[1])

    def ghost0(self, l):
        st = l.st
        s = DV(l.eng, l.v("self"))
        i, W = self.it(l)
        P = scale(st, W)
        r1, r2 = to_z(s.lo), to_z(s.hi)
        rho1, rho2 = st.fresh_real("rho1"), st.fresh_real("rho2")
        st.assume(z3.And(rho1 * P == R(r1), rho2 * P == R(r2)))
        for rho in (rho1, rho2):
            st.assume(z3.And(TT(rho, 0) == 1, SE(rho, 1) == 1))
        st.ghost["exploop"] = {"P": P, "W": W, "r1": r1, "r2": r2, "rho1": rho1, "rho2": rho2, "i": i,
                               "q1": to_z(l.v("floor_power_of_2_lower_bound")), "q2": to_z(l.v("floor_power_of_2_upper_bound"))}
        st.ghost.pop("addd", None)
        return {}

    def inv(self, l):
        st = l.st
        g = st.ghost["exploop"]
        i, e = self.it(l)
        P = g["P"]
        t, r, s = (DV(l.eng, l.v(x)) for x in ("term", "retval", "self"))
        p = R(st.pow2(i - 1))
        for rho in (g["rho1"], g["rho2"]):
            st.assume(z3.Implies(z3.And(i >= 1, rho >= 0, rho <= 1), z3.And(TT(rho, i - 1) >= 0, SE(rho, i) >= 0)))
        return [Clause("remainders", z3.And(g["r1"] >= 0, g["r2"] >= 0, 10 * R(g["r1"]) <= 7 * P, 10 * R(g["r2"]) <= 7 * P)),
                Clause("argument/lower", R(g["q1"]) * LN2 + g["rho1"] <= st.ghost["expx"]), Clause("argument/upper", R(g["q2"]) * LN2 + g["rho2"] >= st.ghost["expx"]),
                Clause("quotients", z3.And(g["q2"] <= (1 << 52), g["q1"] <= (1 << 52))),
                Clause("original", l.z("original_log2_denom") == to_z(st.ghost["expa"].n)), Clause("working", z3.And(e >= to_z(st.ghost["expa"].n), e <= MAXQ)),
                Clause("index", z3.And(i >= 1, i <= e - 1)), Clause("range", e == g["W"]),
                Clause("precision", z3.And(to_z(t.n) == e, to_z(r.n) == e, to_z(s.n) == e)), Clause("precision-large", e >= 32),
                Clause("ordered", z3.And(wf(t), wf(r), to_z(t.lo) >= 0)),
                Clause("first", z3.Implies(i == 1, R(t.hi) == P)),
                Clause("size/2", z3.Implies(i == 2, 100 * R(t.hi) <= 70 * P + 100)), Clause("size/3", z3.Implies(i == 3, 1000 * R(t.hi) <= 245 * P + 1350)),
                Clause("size/4", z3.Implies(i == 4, 1000 * R(t.hi) <= 58 * P + 1350)),
                Clause("size", z3.Implies(i >= 5, 100 * R(t.hi) * p <= 30 * P + 135 * p)),
                Clause("term/lower", R(t.lo) <= TT(g["rho1"], i - 1) * P), Clause("term/upper", TT(g["rho2"], i - 1) * P <= R(t.hi)),
                Clause("sum/lower", R(r.lo) <= SE(g["rho1"], i) * P), Clause("sum/upper", SE(g["rho2"], i) * P <= R(r.hi))]

    def lemmas(self, l):
        st = l.st
        i, e = self.it(l)
        g = dict(st.ghost["exploop"])
        g["i"] = i
        st.ghost["exploop"] = g
        eng = l.eng
        st.ghost["before:interval::into_converted_log2_denom"] = lambda s, a: exp_end(eng, s, DV(eng, a[0]))
        for rho in (g["rho1"], g["rho2"]):
            st.assume(z3.And(TT(rho, i) * R(i) == TT(rho, i - 1) * rho, SE(rho, i + 1) == SE(rho, i) + TT(rho, i), TT(rho, i) >= 0))
            st.assume(z3.And(SE(rho, i + 1) <= EXP(rho), EXP(rho) <= SE(rho, i + 1) + TT(rho, i)))

    def on_back(self, l):
        st = l.st
        g = st.ghost["exploop"]
        for nm, f in exp_body(st, g):
            step(l, nm, f)
        h, d, I, P = R(st.ghost["muld"][0].hi), R(st.ghost["muls"][1].hi), R(g["i"]), g["P"]
        p, p2 = R(st.pow2(g["i"] - 1)), R(st.pow2(g["i"]))
        st.pow2(g["i"] + 1)
        st.assume(z3.Implies(g["i"] == 4, p2 == 16))       # 2^4
        st.assume(R(st.pow2(g["i"] + 1)) == 2 * p2)        # 2^(i+1) = 2 * 2^i
        step(l, "ratio", z3.Implies(I >= 5, 50 * d <= 7 * h + 50), hyps=[10 * d * I <= 7 * h + 10 * I, h >= 0], alone=True)
        step(l, "doubling", z3.Implies(g["i"] >= 1, p2 == 2 * p))
        step(l, "size/4-5", z3.Implies(I == 4, 1000 * d <= 11 * P + 1240))
        step(l, "size/5", z3.Implies(I == 4, 100 * d * p2 <= 30 * P + 135 * p2))
        step(l, "size", z3.Implies(50 * d <= 7 * h + 50, 100 * d * p2 <= 30 * P + 135 * p2), hyps=[100 * h * p <= 30 * P + 135 * p, p2 == 2 * p, p >= 1, P >= 1, d >= 0, h >= 0], alone=True)
        step(l, "last", z3.Implies(g["i"] + 1 == g["W"], P == 2 * p2))
        step(l, "stops", z3.Implies(z3.And(g["i"] + 1 == g["W"], 100 * d * p2 <= 30 * P + 135 * p2), d < 2))


def contracts():
    C = [Agm("trans::agm/into", "into_arithmetic_geometric_mean"), Agm("trans::agm/ref", "arithmetic_geometric_mean")]
    C += [Closure("trans::ln2/compute", "natural_log_of_2", lambda st: LN2), Closure("trans::sqrt_2/compute", "sqrt_2", sqrt2)]
    C += [LogCore("trans::log_core", "log_core"), Log("trans::log", "log")]
    C += [Exp("trans::exp/into", "into_exp"), Exp("trans::exp/ref", "exp")]
    C += [Const("cache::natural_log_of_2", "natural_log_of_2", lambda st: LN2), Const("cache::sqrt_2", "sqrt_2", sqrt2)]
    return C


def loopspecs():
    return {(lambda fn: meth(fn, "into_arithmetic_geometric_mean")): {0: AgmLoop()},
            (lambda fn: fn["path"].endswith("natural_log_of_2::{closure#0}")): {0: Ln2Loop()},
            (lambda fn: meth(fn, "log_core")): {0: LogCoreLoop()},
            (lambda fn: meth(fn, "into_exp")): {0: ExpLoop()}}


# ------------------------------------------------------------------ models
def m_lazy_get(c):
    """lazy_static: the value of the initialiser (evaluated once; the initialisers are pure)"""
    f = c.args[1]
    if not isinstance(f, FnV):
        raise Unsupported("lazy initialiser")
    dest, target = c.dest, c.target

    def ret(st, v):
        st.write(dest, st.alloc(v))
        st.frames[-1].bb = target
        return [st]
    c.eng.push(c.st, c.eng.prog.fns[f.inst], [], None, None, on_return=ret)
    return M.Pushed(c.st)


def install(m):
    M.PATHS["lazy_static::lazy::Lazy::<T>::get"] = m_lazy_get
