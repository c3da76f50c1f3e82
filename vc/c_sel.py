"""Contracts on the root selectors: which root of a polynomial is the result of an operation.

A selector holds shrinkers of its operands; its target t is the exact real result.  ALLF / HASF(factors, t): every factor is a minimal
polynomial / some factor vanishes at t; ALLQ / HASQ(sequences, lo, hi, t): the same of the Sturm sequences [lo, hi)."""
import z3
import models as M
import iters
import c_interval
import c_trans
from values import *
from engine import Contract, Clause, VEC
from loops import LoopSpec
from iters import AR, cval, VAL
from models import last
from c_interval import DV, wf
from c_poly import poly_kind
import c_poly
from c_alg import (AC, OKM, PE, PEV, PN, RT, SC, STU, UQ, RM, Seq, Shr, ax, bnd, field, name, num, out_num, pol, rat, reg, res, rmul, variant, path_is, ordering)

I, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
A2, A3 = z3.ArraySort(I, AR), z3.ArraySort(I, z3.ArraySort(I, AR))
RRC = z3.Function("RRC", RS, RS)                       # reciprocal
ALLF = z3.Function("ALLF", A2, AR, I, BS)
HASF = z3.Function("HASF", A2, AR, I, RS, BS)
ALLQ = z3.Function("ALLQ", A3, A2, AR, I, I, BS)
HASQ = z3.Function("HASQ", A3, A2, AR, I, I, RS, BS)
AX_F = "factor(): the listed factors of a nonzero polynomial are minimal polynomials, and every root of the polynomial is a root of one of them (property N05)"
AX_E = "interval contracts in real units: a proved enclosure of every member X/2^n is applied to the reals known to lie in the operands"
KINDS = {"AddRootSelector": "add", "MulRootSelector": "mul", "RecipRootSelector": "recip", "PowRootSelector": "pow"}


POW = None          # the value of a pow selector (c_pow)


def sel_kind(t):
    return KINDS.get(last(t["path"])) if t["k"] == "adt" else None


def rrc(st, v):
    r = RRC(v)
    st.assume(z3.Implies(v != 0, rmul(st, r, v) == 1))
    return r


class Sel:
    def __init__(self, eng, st, v):
        t = eng.prog.ty(v.ty)
        self.kind = sel_kind(t)
        if self.kind is None:
            raise Unsupported("root selector")
        self.f = {f[0]: x for f, x in zip(t["variants"][0]["fields"], v.f)}
        self.shr = [Shr(eng, st, x) for x in v.f if isinstance(x, Adt) and last(eng.prog.ty(x.ty)["path"]) == "IntervalShrinker"]
        V = [s.V for s in self.shr]
        if len(V) != (2 if self.kind in ("add", "mul") else 1):
            raise Unsupported("representation changed: root selector")
        if self.kind == "add":
            self.t = V[0] + V[1]
        elif self.kind == "mul":
            self.t = rmul(st, V[0], V[1])
        elif self.kind == "recip":
            self.t = rrc(st, V[0])
        elif POW:
            self.t = POW(eng, st, self)
        else:
            raise Unsupported("pow selector")
        if not any(x.eq(self.t) for x in st.ghost.get("targets", ())):
            reg(st, "targets", self.t)

    def own(self):
        """what the selector's own operation needs of its operands"""
        if self.kind == "recip":
            s = self.shr[0]
            return z3.Or(s.n.lo > 0, s.n.hi < 0)
        if self.kind == "pow":
            return self.own_
        return z3.BoolVal(True)

    def clauses(self, o):
        out = []
        for i, (s, s0) in enumerate(zip(self.shr, o.shr)):
            out += [Clause(f"{i}-same-polynomial", s.h == s0.h, lemma=True), Clause(f"{i}-narrower", z3.And(s0.x <= s.x, s.y <= s0.y), lemma=True)]
            for c in s.clauses():
                c.label = f"{i}-{c.label}"
                out.append(c)
            out.append(Clause(f"{i}-same-value", s.V == s0.V, lemma=True))
        if self.kind == "pow":
            e, e0 = self.f["exponent"].f, o.f["exponent"].f
            out.append(Clause("same-exponent", z3.And(*[to_z(a) == to_z(b) for a, b in zip(e, e0)]), lemma=True))
            out.append(Clause("same-sign", z3.BoolVal(self.neg == o.neg), lemma=True))
        out.append(Clause("own", self.own()))
        return out


# ---------------------------------------------------------------- enclosures in real units
def inside(c, d):
    """(interval bounds, [(real, guard)]) known to lie in the interval d"""
    st = c.st
    x, y = bnd(st, d.lo, d.n), bnd(st, d.hi, d.n)
    out = [(n.V, n.U) for n in st.ghost.get("nums", ()) if n.x.eq(x) and n.y.eq(y)]
    out += [(r, g) for (a, b, r, g) in st.ghost.get("inside", ()) if a.eq(x) and b.eq(y)]
    return x, y, out


def enclosed(c, o, r, g):
    x, y = bnd(c.st, o.lo, o.n), bnd(c.st, o.hi, o.n)
    c.st.assume(z3.Implies(g, z3.And(x <= r, r <= y)))
    reg(c.st, "inside", (x, y, r, g))


def enclose(k, c):
    eng = c.eng
    if not isinstance(k, c_interval.DC) or not c.st.ghost.get("targets"):
        return
    if isinstance(k, (c_interval.AddSub, c_interval.MulD)) and k.rhs in ("D", None):
        ax(eng, AX_E)
        a, b, o = DV(eng, c.a[0]), DV(eng, c.a[1]), k.out(c)
        (_, _, ra), (_, _, rb) = inside(c, a), inside(c, b)
        for (r, g) in ra:
            for (q, h) in rb:
                v = rmul(c.st, r, q) if isinstance(k, c_interval.MulD) else r + q if k.sign > 0 else r - q
                enclosed(c, o, v, z3.And(g, h))
    elif isinstance(k, c_interval.Recip):
        ax(eng, AX_E)
        for (r, g) in inside(c, DV(eng, c.a[0]))[2]:
            enclosed(c, k.out(c), rrc(c.st, r), g)


# ---------------------------------------------------------------- selectors
class SC_(AC):
    opaque = True

    def __init__(self, method, kind):
        def m(eng, fn):
            return fn["method"] == method and last(fn["trait"] or "") == "RootSelector" and fn["argc"] >= 1 and sel_kind(eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))) == kind
        super().__init__(f"alg::{kind}::{method}", m)


class GetInterval(SC_):
    def ensures(self, c):
        s = Sel(c.eng, c.st, c.a[0])
        o = DV(c.eng, c.r)
        x, y = bnd(c.st, o.lo, o.n), bnd(c.st, o.hi, o.n)
        return [Clause("ordered", wf(o)), Clause("encloses-result", z3.And(x <= s.t, s.t <= y), core=True)]


class ShrinkInterval(SC_):
    def ensures(self, c):
        return Sel(c.eng, c.st, c.n[0]).clauses(Sel(c.eng, c.st, c.a[0]))


class SelectRoot(SC_):
    def requires(self, c):
        s = Sel(c.eng, c.st, c.a[0])
        p, h = pol(c.eng, c.st, c.a[1])
        return [Clause("polynomial-not-zero", PN(h) >= 1), Clause("result-is-a-root", PEV(h, s.t) == 0)]

    def ensures(self, c):
        s = Sel(c.eng, c.st, c.a[0])
        r = num(c.eng, c.st, c.r)
        return out_num(c, r, [Clause("value", r.V == s.t)])


# ---------------------------------------------------------------- factors
def fac_seq(eng, v):
    """leaves of the list of factors"""
    for x in v.f:
        if isinstance(x, SSeq) and len(x.arrs) == 3:
            return x
    raise Unsupported("representation changed: factors")


class Factor(AC):
    """assumed (property N05)"""
    assumed = True

    def __init__(self):
        super().__init__("poly::factor", lambda eng, fn: fn["method"] == "factor" and fn["argc"] == 1 and poly_kind(eng, eng.prog.ty(eng.prog.deref_ty(fn["locals"][1]))) == "Z")

    def ensures(self, c):
        ax(c.eng, AX_F)
        p, h = pol(c.eng, c.st, c.a[0])
        q = fac_seq(c.eng, c.r)
        AA, LL, m = q.arrs[0], q.arrs[1], to_z(q.len)
        cl = [Clause("minimal", z3.Implies(PN(h) >= 1, ALLF(AA, LL, m)))]
        for t in c.st.ghost.get("targets", ()):
            cl.append(Clause("roots", z3.Implies(z3.And(PN(h) >= 1, PEV(h, t) == 0), HASF(AA, LL, m, t))))
        return cl


def nm(A, n):
    return PE(z3.simplify(A), z3.simplify(n))


def good(st, AA, LL, m):
    h = PE(z3.simplify(z3.Select(AA, 0)), z3.simplify(z3.Select(LL, 0)))
    return z3.And(STU(AA, LL, m), m >= 1, OKM(h)), h


def relate_factors(c, st, it, J, n, paths, src, seq):
    if len(seq.arrs) != 3 or seq.arrs[0].sort() != A3:
        return
    for (arrs, idx, s_) in src:
        if len(arrs) != 3 or arrs[0].sort() != A2 or cval(to_z(idx) - J) != 0:
            continue
        h = PE(z3.Select(arrs[0], J), z3.Select(arrs[1], J))

        def rel(e):
            v = e.f[0]
            if isinstance(v, Arr):
                return False
            g = PE(z3.Select(v.arrs[0], 0), z3.Select(v.arrs[1], 0))
            return z3.Implies(OKM(h), z3.And(STU(v.arrs[0], v.arrs[1], to_z(v.len)), to_z(v.len) >= 1, g == h))
        if iters.valid(paths, rel):
            st.assume(z3.Implies(ALLF(arrs[0], arrs[1], n), ALLQ(*seq.arrs, 0, n)))
            for t in st.ghost.get("targets", ()):
                st.assume(z3.Implies(z3.And(ALLF(arrs[0], arrs[1], n), HASF(arrs[0], arrs[1], n, t)), HASQ(*seq.arrs, 0, n, t)))
        return


AX_V = "reversing the coefficients of a polynomial with nonzero constant term: same number of coefficients; x != 0 is a root exactly when 1/x is a root of the reverse"


def relate_reverse(c, st, it, J, n, paths, src, seq):
    if len(seq.arrs) != 1 or seq.arrs[0].sort() != AR:
        return
    for p in st.ghost.get("polys", ()):
        A, B = p.arg(0), seq.arrs[0]
        if cval(p.arg(1) - n) != 0:
            continue
        if iters.valid(paths, lambda e: to_z(e) == z3.Select(A, n - 1 - J)):
            ax(c.eng, AX_V)
            g, g2 = name(c.eng, st, A, n), name(c.eng, st, B, n)
            st.assume(z3.Implies(n >= 1, z3.And(z3.Select(B, n - 1) == z3.Select(A, 0), z3.Select(B, 0) == z3.Select(A, n - 1))))
            for x in st.ghost.get("nums", ()):
                if x.h.eq(g):
                    st.assume(z3.Implies(z3.And(x.V != 0, z3.Select(A, 0) != 0), (PEV(g, x.V) == 0) == (PEV(g2, rrc(st, x.V)) == 0)))
            return


class FS:
    """sequence of Sturm sequences"""

    def __init__(self, eng, st, v, ety=None):
        if isinstance(v, Arr):
            if v.e:
                raise Unsupported("factors of known number")
            self.arrs, self.n = None, z3.IntVal(0)
        else:
            if not isinstance(v, SSeq) or len(v.arrs) != 3 or v.arrs[0].sort() != A3:
                raise Unsupported("factors")
            self.arrs, self.n = [z3.simplify(a) for a in v.arrs], to_z(v.len)
        self.eng, self.st = eng, st

    def elem(self, i):
        return [z3.simplify(z3.Select(a, i)) for a in self.arrs]

    def allq(self, lo, hi):
        if self.arrs is None:
            return z3.BoolVal(True)
        p = ALLQ(*self.arrs, lo, hi)
        st = self.st
        st.assume(z3.Implies(hi <= lo, p))
        g, h = good(st, *self.elem(lo))
        name(self.eng, st, z3.simplify(z3.Select(self.elem(lo)[0], 0)), z3.simplify(z3.Select(self.elem(lo)[1], 0)))
        st.assume(z3.Implies(lo < hi, p == z3.And(g, ALLQ(*self.arrs, z3.simplify(lo + 1), hi))))
        st.assume(z3.Implies(lo + 1 >= hi, ALLQ(*self.arrs, z3.simplify(lo + 1), hi)))
        b = self.popped(hi)
        if b is not None:
            g, _ = good(st, *b[1])
            st.assume(p == z3.And(g, ALLQ(*b[0], lo, z3.simplify(hi - 1))))
            st.assume(z3.Implies(lo >= hi - 1, ALLQ(*b[0], lo, z3.simplify(hi - 1))))
        return p

    def hasq(self, lo, hi, t):
        if self.arrs is None:
            return z3.BoolVal(False)
        p = HASQ(*self.arrs, lo, hi, t)
        st = self.st
        st.assume(z3.Implies(hi <= lo, z3.Not(p)))
        g, h = good(st, *self.elem(lo))
        st.assume(z3.Implies(lo < hi, p == z3.Or(PEV(h, t) == 0, HASQ(*self.arrs, z3.simplify(lo + 1), hi, t))))
        st.assume(z3.Implies(lo + 1 >= hi, z3.Not(HASQ(*self.arrs, z3.simplify(lo + 1), hi, t))))
        b = self.popped(hi)
        if b is not None:
            g, h = good(st, *b[1])
            st.assume(p == z3.Or(PEV(h, t) == 0, HASQ(*b[0], lo, z3.simplify(hi - 1), t)))
            st.assume(z3.Implies(lo >= hi - 1, z3.Not(HASQ(*b[0], lo, z3.simplify(hi - 1), t))))
        return p

    def popped(self, hi):
        """(arrays without the element stored last, that element) when the arrays end in a store at hi - 1"""
        if all(z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and cval(a.arg(1) - (hi - 1)) == 0 for a in self.arrs):
            return [a.arg(0) for a in self.arrs], [a.arg(2) for a in self.arrs]
        return None


def selector(l):
    for i, ti in enumerate(l.fr.fn["locals"]):
        if 1 <= i <= l.fr.fn["argc"] and sel_kind(l.eng.prog.ty(ti)):
            return Sel(l.eng, l.st, l.eng.snap(l.st, l.st.heap[l.fr.locals[i]]))
    raise Unsupported("loop invariant: no selector")


class SelLoop(LoopSpec):
    """the factors that may vanish at the result"""
    name = "candidates"

    def ghost0(self, l):
        if "s0" not in l.rec:
            l.rec["s0"] = selector(l)
        return {}

    def inv(self, l):
        s0, s = l.rec["s0"], selector(l)
        f = FS(l.eng, l.st, l.v("factors"))
        t = s0.t
        return s.clauses(s0) + [Clause("minimal", f.allq(z3.IntVal(0), f.n)), Clause("result-among-roots", f.hasq(z3.IntVal(0), f.n, t))]


class FilterLoop(LoopSpec):
    name = "filter"

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        l.rec.setdefault("t", selector(l).t)
        d = DV(l.eng, l.v("interval"))
        l.rec["x"], l.rec["y"] = bnd(l.st, d.lo, d.n), bnd(l.st, d.hi, d.n)
        return {}

    def count(self, l, AA, LL, m):
        q = Seq(l.eng, l.st, SSeq(None, m, [AA, LL]))
        x, y = l.rec["x"], l.rec["y"]
        return q.at(l.st, x) - q.at(l.st, y) + z3.If(PEV(q.h, x) == 0, 1, 0)

    def inv(self, l):
        st = l.st
        it = st.read(c_poly.hdr_iter(l))
        if not isinstance(it, It) or it.kind != "vec":
            raise Unsupported("iterator shape")
        D, pos, n = FS(l.eng, st, it.d["seq"]), to_z(it.d["pos"]), to_z(it.d["end"])
        K = FS(l.eng, st, l.v("factors"))
        t, r = l.rec["t"], l.z("roots_left")
        Z = z3.IntVal(0)
        cl = [Clause("index", z3.And(0 <= pos, pos <= n, n == D.n, K.n >= 0)), Clause("remaining-minimal", D.allq(pos, n)), Clause("kept-minimal", K.allq(Z, K.n)),
              Clause("result-among-roots", z3.Or(D.hasq(pos, n, t), K.hasq(Z, K.n, t))), Clause("at-least-one-root-each", z3.And(r >= K.n, z3.Implies(K.n == 0, r == 0)))]
        if K.arrs is not None:
            cl.append(Clause("single-count", z3.Implies(K.n == 1, r == self.count(l, *K.elem(0)))))
        return cl

    def lemmas(self, l):
        l.st.assume(l.z("roots_left") <= 1 << 60)


def contracts():
    return [Factor()] + [k(m, s) for s in ("add", "mul", "recip") for k, m in ((GetInterval, "get_interval"), (ShrinkInterval, "shrink_interval"), (SelectRoot, "select_root"))]


def loopspecs():
    f = lambda fn: fn["method"] == "select_root" and "RootSelector" in fn["path"]
    return {f: {0: SelLoop(), 1: FilterLoop()}}


def sel_inv(eng, v, st):
    t = eng.prog.ty(v.ty)
    if st is None or not sel_kind(t):
        return None
    return Sel(eng, st, v).own()


sel_inv.with_state = True


def fresh_sel(eng, st, t, name_):
    if not sel_kind(t):
        return None
    outs = eng.fresh_list(st, [(f"{name_}.{fn}", fi) for fn, fi in t["variants"][0]["fields"]])
    out = []
    for (s1, fs) in outs:
        v = Adt(t["id"], 0, fs)
        s1.assume(Sel(eng, s1, eng.snap(s1, v)).own())
        out.append((s1, v))
    return out


def install(m):
    m.relate_hooks.append(relate_factors)
    m.relate_hooks.append(relate_reverse)
    m.post_hooks.append(enclose)
    m.fresh_hooks.insert(0, fresh_sel)
    m.inv_hooks.insert(0, sel_inv)
