"""Contracts on DyadicFractionInterval::pow: enclosure of every member's power.

SP(P, x, e) is the scaled power P*(x/P)^e over the reals (P = 2^log2_denom)."""
import z3
from values import *
from engine import Contract, Clause
from loops import LoopSpec
from models import last
from c_interval import DC, DV, R, wf, frame_n, is_d

SP = z3.Function("spow", z3.RealSort(), z3.RealSort(), z3.IntSort(), z3.RealSort())
AX = ("scaled real power SP(P,x,e) = P*(x/P)^e for integer e >= 0: SP(x,0)=P, SP(x,1)=x, SP(x,2k)=SP(x*x/P,k), SP(x,2k+1)=x/P*SP(x*x/P,k), "
      "monotone and non-negative on x >= 0, SP(-x,e) = +/-SP(x,e) by parity")


def mono(st, P, x, y, e):
    st.assume(z3.Implies(z3.And(0 <= x, x <= y), z3.And(0 <= SP(P, x, e), SP(P, x, e) <= SP(P, y, e))))


def base_facts(st, P, x, e):
    st.assume(z3.Implies(e == 0, SP(P, x, e) == P))
    st.assume(z3.Implies(e == 1, SP(P, x, e) == x))
    st.assume(z3.Implies(x >= 0, SP(P, x, e) >= 0))


class PowD(DC):
    inline = True        # callers cannot use a postcondition about an arbitrary member

    def __init__(self):
        super().__init__("ipow::pow", "pow", "Pow")

    def requires(self, c):
        t = c.eng.prog.ty(c.eng.prog.deref_ty(c.fn["trait_args"][1]))
        if t["k"] == "int" and t["signed"]:
            return [Clause("negatable", cmpop("gt", c.a[1], -(1 << (t["bits"] - 1))))]
        return []

    def panics(self, c):
        a = self.self_(c)
        return band(cmpop("lt", c.a[1], 0), cmpop("le", a.lo, 0), cmpop("ge", a.hi, 0))

    def ensures(self, c):
        a, o = self.self_(c), self.out(c)
        st = c.st
        e = to_z(c.a[1])
        P = R(st.pow2(a.n))
        c.eng.used_axioms.add(AX)
        out = [frame_n(a, o), Clause("zeroth", z3.Implies(e == 0, z3.And(R(o.lo) == P, R(o.hi) == P)))]
        lo, hi, ol, oh = R(a.lo), R(a.hi), R(o.lo), R(o.hi)
        X = st.fresh_real("member")
        for sgn in (1, -1):
            ae = e if sgn == 1 else -e
            if sgn == 1:
                Y, hy = X, [lo <= X, X <= hi, e >= 1]
            else:
                Y = st.fresh_real("recip")
                hy = [lo <= X, X <= hi, e <= -1, X * Y == P * P]
                if not c.assuming:
                    rec = st.ghost.get("recip", ())
                    if rec:
                        r = rec[-1]
                        out.append(Clause("reciprocal-member", z3.And(R(r.lo) <= Y, Y <= R(r.hi)), hyps=hy, export=False, lemma=True))
            ent = None if c.assuming else st.ghost.get("powentry")
            M = z3.If(Y < 0, -Y, Y)
            par = st.floor_div(ae, 2)
            st.assume(z3.Implies(z3.And(ae >= 1, ae == 2 * to_z(par)), SP(P, Y, ae) == SP(P, M, ae)))
            st.assume(z3.Implies(z3.And(ae >= 1, ae == 2 * to_z(par) + 1), SP(P, Y, ae) == z3.If(Y < 0, -SP(P, M, ae), SP(P, M, ae))))
            base_facts(st, P, Y, ae)
            base_facts(st, P, M, ae)
            if ent is not None:
                bl, bu, e0 = ent
                for b in (bl, bu):
                    mono(st, P, M, b, ae)
                    mono(st, P, b, M, ae)
                    st.assume(z3.Implies(e0 == ae, SP(P, b, e0) == SP(P, b, ae)))
            nm = "" if sgn == 1 else "-of-reciprocal"
            out.append(Clause("encloses-power" + nm + "/lower", ol <= SP(P, Y, ae), hyps=hy, lemma=True))
            out.append(Clause("encloses-power" + nm + "/upper", SP(P, Y, ae) <= oh, hyps=hy, lemma=True))
            # the lower end point is a member (and has a reciprocal, as zero is not one)
            out.append(Clause("ordered" + nm, wf(o), hyps=hy + [X == lo]))
        out.append(Clause("ordered-zeroth", wf(o), hyps=[e == 0]))
        return out


class PowLoop(LoopSpec):
    name = "square-and-multiply"
    vars = ("exponent", "base_lower_bound_numer", "base_upper_bound_numer")

    def ghost0(self, l):
        e0 = to_z(l.v("exponent"))
        bl, bu = R(l.v("base_lower_bound_numer")), R(l.v("base_upper_bound_numer"))
        l.st.ghost["powentry"] = (bl, bu, e0)
        return {}

    def parts(self, l):
        P = R(l.st.pow2(l.v("log2_denom")))
        return (P, to_z(l.v("exponent")), R(l.v("base_lower_bound_numer")), R(l.v("base_upper_bound_numer")),
                R(l.v("retval_lower_bound_numer")), -R(l.v("neg_retval_upper_bound_numer")))

    def inv(self, l):
        P, E, BL, BU, RL, RU = self.parts(l)
        bl, bu, e0 = l.st.ghost["powentry"]
        opp = to_z(l.v("bounds_have_opposite_signs"))
        l.eng.used_axioms.add(AX)
        for (x, e) in ((bl, e0), (bu, e0), (BL, E), (BU, E)):
            base_facts(l.st, P, x, e)
        return [Clause("exponent-positive", E >= 1), Clause("non-negative", z3.And(BL >= 0, BU >= 0, RL >= 0, RU >= 0)),
                Clause("upper", RU * SP(P, BU, E) >= P * SP(P, bu, e0)),
                Clause("lower", z3.Implies(z3.Not(opp), RL * SP(P, BL, E) <= P * SP(P, bl, e0))),
                Clause("lower-opposite", z3.Implies(opp, RL * SP(P, BL, E) >= P * SP(P, bl, e0)))]

    def lemmas(self, l):
        P, E, BL, BU, RL, RU = self.parts(l)
        st = l.st
        h = to_z(st.floor_div(E, 2))
        for b in (BL, BU):
            q = st.fresh_real("sq")
            st.assume(q * P == b * b)
            st.ghost["sq"] = st.ghost.get("sq", ()) + ((b, q),)
            st.assume(z3.Implies(z3.And(E == 2 * h), SP(P, b, E) == SP(P, q, h)))
            st.assume(z3.Implies(z3.And(E == 2 * h + 1), P * SP(P, b, E) == b * SP(P, q, h)))
            base_facts(st, P, q, h)
            base_facts(st, P, b, E)

    def on_back(self, l):
        P, E, BL, BU, RL, RU = self.parts(l)
        st = l.st
        (b1, q1), (b2, q2) = st.ghost["sq"][-2:]
        mono(st, P, q2, BU, E)
        mono(st, P, BL, q1, E)
        mono(st, P, q1, BL, E)


def contracts():
    return [PowD()]


def loopspecs():
    def pw(fn):
        return fn["method"] == "pow" and fn["crate"] == "algebraics" and fn["trait"] and last(fn["trait"]) == "Pow" and "blocks" in fn
    return {pw: {0: PowLoop()}}
