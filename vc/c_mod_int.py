"""Contracts on mod_int.rs: canonical representatives in Z/m, inverses, powers."""
import re
import z3
from values import *
from engine import Contract, Clause
from loops import LoopSpec
from models import last, gcd_of, opt, one
import models as M

MI = "ModularInteger"
PM = z3.Function("powmod", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # b^e mod m
MM = z3.Function("mulmod", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())   # a*b mod m


def is_mi(eng, ti):
    t = eng.prog.ty(eng.prog.deref_ty(ti))
    return t["k"] == "adt" and last(t["path"]) == MI


def modval(eng, v, ty=None):
    """the integer a modulus value denotes"""
    if isc(v) or isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, Adt):
        t = eng.prog.ty(v.ty)
        nm = last(t["path"])
        m = re.fullmatch(r"Mod(\d+)", nm)
        if m:
            return int(m.group(1))
        if nm in ("KnownPrime", "KnownOdd", "Cow") and v.f:
            return modval(eng, v.f[0])
    if isinstance(v, Clo) or isinstance(v, Opq):
        if ty is not None:
            m = re.search(r"Mod(\d+)", ty["name"])
            if m:
                return int(m.group(1))
    raise Unsupported(f"modulus view of {v}")


class MV:
    def __init__(self, eng, v):
        t = eng.prog.ty(v.ty)
        names = [f[0] for f in t["variants"][0]["fields"]]
        try:
            self.v = v.f[names.index("value")]
            self.m = modval(eng, v.f[names.index("modulus")], eng.prog.ty(t["variants"][0]["fields"][names.index("modulus")][1]))
        except ValueError:
            raise Unsupported("ModularInteger representation changed")


def fresh_hook(eng, st, t, name):
    if last(t["path"]) != MI:
        return None
    res = []
    for (s1, fs) in eng.fresh_list(st, [(f"{name}.{fn}", fi) for fn, fi in t["variants"][0]["fields"]]):
        v = Adt(t["id"], 0, fs)
        d = MV(eng, v)
        s1.assume(band(cmpop("ge", d.m, 1), cmpop("ge", d.v, 0), cmpop("lt", d.v, d.m)))
        res.append((s1, v))
    return res


def inv_hook(eng, v):
    if last(eng.prog.ty(v.ty).get("path", "")) != MI:
        return None
    d = MV(eng, v)
    return band(cmpop("ge", d.m, 1), cmpop("ge", d.v, 0), cmpop("lt", d.v, d.m))


def floor_facts(st, n, d):
    """consequences of the definition of floor division for small quotients (d >= 1)"""
    q = st.floor_div(n, d)
    if isc(q):
        return q
    n, d = to_z(n), to_z(d)
    for k in (-1, 0, 1, 2):
        st.assume(z3.Implies(z3.And(d >= 1, n < k * d), q < k))
        st.assume(z3.Implies(z3.And(d >= 1, n >= k * d), q >= k))
    return q


def residue(st, x, m):
    floor_facts(st, x, m)
    return st.mod_floor(x, m)


def canon(st, r, x, m, lab=""):
    """r is the representative of x in [0, m)"""
    return [Clause("canonical" + lab, cmpop("eq", r, residue(st, x, m))), Clause("range" + lab, band(cmpop("ge", r, 0), cmpop("lt", r, m)))]


def ring_spec(st, op, a, b, m, r):
    """exact result for reduced operands"""
    if op == "add":
        x = add(a, b)
        residue(st, x, m)
        return [Clause("sum", to_z(r) == ite(cmpop("lt", x, m), x, sub(x, m))), Clause("range", band(cmpop("ge", r, 0), cmpop("lt", r, m)))]
    if op == "sub":
        x = sub(a, b)
        residue(st, add(x, m), m)
        return [Clause("difference", to_z(r) == ite(cmpop("ge", x, 0), x, add(x, m))), Clause("range", band(cmpop("ge", r, 0), cmpop("lt", r, m)))]
    if op == "neg":
        return [Clause("negation", to_z(r) == ite(cmpop("eq", a, 0), 0, sub(m, a))), Clause("range", band(cmpop("ge", r, 0), cmpop("lt", r, m)))]
    return canon(st, r, mul(a, b), m)


def reduced(v, m, lab):
    return Clause("reduced-" + lab, band(cmpop("ge", v, 0), cmpop("lt", v, m)))


class Form(Contract):
    """ModularReduce::modular_{add,sub,mul,neg}_*"""

    def __init__(self, name, op, method):
        self.name, self.op, self.method = name, op, method

    def matches(self, eng, fn):
        return fn["crate"] == "algebraics" and last(fn["trait"]) == "ModularReduce" and fn["method"] == self.method

    def mod(self, c):
        i = len(c.a) - 1
        return modval(c.eng, c.a[i], c.aty(i))

    def requires(self, c):
        m = self.mod(c)
        out = [Clause("modulus-positive", cmpop("ge", m, 1)), reduced(c.a[0], m, "lhs")]
        if self.op != "neg":
            out.append(reduced(c.a[1], m, "rhs"))
        return out

    def ensures(self, c):
        m = self.mod(c)
        r = c.n[0] if c.n[0] is not None else c.r
        return ring_spec(c.st, self.op, c.a[0], c.a[1] if self.op != "neg" else None, m, r)


class Reduce(Contract):
    def __init__(self, name, method, assign):
        self.name, self.method, self.assign = name, method, assign

    def matches(self, eng, fn):
        return fn["crate"] == "algebraics" and last(fn["trait"]) == "ModularReduce" and fn["method"] == self.method

    def requires(self, c):
        return [Clause("modulus-positive", cmpop("ge", modval(c.eng, c.a[1], c.aty(1)), 1))]

    def ensures(self, c):
        m = modval(c.eng, c.a[1], c.aty(1))
        return canon(c.st, c.n[0] if self.assign else c.r, c.a[0], m)


class ToModulus(Contract):
    inline = True

    def __init__(self, name, method, trait="Modulus"):
        self.name, self.method, self.trait = name, method, trait

    def matches(self, eng, fn):
        return fn["crate"] == "algebraics" and last(fn["trait"]) == self.trait and fn["method"] == self.method

    def ensures(self, c):
        if self.method == "get_modulus":
            ty = c.eng.prog.ty(c.fn["trait_args"][0])
            m = re.search(r"Mod(\d+)", ty["name"])
            if not m:
                raise Unsupported("static modulus")
            m = int(m.group(1))
        else:
            m = modval(c.eng, c.a[0], c.aty(0))
        return [Clause("denotes", cmpop("eq", modval(c.eng, c.r), m))]


class MiC(Contract):
    def __init__(self, name, method, trait=None):
        self.name, self.method, self.trait = name, method, trait

    def matches(self, eng, fn):
        if fn["crate"] != "algebraics" or fn["method"] != self.method:
            return False
        if self.trait is None:
            return not fn["trait"] and fn["self_ty"] >= 0 and is_mi(eng, fn["self_ty"])
        return last(fn["trait"]) == self.trait and fn["trait_args"] and is_mi(eng, fn["trait_args"][0])

    def out(self, c):
        return MV(c.eng, c.n[0] if c.n and c.n[0] is not None else c.r)


def same_mod(a, b):
    return cmpop("eq", a.m, b.m)


class Ring(MiC):
    def __init__(self, name, op, trait, method):
        super().__init__(name, method, trait)
        self.op = op

    def panics(self, c):
        if self.op == "neg" or self.method.startswith("checked"):
            return False
        return bnot(same_mod(MV(c.eng, c.a[0]), MV(c.eng, c.a[1])))

    def ensures(self, c):
        a = MV(c.eng, c.a[0])
        b = MV(c.eng, c.a[1]) if self.op != "neg" else None
        if self.method.startswith("checked"):
            if c.r.var == 0:
                return [Clause("none-only-on-mismatch", bnot(same_mod(a, b)))]
            r = MV(c.eng, c.r.f[0])
            pre = [Clause("some-only-on-match", same_mod(a, b))]
        else:
            r = self.out(c)
            pre = []
        return pre + [Clause("modulus", same_mod(a, r))] + ring_spec(c.st, self.op, a.v, b.v if b else None, a.m, r.v)


class New(MiC):
    """new / from_<int>: a[0] value, a[1] modulus"""

    def requires(self, c):
        return [Clause("modulus-positive", cmpop("ge", modval(c.eng, c.a[1], c.aty(1)), 1))]

    def ensures(self, c):
        m = modval(c.eng, c.a[1], c.aty(1))
        r = MV(c.eng, c.r)
        return [Clause("modulus", cmpop("eq", r.m, m))] + canon(c.st, r.v, c.a[0], m)


class FromPair(MiC):
    def ty2(self, c):
        return c.eng.prog.ty(c.aty(0)["ts"][1])

    def requires(self, c):
        return [Clause("modulus-positive", cmpop("ge", modval(c.eng, c.a[0].f[1], self.ty2(c)), 1))]

    def ensures(self, c):
        v, m = c.a[0].f[0], modval(c.eng, c.a[0].f[1], self.ty2(c))
        r = MV(c.eng, c.r)
        return [Clause("modulus", cmpop("eq", r.m, m))] + canon(c.st, r.v, v, m)


class IntoPair(MiC):
    def ensures(self, c):
        a = MV(c.eng, c.a[0])
        return [Clause("value", cmpop("eq", c.r.f[0], a.v)), Clause("modulus", cmpop("eq", modval(c.eng, c.r.f[1], c.eng.prog.ty(c.rty()["ts"][1])), a.m))]


class Access(MiC):
    def ensures(self, c):
        a = MV(c.eng, c.a[0])
        if self.method == "value":
            return [Clause("value", cmpop("eq", c.r, a.v))]
        if self.method == "modulus":
            return [Clause("modulus", cmpop("eq", modval(c.eng, c.r, c.eng.prog.ty(c.eng.prog.deref_ty(c.rty()["id"]))), a.m))]
        g = same_mod(a, MV(c.eng, c.a[1]))
        return [Clause("iff", to_z(c.r) == to_z(g))]


# ---------------------------------------------------------------- inverse, division
def no_inverse(st, d, m):
    return bor(cmpop("eq", d, 0), cmpop("ne", gcd_of(st, d, m), 1))


def inv_witness(c, d, m, r):
    """s with r*d == 1 + s*m"""
    if c.assuming:
        return c.st.fresh_int("invk")
    for (a, b, x, y) in c.st.ghost.get("bez", ()):
        if eqt(a, d) and eqt(b, m):
            q = c.st.floor_div(x, m)
            return sub(neg(y), mul(q, d))
        if eqt(b, d) and eqt(a, m):
            q = c.st.floor_div(y, m)
            return sub(neg(x), mul(q, d))
    for (rr, dd, mm, w) in c.st.ghost.get("invk", ()):
        if eqt(dd, d) and eqt(mm, m):
            return w
    return c.st.floor_div(sub(mul(r, d), 1), m)


def eqt(a, b):
    x = s(to_z(a) - to_z(b))
    return isc(x) and x == 0


def inverse_clauses(c, d, m, r):
    w = inv_witness(c, d, m, r)
    if c.assuming:
        c.st.ghost["invk"] = c.st.ghost.get("invk", ()) + ((r, d, m, w),)
    return [Clause("unit", bnot(no_inverse(c.st, d, m))), Clause("inverse", to_z(r) * to_z(d) == 1 + to_z(w) * to_z(m)),
            Clause("range", band(cmpop("ge", r, 0), cmpop("lt", r, m)))]


def fail_clauses(c, d, m):
    """reported failure: d really has no inverse mod m (m >= 2)"""
    st = c.st
    out = [Clause("fails-only-without-inverse", no_inverse(st, d, m))]
    if c.assuming or isc(d):
        return out
    g = to_z(gcd_of(st, d, m))
    za, zb = z3.simplify(to_z(d)), z3.simplify(to_z(m))
    if za.sexpr() > zb.sexpr():
        za, zb = zb, za
    b = st.memo.get(("bez", za.sexpr(), zb.sexpr()))
    if b is None:
        return out
    ka, kb = (b[0], b[1]) if za.eq(z3.simplify(to_z(d))) else (b[1], b[0])
    y, k = st.fresh_int("anyy"), st.fresh_int("anyk")
    w = y * ka - k * kb
    zd, zm = to_z(d), to_z(m)
    w0, w = w, st.fresh_int("anyw")
    out.append(Clause("common-factor", g * w0 == y * zd - k * zm, export=False))
    out.append(Clause("nontrivial-common-factor", g >= 2, hyps=[zm >= 2, zd != 0], export=False))
    out.append(Clause("no-inverse-exists", g * w != 1, hyps=[g >= 2], export=False, alone=True))
    return out


class Inverse(MiC):
    def panics(self, c):
        if self.method == "inverse":
            a = MV(c.eng, c.a[0])
            return no_inverse(c.st, a.v, a.m)
        return False

    def ensures(self, c):
        a = MV(c.eng, c.a[0])
        if self.method == "checked_inverse":
            if c.r.var == 0:
                return fail_clauses(c, a.v, a.m)
            r = MV(c.eng, c.r.f[0])
        else:
            r = MV(c.eng, c.r)
        return [Clause("modulus", same_mod(a, r))] + inverse_clauses(c, a.v, a.m, r.v)


class Division(MiC):
    """Div, DivAssign, CheckedDiv, ExactDiv, ExactDivAssign forms"""

    def bad(self, c):
        a, b = MV(c.eng, c.a[0]), MV(c.eng, c.a[1])
        return bor(bnot(same_mod(a, b)), no_inverse(c.st, b.v, b.m))

    def panics(self, c):
        return False if self.method.startswith("checked") else self.bad(c)

    def ensures(self, c):
        a, b = MV(c.eng, c.a[0]), MV(c.eng, c.a[1])
        m = self.method
        if m in ("checked_div", "checked_exact_div"):
            if c.r.var == 0:
                return [Clause("fails-only-without-inverse", self.bad(c))]
            r = MV(c.eng, c.r.f[0])
        elif m == "checked_exact_div_assign":
            r = MV(c.eng, c.n[0])
            if c.r.var == 1:
                return [Clause("fails-only-without-inverse", self.bad(c)), Clause("unchanged", band(cmpop("eq", r.v, a.v), same_mod(r, a)))]
        else:
            r = self.out(c)
        st = c.st
        # witness t with r*d == n + t*m
        t = None
        if c.assuming:
            t = st.fresh_int("divk")
            st.ghost["divk"] = st.ghost.get("divk", ()) + ((r.v, a.v, b.v, t),)
        else:
            for (rr, nn, dd, w) in st.ghost.get("divk", ()):
                if eqt(nn, a.v) and eqt(dd, b.v):
                    t = w
            if t is None:
                for (rr, dd, mm, w) in st.ghost.get("invk", ()):
                    if eqt(dd, b.v):
                        q = st.floor_div(mul(a.v, rr), a.m)
                        t = sub(mul(a.v, w), mul(q, b.v))
            if t is None:
                t = st.floor_div(sub(mul(r.v, b.v), a.v), a.m)
        return [Clause("unit", bnot(self.bad(c))), Clause("modulus", same_mod(a, r)), Clause("quotient", to_z(r.v) * to_z(b.v) == to_z(a.v) + to_z(t) * to_z(a.m)),
                Clause("range", band(cmpop("ge", r.v, 0), cmpop("lt", r.v, r.m)))]


# ---------------------------------------------------------------- power
AX = "b^e mod m: recursion on the binary digits of e (b^0=1, b^1=b, b^(2k)=(b*b)^k, b^(2k+1)=b*(b*b)^k), congruence in b, associativity of multiplication mod m"


class PowMod(Contract):
    def __init__(self):
        self.name, self.method = "powmod::pow_modular_reduce", "pow_modular_reduce"

    def matches(self, eng, fn):
        return fn["crate"] == "algebraics" and last(fn["trait"]) == "ModularReducePow" and fn["method"] == self.method

    def requires(self, c):
        return [Clause("modulus-positive", cmpop("ge", modval(c.eng, c.a[2], c.aty(2)), 1)), Clause("exponent-nonnegative", cmpop("ge", c.a[1], 0))]

    def ensures(self, c):
        b, e, m = to_z(c.a[0]), to_z(c.a[1]), to_z(modval(c.eng, c.a[2], c.aty(2)))
        st = c.st
        c.eng.used_axioms.add(AX)
        bm = to_z(residue(st, b, m))
        st.assume(PM(b, e, m) == PM(bm, e, m))
        one_ = to_z(residue(st, 1, m))
        st.assume(z3.Implies(e == 0, PM(bm, e, m) == one_))
        st.assume(z3.Implies(e == 1, PM(bm, e, m) == bm))
        return [Clause("power", to_z(c.r) == PM(b, e, m)), Clause("range", z3.And(to_z(c.r) >= 0, to_z(c.r) < m))]


def m_modpow(c):
    """BigInt/BigUint::modpow (trusted): self^e mod m in [0, m) for m > 0, e >= 0"""
    b, e, m = c.val(0), c.val(1), c.val(2)
    out = []
    for (s2, ok) in c.eng.fork_bool(c.st, band(cmpop("ge", e, 0), cmpop("ge", m, 1)), "modpow:"):
        if not ok:
            c.on_panic(s2, "modpow of negative exponent or zero modulus")
            continue
        r = PM(to_z(b), to_z(e), to_z(m))
        s2.assume(z3.And(r >= 0, r < to_z(m)))
        out.append((s2, r))
    return out


def install(models):
    M.INT_INHERENT["modpow"] = m_modpow


class PowLoop(LoopSpec):
    name = "square-and-multiply"
    vars = ()

    def opt(self, l):
        for (nm, pl, ai) in l.fr.fn["dbg"]:
            if nm == "retval" and l.eng.prog.ty(l.fr.fn["locals"][pl[0]])["k"] == "adt":
                return l.st.heap[l.fr.locals[pl[0]]]
        raise Unsupported("no accumulator")

    def parts(self, l):
        exps = [pl for (nm, pl, ai) in l.fr.fn["dbg"] if nm == "exponent" and l.eng.prog.ty(l.fr.fn["locals"][pl[0]])["k"] != "ref"]
        mods = [pl for (nm, pl, ai) in l.fr.fn["dbg"] if nm == "modulus" and l.eng.prog.ty(l.fr.fn["locals"][pl[0]])["k"] == "int"]
        if not exps:
            raise Unsupported("no exponent variable")
        E = to_z(l.st.heap[l.fr.locals[exps[-1][0]]])
        m = None
        for pl in reversed(mods):
            v = l.st.heap[l.fr.locals[pl[0]]]
            if isc(v) or isinstance(v, z3.ExprRef):
                m = to_z(v)
                break
        if m is None:
            raise Unsupported("no modulus variable")
        return to_z(l.v("base")), E, m

    def goal0(self, l):
        """spec value PM(self mod m, e0, m)"""
        st = l.st
        fr = l.fr
        b0 = to_z(l.eng.snap(st, st.heap[fr.locals[1]]))
        e0 = to_z(l.eng.snap(st, st.heap[fr.locals[2]]))
        return b0, e0

    def inv(self, l):
        B, E, m = self.parts(l)
        b0, e0 = self.goal0(l)
        st = l.st
        st.assume(PM(b0, e0, m) == PM(to_z(residue(st, b0, m)), e0, m))
        P0 = PM(b0, e0, m)
        o = self.opt(l)
        out = [Clause("base-reduced", z3.And(B >= 0, B < m)), Clause("exponent-positive", E >= 1)]
        if o.var == 0:
            out.append(Clause("invariant", PM(B, E, m) == P0))
        else:
            R = to_z(o.f[0])
            out += [Clause("acc-reduced", z3.And(R >= 0, R < m)), Clause("invariant", MM(R, PM(B, E, m), m) == P0)]
        return out

    def lemmas(self, l):
        B, E, m = self.parts(l)
        st = l.st
        l.eng.used_axioms.add(AX)
        o = self.opt(l)
        h = to_z(st.floor_div(E, 2))
        BB = to_z(residue(st, B * B, m))
        P1 = PM(BB, h, m)
        st.assume(z3.Implies(E == 1, PM(B, E, m) == B))
        st.assume(z3.Implies(z3.And(E >= 2, E == 2 * h), PM(B, E, m) == P1))
        st.assume(z3.Implies(z3.And(E >= 2, E == 2 * h + 1), PM(B, E, m) == MM(B, P1, m)))
        if o.var == 1:
            R = to_z(o.f[0])
            RB = to_z(residue(st, R * B, m))
            st.assume(MM(R, B, m) == RB)
            st.assume(MM(R, MM(B, P1, m), m) == MM(RB, P1, m))


def contracts():
    out = []
    out.append(ToModulus("modint::modulus/to", "to_modulus"))
    out.append(ToModulus("modint::modulus/into", "into_modulus"))
    out.append(ToModulus("modint::modulus/static", "get_modulus", "StaticModulus"))
    for op in ("add", "sub", "mul"):
        for f in ("ref_assign", "move_assign", "ref_ref", "move_ref", "ref_move", "move_move"):
            out.append(Form(f"modint::{op}/{f}", op, f"modular_{op}_{f}"))
    for f in ("assign", "ref", "move"):
        out.append(Form(f"modint::neg/{f}", "neg", f"modular_neg_{f}"))
    out.append(Reduce("modint::reduce_assign", "modular_reduce_assign", True))
    out.append(Reduce("modint::reduce", "modular_reduce", False))
    for t in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bigint biguint".split():
        out.append(Reduce(f"modint::reduce_from_{t}", f"modular_reduce_from_{t}", False))
        out.append(New(f"modint::from_{t}", f"from_{t}"))
    out.append(New("modint::new", "new"))
    out.append(FromPair("modint::from_pair", "from", "From"))
    out.append(IntoPair("modint::into_pair", "into", "Into"))
    for a in ("value", "modulus", "has_matching_moduli"):
        out.append(Access(f"modint::{a}", a))
    for op, tr in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul")):
        out.append(Ring(f"modint::op_{op}", op, tr, op))
        out.append(Ring(f"modint::op_{op}_assign", op, tr + "Assign", op + "_assign"))
        out.append(Ring(f"modint::op_checked_{op}", op, "Checked" + tr, "checked_" + op))
    out.append(Ring("modint::op_neg", "neg", "Neg", "neg"))
    out.append(Ring("modint::op_neg_assign", "neg", None, "neg_assign"))
    out.append(Inverse("moddiv::checked_inverse", "checked_inverse"))
    out.append(Inverse("moddiv::inverse", "inverse"))
    for tr, me in (("Div", "div"), ("DivAssign", "div_assign"), ("CheckedDiv", "checked_div"), ("ExactDiv", "exact_div"), ("ExactDiv", "checked_exact_div"),
                   ("ExactDivAssign", "exact_div_assign"), ("ExactDivAssign", "checked_exact_div_assign")):
        out.append(Division(f"moddiv::{tr}::{me}", me, tr))
    out.append(PowMod())
    return out


def loopspecs():
    def pw(fn):
        return fn["method"] == "pow_modular_reduce" and fn["crate"] == "algebraics"
    return {pw: {0: PowLoop()}}
