"""The cache of constants: any history of requests, any number of threads.

CIF(x): the cache index of precision x; REQ(i): the precision stored at index i (the largest x with CIF(x) <= i).
A thread sees the shared vector only through the lock: whatever it reads is an arbitrary vector satisfying the invariant
`every entry i has precision REQ(i), encloses the constant and is at most two units wide`, and whatever it stores has to satisfy it
(at an arbitrary index K)."""
import z3
import math
import models as M
import iters
import c_trans
import c_poly
from values import *
from engine import Contract, Clause, VEC, ARC
from loops import LoopSpec
from models import last
from c_interval import DC, DV, wf, R
from c_trans import meth, LN2, sqrt2, MAXP, MAXQ, ln2_facts

I, RS = z3.IntSort(), z3.RealSort()
CIF = z3.Function("CIF", I, I)
REQ = z3.Function("REQ", I, I)
VS = z3.Function("VS", RS, I, RS)       # v * 2^n
AX_FL = "f64: int-to-float, + and * by a positive constant, log2, floor and float-to-int are monotone functions; at known arguments they are computed"
AX_LK = "RwLock: a guard gives exclusive (write) or shared (read) access to a vector satisfying the invariant that every write is proved to establish; locks are not poisoned"
DIF = "algebraics::interval_arithmetic::DyadicFractionInterval"


# ---------------------------------------------------------------- floats
def fz(x):
    return z3.RealVal(str(__import__("fractions").Fraction(x))) if isinstance(x, float) else x


FN = {}


def float_app(st, op, *a):
    """monotone function of its only unknown argument"""
    st.eng.used_axioms.add(AX_FL)
    v = [x.x if isinstance(x, Fl) else x for x in a]
    known = all(isinstance(x, float) or isc(x) for x in v)
    if op == "of_int":
        r = float(v[0]) if known else z3.Function("f_of_int", I, RS)(to_z(v[0]))
        key, x = (op,), to_z(v[0])
    elif op.startswith("to_"):
        r = int(v[0]) if known else z3.Function("f_" + op, RS, I)(fz(v[0]))
        key, x = (op,), fz(v[0])
    elif op in ("log2", "floor"):
        r = (math.log2(v[0]) if op == "log2" else math.floor(v[0]) * 1.0) if known else z3.Function("f_" + op, RS, RS)(fz(v[0]))
        key, x = (op,), fz(v[0])
    else:
        if not known and not isinstance(v[1], float):
            v = [v[1], v[0]]
        if not isinstance(v[1], float) or op == "Mul" and v[1] <= 0:
            raise Unsupported("float operation")
        r = (v[0] + v[1] if op == "Add" else v[0] * v[1]) if known else z3.Function("f_" + op, RS, RS, RS)(fz(v[0]), fz(v[1]))
        key, x = (op, v[1]), fz(v[0])
    y = fz(r) if not op.startswith("to_") else to_z(r)
    for (k, x1, y1) in st.ghost.get("floats", ()):
        if k == key:
            st.assume(z3.And(z3.Implies(x1 <= x, y1 <= y), z3.Implies(x <= x1, y <= y1)))
    st.ghost["floats"] = st.ghost.get("floats", ()) + ((key, x, y),)
    return r if op.startswith("to_") else Fl(r)


def float_bin(st, op, a, b):
    return float_app(st, op, a, b)


# ---------------------------------------------------------------- index <-> precision
def ci(eng, st, x):
    x = to_z(x)
    y = CIF(x)
    st.assume(y >= 0)
    old = st.ghost.get("ci", ())
    if not any(o.eq(x) for o in old):
        for o in old:
            st.assume(z3.And(z3.Implies(o <= x, CIF(o) <= y), z3.Implies(x <= o, y <= CIF(o))))
        st.ghost["ci"] = old + (x,)
    return y


def ci_consts(eng, st):
    a, b = ci(eng, st, MAXQ), ci(eng, st, MAXP)
    st.assume(z3.And(a < b, a < 1 << 32))


def body(c, args):
    """[(state, result)] of a second execution of the function on other arguments (None: panics)"""
    s2 = c.st.fork()
    s2.frames = []
    out = []
    c.eng.push(s2, c.fn, args, None, None)
    c.eng.run(s2, lambda s, v: out.append((s, v)), lambda s, m: out.append((s, None)) if s.feasible() else None)
    return out


class Index(Contract):
    name = "cache::log2_denom_to_cache_index"
    optional = True

    def matches(self, eng, fn):
        return fn["path"].endswith("ConstantCache::log2_denom_to_cache_index")

    def ensures(self, c):
        st = c.st
        if c.assuming:
            st.ghost["index"] = st.ghost.get("index", ()) + (CIF(to_z(c.a[0])),)
            return [Clause("index", to_z(c.r) == ci(c.eng, st, c.a[0]))]
        y = st.fresh_int("other")
        st.assume(z3.And(y >= to_z(c.a[0]), y < 1 << 64))
        for (s, v) in body(c, [y]):
            c.eng.oblige(s, f"{self.name}/ensures/monotone", z3.BoolVal(False) if v is None else to_z(c.r) <= to_z(v))
        for (s, v) in body(c, [MAXQ]):
            for (s2, w) in body(c, [MAXP]):
                c.eng.oblige(s2, f"{self.name}/ensures/grows", z3.BoolVal(False) if v is None or w is None else band(cmpop("lt", v, w), cmpop("lt", v, 1 << 32)))
        return [Clause("nonnegative", cmpop("ge", c.r, 0))]


class Required(Contract):
    name = "cache::get_required_log2_denom_for_cache_index"
    optional = True

    def matches(self, eng, fn):
        return fn["path"].endswith("ConstantCache::get_required_log2_denom_for_cache_index")

    def requires(self, c):
        ci_consts(c.eng, c.st)
        return [Clause("index-bound", to_z(c.a[0]) <= CIF(z3.IntVal(MAXQ)))]

    def ensures(self, c):
        st = c.st
        i, r = to_z(c.a[0]), to_z(c.r)
        if c.assuming:
            xs = st.ghost.get("ci", ())
        else:
            xs = [st.ghost["any"]]
        cl = [Clause("bounded", r < MAXP), Clause("in-bucket", z3.Or(r == 0, ci(c.eng, st, r) <= i))] + [Clause("largest-of-bucket", z3.Implies(ci(c.eng, st, x) <= i, x <= r)) for x in xs]
        if c.assuming:
            cl.append(Clause("name", r == REQ(i)))
        return cl


class RequiredLoop(LoopSpec):
    name = "bits"

    def ghost0(self, l):
        st = l.st
        if "any" not in st.ghost:
            x = st.fresh_int("any_precision")
            st.assume(z3.And(x >= 0, x < 1 << 64))
            st.ghost["any"] = x
        return {}

    def inv(self, l):
        st = l.st
        ints = [(nm, l.v(nm)) for nm in ("bit", "retval", "cache_index")]
        b, r, c = [to_z(v) for (_, v) in ints]
        x = st.ghost["any"]
        st.ghost["mult"] = ((r, z3.simplify(2 * b), z3.BoolVal(True)),)
        k = LG(b)
        st.assume(z3.Implies(b == 1 << 63, POW(b)))
        st.assume(z3.Implies(POW(b), z3.And(b >= 1, z3.Or(b == 1, z3.And(b % 2 == 0, POW(b / 2))))))
        st.assume(z3.Implies(r == 0, ALIGN(r, 2 * b)))
        h = l.rec.get("head_b")
        if h is not None and not h[0].eq(b):
            pb, pr = h
            # r a multiple of 2p: r and r + p are multiples of p
            st.assume(z3.Implies(z3.And(ALIGN(pr, 2 * pb), pb == 2 * b), z3.And(ALIGN(pr, 2 * b), ALIGN(z3.simplify(pr + pb), 2 * b), z3.Implies(r == pr, ALIGN(r, 2 * b)), z3.Implies(r == pr + pb, ALIGN(r, 2 * b)))))
            st.assume(z3.Implies(z3.And(b == 0, r >= 0), ALIGN(r, 2 * b)))
        l.rec["head_b"] = (b, r)
        return [Clause("power-of-two", z3.Or(b == 0, POW(b))), Clause("aligned", z3.Or(b == 0, ALIGN(r, 2 * b))), Clause("fits", z3.And(0 <= r, b >= 0, b <= 1 << 63, r + 2 * b <= 1 << 64)),
                Clause("in-bucket", z3.Or(r == 0, ci(l.eng, st, r) <= c)), Clause("below", z3.Implies(ci(l.eng, st, x) <= c, x < r + z3.If(b == 0, 1, 2 * b)))]


POW = z3.Function("is_pow2", I, z3.BoolSort())
ALIGN = z3.Function("multiple_of", I, I, z3.BoolSort())
LG = z3.Function("lg", I, I)


# ---------------------------------------------------------------- the invariant
def vs(st, V, n):
    """V * 2^n"""
    n = to_z(n)
    t = VS(V, n)
    old = st.ghost.get("vs", ())
    if not any(o.eq(n) for o in old):
        st.assume(t == V * R(st.pow2(n)))
        for o in old:
            for (a, b) in ((o, n), (n, o)):
                d = z3.simplify(a - b)
                st.assume(z3.Implies(a >= b, z3.And(VS(V, a) == VS(V, b) * R(st.pow2(d)), st.pow2(d) >= 1, z3.Implies(a == b, st.pow2(d) == 1))))
        st.ghost["vs"] = old + (n,)
    return t


def entry(eng, st, d, i, V):
    """clauses of entry i"""
    q = REQ(i)              # the proved result of get_required_log2_denom_for_cache_index(i)
    st.assume(z3.Implies(z3.And(0 <= i, i <= CIF(z3.IntVal(MAXQ))), z3.And(0 <= q, q < MAXP, *[z3.Implies(ci(eng, st, x) <= i, x <= q) for x in st.ghost.get("ci", ())])))
    v = vs(st, V, REQ(i))
    return z3.And(d.n == REQ(i), R(d.lo) <= v, v <= R(d.hi), d.lo <= d.hi, d.hi - d.lo <= 2)


class E:
    def __init__(self, arrs, i, order):
        x = [z3.Select(a, i) for a in arrs]
        self.lo, self.hi, self.n = [x[k] for k in order]


def order(eng, ety):
    t = eng.prog.ty(ety)
    while t["path"] == ARC:
        t = eng.prog.ty(t["targs"][0])
    nm = [f[0] for f in t["variants"][0]["fields"]]
    try:
        return [nm.index(k) for k in ("lower_bound_numer", "upper_bound_numer", "log2_denom")]
    except ValueError:
        raise Unsupported("representation changed: interval")


def seq_inv(eng, st, q, i, V):
    """the invariant of the vector q at index i"""
    if isinstance(q, Arr) and not q.e:
        return z3.BoolVal(True)
    if isinstance(q, Arr):
        raise Unsupported("cache of known length")
    return z3.Implies(z3.And(0 <= i, i < to_z(q.len)), entry(eng, st, E(q.arrs, i, order(eng, q.ety)), i, V))


def skolem(st):
    if "K" not in st.ghost:
        k = st.fresh_int("K")
        st.assume(k >= 0)
        st.ghost["K"] = k
    return st.ghost["K"]


def guard(c, inner_ty, write):
    """a lock guard: a fresh vector satisfying the invariant"""
    eng, st = c.eng, c.st
    eng.used_axioms.add(AX_LK)
    V = st.ghost.get("constant")
    if V is None:
        raise Unsupported("lock outside the cache's contracts")
    out = []
    for (s1, q) in eng.fresh(st, inner_ty, "shared"):
        if not isinstance(q, SSeq):
            raise Unsupported("representation changed: cache")
        for i in s1.ghost.get("index", ()) + (skolem(s1),):
            s1.assume(seq_inv(eng, s1, q, i, V))
        ref = s1.alloc(q)
        if write:
            s1.ghost["written"] = s1.ghost.get("written", ()) + (ref,)
        rt = c.rty()
        out.append((s1, Adt(rt, 0, [ref])))
    return out


def m_lock(write):
    def h(c):
        t = c.eng.prog.ty(c.eng.prog.deref_ty(c.aty(0)))
        return guard(c, t["targs"][0], write)
    return h


class Get(Contract):
    optional = True
    raw_args = (0,)

    def __init__(self, name, owner, const):
        self.name, self.owner, self.const = name, owner, const

    def matches(self, eng, fn):
        if not fn["path"].endswith("ConstantCache::get") or fn["argc"] != 3:
            return False
        t = eng.prog.ty(fn["locals"][3])
        return t["k"] == "closure" and eng.prog.fns[t["inst"]]["path"].endswith(self.owner + "::{closure#0}") if t["k"] == "closure" else False

    def requires(self, c):
        st = c.st
        ln2_facts(c.eng, st)
        V = self.const(st)
        st.assume(V > 0)
        if not getattr(c, "calling", False):
            st.ghost["constant"] = V
            vs(st, V, c.a[1])
        ci_consts(c.eng, st)
        ci(c.eng, st, c.a[1])
        return [Clause("precision-bound", cmpop("le", c.a[1], MAXQ))]

    def ensures(self, c):
        st = c.st
        o, n = DV(c.eng, c.r), c.a[1]
        V = self.const(st)
        v = VS(V, to_z(n))
        st.assume(v == V * R(st.pow2(n)))
        cl = [Clause("precision", cmpop("eq", o.n, n)), Clause("ordered", wf(o)), Clause("encloses/lower", R(o.lo) <= v), Clause("encloses/upper", v <= R(o.hi)), Clause("width", to_z(o.hi) - to_z(o.lo) <= 2)]
        if not c.assuming:
            for ref in st.ghost.get("written", ()):
                cl.append(Clause("shared-invariant", seq_inv(c.eng, st, st.read(ref), skolem(st), V)))
        return cl


def conv(k, c):
    """outward rounding to fewer bits keeps the constant inside, and two units of width"""
    import c_interval
    if not isinstance(k, c_interval.Convert) or "constant" not in c.st.ghost:
        return
    st = c.st
    V = st.ghost["constant"]
    a, o = DV(c.eng, c.a[0]), k.out(c)
    n, m = to_z(a.n), to_z(o.n)
    va, vo = vs(st, V, n), vs(st, V, m)
    d = z3.simplify(n - m)
    p = R(st.pow2(d))
    al, ah, ol, oh = [R(x) for x in (a.lo, a.hi, o.lo, o.hi)]
    pn, pm = R(st.pow2(n)), R(st.pow2(m))
    eng = c.eng

    def lem(nm, hyps, goal):
        eng.oblige(st, f"{eng.cur}/convert/{nm}", goal, hyps=hyps, alone=True)
        st.assume(z3.Implies(z3.And(*hyps), goal))
    st.assume(z3.Implies(n >= m, z3.And(pn == pm * p, p >= 1, va == vo * p)))
    st.assume(pm >= 1)
    Al, Ah, Ol, Oh = [to_z(x) for x in (a.lo, a.hi, o.lo, o.hi)]
    P, Pn, Pm = st.pow2(d), st.pow2(n), st.pow2(m)
    base = [n >= m, Pn == Pm * P, Pm >= 1, P >= 1]
    st.assume(z3.Implies(n >= m, z3.And(*base)))
    lem("lower/integers", base + [Ol * Pn <= Al * Pm], Ol * P <= Al)
    lem("upper/integers", base + [Ah * Pm <= Oh * Pn], Ah <= Oh * P)
    lem("lower/slack", base + [Al * Pm < Ol * Pn + Pn], Al < (Ol + 1) * P)
    lem("upper/slack", base + [Oh * Pn - Pn < Ah * Pm], (Oh - 1) * P < Ah)
    lem("lower", [p >= 1, ol * p <= al, al <= va, va == vo * p], ol <= vo)
    lem("upper", [p >= 1, ah <= oh * p, va <= ah, va == vo * p], vo <= oh)
    lem("width", [P >= 1, Al < (Ol + 1) * P, (Oh - 1) * P < Ah, Ah - Al <= P + 1], Oh - Ol <= 2)


class FillLoop(LoopSpec):
    """entries below the requested one"""
    name = "fill"

    def vec(self, l):
        for i, ti in enumerate(l.fr.fn["locals"]):
            t = l.eng.prog.ty(ti)
            if t["k"] == "adt" and t["path"] == VEC:
                v = l.st.heap[l.fr.locals[i]]
                if isinstance(v, (SSeq, Arr)):
                    return v
        raise Unsupported("loop invariant: no vector")

    def ghost0(self, l):
        l.rec["hdr"] = l.fr.bb
        return {}

    def inv(self, l):
        q = self.vec(l)
        it = l.st.read(c_poly.hdr_iter(l))
        if isinstance(it, Adt) and len(it.f) >= 2:
            i, e = to_z(it.f[0]), to_z(it.f[1])
        else:
            raise Unsupported("iterator shape")
        V = l.st.ghost["constant"]
        ln = z3.IntVal(len(q.e)) if isinstance(q, Arr) else to_z(q.len)
        l.rec.setdefault("end", e)
        return [Clause("index", z3.And(0 <= i, i <= e, e == l.rec["end"])), Clause("length", ln == i), Clause("entries", seq_inv(l.eng, l.st, q, skolem(l.st), V))]


def relate_copy(c, st, it, J, n, paths, src, seq):
    """a copied sequence"""
    if "constant" not in st.ghost or len(seq.arrs) != 3:
        return
    for (arrs, idx, s_) in src:
        if len(arrs) != 3 or iters.cval(to_z(idx) - J) != 0:
            continue
        if iters.valid(paths, lambda e: z3.And(*[to_z(x) == z3.Select(a, J) for x, a in zip(c.eng.flatten(seq.ety, e), arrs)])):
            for i in st.ghost.get("index", ()) + (skolem(st),):
                st.assume(z3.Implies(z3.And(0 <= i, i < n), z3.And(*[z3.Select(b, i) == z3.Select(a, i) for a, b in zip(arrs, seq.arrs)])))
        return


class New(Contract):
    name = "cache::new"
    optional = True

    def matches(self, eng, fn):
        return fn["path"].endswith("ConstantCache::new") and fn["argc"] == 0

    def ensures(self, c):
        if c.assuming:
            return []
        q = c.r.f[0] if isinstance(c.r, Adt) and c.r.f else None
        while isinstance(q, (Tup, Adt)) and q.f:
            q = q.f[0]
        if not isinstance(q, (Arr, SSeq)):
            raise Unsupported("representation changed: cache")
        return [Clause("empty", cmpop("eq", len(q.e) if isinstance(q, Arr) else q.len, 0))]


def contracts():
    C = [Index(), Required(), New(), Get("cache::get<log 2>", "natural_log_of_2", lambda st: LN2), Get("cache::get<sqrt 2>", "sqrt_2", sqrt2)]
    return C


def loopspecs():
    p = lambda s: lambda fn: fn["path"].endswith("ConstantCache::" + s)
    return {p("get_required_log2_denom_for_cache_index"): {0: RequiredLoop()}, p("fill_cache"): {0: FillLoop()}}


def fresh_lock(eng, st, t, name_):
    if t["k"] == "adt" and t["path"] == "std::sync::RwLock":
        return [(st, Adt(t["id"], 0, [Opq("lock")]))]
    return None


def is_arc(t):
    return t["k"] == "adt" and t["path"] == ARC


def install(m):
    iters.install()
    m.fresh_hooks.insert(0, fresh_lock)
    m.relate_hooks.append(relate_copy)
    m.post_hooks.append(conv)
    m.float_app, m.float_bin = float_app, float_bin
    M.PATHS["std::sync::RwLock::<T>::read"] = m_lock(False)
    M.PATHS["std::sync::RwLock::<T>::write"] = m_lock(True)
    M.PATHS["std::sync::RwLock::<T>::new"] = lambda c: M.one(c, Adt(c.rty(), 0, [c.args[0]]))
    M.PATHS["std::f64::<impl f64>::log2"] = lambda c: M.one(c, float_app(c.st, "log2", c.args[0]))
    M.PATHS["std::f64::<impl f64>::floor"] = lambda c: M.one(c, float_app(c.st, "floor", c.args[0]))
    M.PATHS["std::sync::Arc::<T>::new"] = lambda c: M.one(c, c.args[0])
    for k, f in ((("Deref", "deref"), None), (("DerefMut", "deref_mut"), None), (("Clone", "clone"), None), (("From", "from"), None), (("Into", "into"), None)):
        wrap(k)


def wrap(k):
    old = M.ANY_TRAIT.get(k)

    def h(eng, fn, ta):
        t = eng.prog.ty(eng.prog.deref_ty(fn["trait_args"][0]))
        if is_arc(t) and k[1] in ("deref", "deref_mut"):
            return lambda c: M.one(c, c.args[0])
        if is_arc(t) and k[1] == "clone":
            return M.m_clone
        if k[1] in ("from", "into") and any(is_arc(x) for x in ta) and fn["argc"] == 1:
            return lambda c: M.one(c, c.args[0])
        if t["k"] == "adt" and last(t["path"]) in ("RwLockReadGuard", "RwLockWriteGuard") and k[1] in ("deref", "deref_mut"):
            return lambda c: M.one(c, c.st.read(c.args[0]))
        if old is None:
            return None
        return old(eng, fn, ta) if getattr(old, "_sel", False) else old
    h._sel = True
    M.ANY_TRAIT[k] = h
