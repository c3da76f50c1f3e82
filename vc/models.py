"""Trusted models: assumed contracts of num-bigint / num-rational / num-integer / std items.

Every entry here is part of the trusted base and is listed in the evidence when it is used.
"""
import z3
from values import *
from engine import int_range, Pushed, VEC

RATIO = "num_rational::Ratio"
GCD = z3.Function("gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())


def last(p):
    return p.rsplit("::", 1)[-1]


def strip(p):
    return p


class Models:
    def __init__(self):
        self.fresh_hooks = []
        self.inv_hooks = []
        self.lemma_hooks = []
        self.relate_hooks = []
        self.post_hooks = []

    def fresh_adt(self, eng, st, t, name):
        for h in self.fresh_hooks:
            r = h(eng, st, t, name)
            if r is not None:
                return r
        if t["path"] == RATIO:
            it = eng.prog.ty(t["targs"][0])
            outs = eng.fresh_list(st, [(name + ".n", it["id"]), (name + ".d", it["id"])])
            (s1, (n, d)) = outs[0]
            s1.assume(d >= 1)
            s1.assume(GCD(n, d) == 1)
            return [(s1, Adt(t["id"], 0, [n, d]))]
        return None

    def lookup(self, eng, fn):
        if "_model" in fn:
            return fn["_model"]
        m = self._lookup(eng, fn)
        fn["_model"] = m
        return m

    def _lookup(self, eng, fn):
        tr, me = last(fn["trait"]), fn["method"]
        ta = [eng.prog.ty(eng.prog.deref_ty(x)) for x in fn["trait_args"]]
        if tr and ta:
            allint = all(eng.is_intlike(x) for x in ta)
            anybig = any(eng.is_bigint(x) or eng.is_biguint(x) for x in ta)
            if allint and (anybig or (tr, me) in PRIM_TOO):
                h = INT_TRAIT.get((tr, me))
                if h:
                    return h
            if tr in ("From", "Into", "ToBigInt", "ToBigUint", "FromPrimitive", "ToPrimitive", "TryFrom", "TryInto", "NumCast", "AsPrimitive") and allint:
                h = INT_TRAIT.get((tr, me))
                if h:
                    return h
            if tr == "Sum" or tr == "Product":
                return None
            isr = [x["k"] == "adt" and x["path"] == RATIO for x in ta]
            if any(isr) and all(b or eng.is_intlike(x) for b, x in zip(isr, ta)):
                h = RATIO_TRAIT.get((tr, me))
                if h:
                    return h
            h = ANY_TRAIT.get((tr, me))
            if h:
                r = h(eng, fn, ta) if getattr(h, "_sel", False) else h
                if r:
                    return r
        p = fn["path"]
        h = PATHS.get(p)
        if h:
            return h
        for (pre, h) in PATH_PREFIX:
            if p.startswith(pre):
                return h
        if fn["kind"] == "intrinsic":
            h = INTRINSICS.get(me or last(p))
            if h:
                return h
        st = fn["self_ty"]
        if st >= 0:
            t = eng.prog.ty(st)
            if eng.is_intlike(t) and not fn["trait"]:
                h = INT_INHERENT.get(me)
                if h and (not eng.prog.ty(st)["k"] == "int" or me in PRIM_INH):
                    return h
            if t["k"] == "adt" and t["path"] == RATIO and not fn["trait"]:
                h = RATIO_INH.get(me)
                if h:
                    return h
            if t["k"] == "adt" and t["path"] == VEC and not fn["trait"]:
                h = VEC_INH.get(me)
                if h:
                    return h
            if t["k"] == "slice" and not fn["trait"]:
                h = SLICE_INH.get(me)
                if h:
                    return h
        return None


def opt(c, v=None):
    t = c.rty()
    if v is None:
        return Adt(t, 0, [])
    return Adt(t, 1, [v])


def one(c, v):
    return [(c.st, v)]


# ---------------------------------------------------------------- integers
def m_bin(f):
    def h(c):
        return one(c, f(c.val(0), c.val(1)))
    return h


def unsigned_check(c, v, ty):
    """BigUint subtraction underflow panics"""
    if not (c.eng.is_biguint(ty)):
        return [(c.st, v)]
    outs = []
    for (s2, ok) in c.eng.fork_bool(c.st, cmpop("ge", v, 0), "biguint>=0:"):
        if ok:
            outs.append((s2, v))
        else:
            c.on_panic(s2, "BigUint subtraction underflow")
    return outs


def m_sub(c):
    v = sub(c.val(0), c.val(1))
    return unsigned_check(c, v, c.eng.prog.ty(c.eng.prog.deref_ty(c.rty())))


def m_assign(f):
    def h(c):
        tgt = c.args[0]
        v = f(c)
        outs = []
        for (s2, x) in v:
            s2.write(tgt, x)
            outs.append((s2, Tup([])))
        return outs
    return h


def nz(c, d):
    """fork on divisor zero; yields live states"""
    outs = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", d, 0), "div0:"):
        if z:
            c.on_panic(s2, "division by zero")
        else:
            outs.append(s2)
    return outs


def minneg(c, a, b):
    """MIN / -1 on a signed machine type"""
    t = elt(c)
    if t["k"] == "int" and t["signed"]:
        return band(cmpop("eq", a, int_range(t)[0]), cmpop("eq", b, -1))
    return False


def div_live(c, a, b):
    """states in which the division does not panic"""
    outs = []
    for s2 in nz(c, b):
        for (s3, o) in c.eng.fork_bool(s2, minneg(c, a, b), "divovf:"):
            if o:
                c.on_panic(s3, "division overflow")
            else:
                outs.append(s3)
    return outs


def m_div(which):
    def h(c):
        a, b = c.val(0), c.val(1)
        return [(s2, getattr(s2, which)(a, b)) for s2 in div_live(c, a, b)]
    return h


def m_divpair(w1, w2):
    def h(c):
        a, b = c.val(0), c.val(1)
        return [(s2, Tup([getattr(s2, w1)(a, b), getattr(s2, w2)(a, b)])) for s2 in div_live(c, a, b)]
    return h


def m_checked_div(c, which):
    a, b = c.val(0), c.val(1)
    out = []
    for (s2, bad) in c.eng.fork_bool(c.st, bor(cmpop("eq", b, 0), minneg(c, a, b)), "chkdiv:"):
        out.append((s2, opt(c) if bad else opt(c, getattr(s2, which)(a, b))))
    return out


def m_shl(c):
    return one(c, mul(c.val(0), c.st.pow2(c.val(1))))


def m_shr(c):
    return one(c, c.st.floor_div(c.val(0), c.st.pow2(c.val(1))))


def m_cmp(op):
    def h(c):
        return one(c, cmpop(op, c.val(0), c.val(1)))
    return h


def m_ord(c):
    return c.eng.fork_cmp(c.st, c.val(0), c.val(1), c.rty())


def m_partial_cmp(c):
    rt = c.rty()
    oty = c.eng.prog.ty(rt)["variants"][1]["fields"][0][1]
    return c.eng.fork_cmp(c.st, c.val(0), c.val(1), oty, wrap=lambda x: Adt(rt, 1, [x]))


def m_minmax(is_max):
    def h(c):
        a, b = c.val(0), c.val(1)
        out = []
        for (s2, t) in c.eng.fork_bool(c.st, cmpop("le" if is_max else "gt", a, b), "max:"):
            out.append((s2, c.args[1] if t else c.args[0]))
        return out
    return h


def m_abs(c):
    a = c.val(0)
    return [(s2, a if t else neg(a)) for (s2, t) in c.eng.fork_bool(c.st, cmpop("ge", a, 0), "abs:")]


def m_signum(c):
    a = c.val(0)
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, cmpop("gt", a, 0), "pos:"):
        if t:
            out.append((s2, 1))
        else:
            for (s3, z) in c.eng.fork_bool(s2, cmpop("eq", a, 0), "zero:"):
                out.append((s3, 0 if z else -1))
    return out


def m_clone(c):
    return one(c, c.st.read(c.args[0]))


def m_clone_val(c):
    return one(c, c.val(0))


def gcd_of(st, a, b):
    if isc(a) and isc(b):
        import math
        return math.gcd(a, b)
    if isc(a) and a == 0 or isc(b) and b == 0:
        x = b if (isc(a) and a == 0) else a
        return z3.If(to_z(x) >= 0, to_z(x), -to_z(x))
    za, zb = z3.simplify(to_z(a)), z3.simplify(to_z(b))
    if za.sexpr() > zb.sexpr():
        za, zb = zb, za
    key = ("gcd", za.sexpr(), zb.sexpr())
    if key in st.memo:
        return st.memo[key]
    g = GCD(za, zb)
    ka, kb = st.fresh_int("ga"), st.fresh_int("gb")
    st.assume(g >= 0)
    st.assume(za == g * ka)
    st.assume(zb == g * kb)
    st.assume(z3.Implies(z3.Or(za != 0, zb != 0), g >= 1))
    st.assume(z3.Implies(z3.And(za == 0, zb == 0), g == 0))
    u, v = st.fresh_int("bu"), st.fresh_int("bv")
    st.assume(za * u + zb * v == g)
    st.memo[key] = g
    st.memo[("bez", za.sexpr(), zb.sexpr())] = (ka, kb, u, v)
    return g


def lcm_of(st, a, b):
    """least common multiple, >= 0; 0 when an operand is 0"""
    if isc(a) and isc(b):
        import math
        return abs(a * b) // math.gcd(a, b) if a and b else 0
    za, zb = z3.simplify(to_z(a)), z3.simplify(to_z(b))
    if za.sexpr() > zb.sexpr():
        za, zb = zb, za
    key = ("lcm", za.sexpr(), zb.sexpr())
    if key in st.memo:
        return st.memo[key]
    g = to_z(gcd_of(st, za, zb))
    l = st.fresh_int("lcm")
    p = za * zb
    st.assume(z3.Implies(z3.Or(za == 0, zb == 0), l == 0))
    st.assume(z3.Implies(z3.And(za != 0, zb != 0), l >= 1))
    st.assume(l >= 0)
    st.assume(z3.Or(l * g == p, l * g == -p))
    st.memo[key] = l
    return l


def fits_or_panic(c, vals, ty, mk):
    """machine results that do not fit: overflow (panics in debug builds)"""
    if ty["k"] != "int":
        return [(c.st, mk())]
    lo, hi = int_range(ty)
    ok = band(*[band(cmpop("ge", v, lo), cmpop("le", v, hi)) for v in vals])
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, ok, "fits:"):
        if t:
            out.append((s2, mk()))
        else:
            c.on_panic(s2, "arithmetic overflow in dependency")
    return out


def elt(c):
    return c.eng.prog.ty(c.eng.prog.deref_ty(c.aty(0)))


def m_gcd(c):
    g = gcd_of(c.st, c.val(0), c.val(1))
    return fits_or_panic(c, [g], elt(c), lambda: g)


def m_lcm(c):
    l = lcm_of(c.st, c.val(0), c.val(1))
    return fits_or_panic(c, [l], elt(c), lambda: l)


def m_gcd_lcm(c):
    g, l = gcd_of(c.st, c.val(0), c.val(1)), lcm_of(c.st, c.val(0), c.val(1))
    return fits_or_panic(c, [g, l], elt(c), lambda: Tup([g, l]))


def m_even(want):
    def h(c):
        r = c.st.mod_floor(c.val(0), 2)
        return one(c, cmpop("eq", r, want))
    return h


def m_multiple(c):
    a, b = c.val(0), c.val(1)
    out = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", b, 0), "mul0:"):
        if z:
            out.append((s2, cmpop("eq", a, 0)))
        else:
            out.append((s2, cmpop("eq", s2.mod_floor(a, b), 0)))
    return out


def m_to_prim(c):
    """int -> Option<prim>"""
    rt = c.eng.prog.ty(c.rty())
    it = c.eng.prog.ty(rt["variants"][1]["fields"][0][1])
    a = c.val(0)
    if it["k"] == "int":
        lo, hi = int_range(it)
        ok = band(cmpop("ge", a, lo), cmpop("le", a, hi))
    elif c.eng.is_biguint(it):
        ok = cmpop("ge", a, 0)
    elif c.eng.is_bigint(it):
        ok = True
    else:
        raise Unsupported("to_prim")
    return [(s2, opt(c, a) if t else opt(c)) for (s2, t) in c.eng.fork_bool(c.st, ok, "fits:")]


def m_try_from(c):
    rt = c.eng.prog.ty(c.rty())
    it = c.eng.prog.ty(rt["variants"][0]["fields"][0][1])
    a = c.val(0)
    if it["k"] == "int":
        lo, hi = int_range(it)
        ok = band(cmpop("ge", a, lo), cmpop("le", a, hi))
    elif c.eng.is_biguint(it):
        ok = cmpop("ge", a, 0)
    else:
        ok = True
    return [(s2, Adt(rt["id"], 0, [a]) if t else Adt(rt["id"], 1, [Opq("err")])) for (s2, t) in c.eng.fork_bool(c.st, ok, "fits:")]


def m_ident(c):
    return one(c, c.val(0))


POWX = None       # term for a symbolic power


def pow_term(st, base, e):
    """base^e for concrete e"""
    if isc(e):
        if e > 40:
            raise Unsupported("pow exponent")
        r = 1
        for _ in range(e):
            r = mul(r, base)
        return r
    if isc(base) and base == 2:
        return st.pow2(e)
    if POWX:
        return POWX(st, base, e)
    raise Unsupported("symbolic pow")


def m_pow(c):
    return one(c, pow_term(c.st, c.val(0), c.val(1)))


def m_sqrt(c):
    """floor sqrt of a nonneg integer (panics on negative)"""
    a = c.val(0)
    outs = []
    for (s2, ok) in c.eng.fork_bool(c.st, cmpop("ge", a, 0), "sqrt>=0:"):
        if not ok:
            c.on_panic(s2, "sqrt of negative")
            continue
        if isc(a):
            import math
            outs.append((s2, math.isqrt(a)))
            continue
        key = ("sqrt", a.sexpr())
        r = s2.memo.get(key)
        if r is None:
            r = s2.fresh_int("sqrt")
            s2.assume(r >= 0)
            s2.assume(r * r <= a)
            s2.assume(a < (r + 1) * (r + 1))
            s2.memo[key] = r
        outs.append((s2, r))
    return outs


def m_bits(c):
    a = c.val(0)
    if isc(a):
        return one(c, abs(a).bit_length())
    st = c.st
    outs = []
    for (s2, z) in c.eng.fork_bool(st, cmpop("eq", a, 0), "bits0:"):
        if z:
            outs.append((s2, 0))
            continue
        for (s3, pos) in c.eng.fork_bool(s2, cmpop("gt", a, 0), "bitspos:"):
            m = a if pos else neg(a)
            b = s3.fresh_int("bits")
            s3.assume(b >= 1)
            s3.assume(b < (1 << 62))
            p = s3.pow2(b)
            p1 = s3.pow2(b - 1)
            s3.assume(m < p)
            s3.assume(m >= p1)
            outs.append((s3, b))
    return outs


def m_is_zero(c):
    return one(c, cmpop("eq", c.val(0), 0))


def m_const(k):
    def h(c):
        return one(c, k)
    return h


def m_bigint_sign(c):
    rt = c.rty()
    a = c.val(0)
    names = [v["name"] for v in c.eng.prog.ty(rt)["variants"]]
    out = []
    for nm, f in (("Minus", cmpop("lt", a, 0)), ("NoSign", cmpop("eq", a, 0)), ("Plus", cmpop("gt", a, 0))):
        if isc(f):
            if f:
                return one(c, Adt(rt, names.index(nm), []))
            continue
        if c.st.feasible(f):
            s2 = c.st.fork()
            s2.assume(f)
            out.append((s2, Adt(rt, names.index(nm), [])))
    return out


def m_magnitude(by_ref):
    def h(c):
        a = c.val(0)
        out = []
        for (s2, t) in c.eng.fork_bool(c.st, cmpop("ge", a, 0), "mag:"):
            v = a if t else neg(a)
            out.append((s2, s2.alloc(v) if by_ref else v))
        return out
    return h


def ext_parts(c, rt):
    a, b = c.val(0), c.val(1)
    st = c.st
    g = gcd_of(st, a, b)
    x, y = st.fresh_int("egx"), st.fresh_int("egy")
    t = elt(c)
    if t["k"] == "int":
        lo, hi = int_range(t)
        st.assume(z3.And(x >= lo, x <= hi, y >= lo, y <= hi))
    st.assume(to_z(a) * x + to_z(b) * y == to_z(g))
    st.ghost["bez"] = st.ghost.get("bez", ()) + ((a, b, x, y),)
    names = [f[0] for f in c.eng.prog.ty(rt)["variants"][0]["fields"]]
    d = {"gcd": g, "x": x, "y": y}
    return g, Adt(rt, 0, [d.get(n, Opq(n)) for n in names])


def m_extgcd(c):
    """num_integer ExtendedGcd {gcd,x,y}: x*a + y*b == gcd"""
    g, v = ext_parts(c, c.rty())
    return fits_or_panic(c, [g], elt(c), lambda: v)


def m_extgcd_lcm(c):
    rt = c.eng.prog.ty(c.rty())
    g, v = ext_parts(c, rt["ts"][0])
    l = lcm_of(c.st, c.val(0), c.val(1))
    return fits_or_panic(c, [g, l], elt(c), lambda: Tup([v, l]))


def m_trailing_zeros_big(c):
    """BigUint/BigInt::trailing_zeros -> Option<u64>"""
    a = c.val(0)
    out = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", a, 0), "tz0:"):
        if z:
            out.append((s2, opt(c)))
            continue
        t = s2.fresh_int("tz")
        s2.assume(t >= 0)
        s2.assume(t < (1 << 62))
        p = s2.pow2(t)
        k = s2.fresh_int("tzk")
        s2.assume(to_z(a) == (2 * k + 1) * p)
        s2.ghost["tzk"] = s2.ghost.get("tzk", ()) + ((a, t, k),)
        out.append((s2, opt(c, t)))
    return out


PRIM_TOO = {("Clone", "clone"), ("Clone", "clone_from"), ("PartialOrd", "lt"), ("PartialOrd", "le"), ("PartialOrd", "gt"), ("PartialOrd", "ge"),
            ("PartialEq", "eq"), ("PartialEq", "ne"), ("Ord", "cmp"), ("PartialOrd", "partial_cmp"), ("Ord", "max"), ("Ord", "min"),
            ("Zero", "zero"), ("Zero", "is_zero"), ("One", "one"), ("One", "is_one"), ("Integer", "gcd"), ("Integer", "is_even"), ("Integer", "is_odd"),
            ("Integer", "div_floor"), ("Integer", "mod_floor"), ("Integer", "extended_gcd"), ("Integer", "lcm"), ("Integer", "is_multiple_of"), ("Integer", "divides"),
            ("Integer", "div_mod_floor"), ("Integer", "div_rem"), ("Integer", "extended_gcd_lcm"), ("Integer", "gcd_lcm"), ("CheckedDiv", "checked_div"), ("CheckedRem", "checked_rem"),
            ("Signed", "is_positive"), ("Signed", "is_negative"), ("Default", "default"), ("ToPrimitive", "to_usize")}


def prim_wrapres(h):
    return h


INT_TRAIT = {
    ("Add", "add"): m_bin(add), ("Sub", "sub"): m_sub, ("Mul", "mul"): m_bin(mul),
    ("Div", "div"): m_div("trunc_div"), ("Rem", "rem"): m_div("trunc_rem"),
    ("Neg", "neg"): lambda c: one(c, neg(c.val(0))),
    ("AddAssign", "add_assign"): m_assign(m_bin(add)),
    ("SubAssign", "sub_assign"): m_assign(lambda c: unsigned_check(c, sub(c.val(0), c.val(1)), c.eng.prog.ty(c.eng.prog.deref_ty(c.aty(0))))),
    ("MulAssign", "mul_assign"): m_assign(m_bin(mul)),
    ("DivAssign", "div_assign"): m_assign(m_div("trunc_div")),
    ("RemAssign", "rem_assign"): m_assign(m_div("trunc_rem")),
    ("Shl", "shl"): m_shl, ("Shr", "shr"): m_shr,
    ("ShlAssign", "shl_assign"): m_assign(m_shl), ("ShrAssign", "shr_assign"): m_assign(m_shr),
    ("PartialOrd", "lt"): m_cmp("lt"), ("PartialOrd", "le"): m_cmp("le"), ("PartialOrd", "gt"): m_cmp("gt"), ("PartialOrd", "ge"): m_cmp("ge"),
    ("PartialEq", "eq"): m_cmp("eq"), ("PartialEq", "ne"): m_cmp("ne"),
    ("Ord", "cmp"): m_ord, ("PartialOrd", "partial_cmp"): m_partial_cmp,
    ("Ord", "max"): m_minmax(True), ("Ord", "min"): m_minmax(False),
    ("Clone", "clone"): m_clone, ("Clone", "clone_from"): m_assign(lambda c: one(c, c.val(1))), ("Default", "default"): m_const(0),
    ("Zero", "zero"): m_const(0), ("Zero", "is_zero"): m_is_zero,
    ("Zero", "set_zero"): m_assign(lambda c: one(c, 0)), ("One", "set_one"): m_assign(lambda c: one(c, 1)),
    ("One", "one"): m_const(1), ("One", "is_one"): lambda c: one(c, cmpop("eq", c.val(0), 1)),
    ("Signed", "abs"): m_abs, ("Signed", "signum"): m_signum,
    ("Signed", "is_positive"): lambda c: one(c, cmpop("gt", c.val(0), 0)),
    ("Signed", "is_negative"): lambda c: one(c, cmpop("lt", c.val(0), 0)),
    ("Integer", "div_floor"): m_div("floor_div"), ("Integer", "mod_floor"): m_div("mod_floor"),
    ("Integer", "div_ceil"): m_div("ceil_div"),
    ("Integer", "div_rem"): m_divpair("trunc_div", "trunc_rem"), ("Integer", "div_mod_floor"): m_divpair("floor_div", "mod_floor"),
    ("Integer", "gcd"): m_gcd, ("Integer", "lcm"): m_lcm, ("Integer", "is_even"): m_even(0), ("Integer", "is_odd"): m_even(1),
    ("Integer", "extended_gcd"): m_extgcd, ("Integer", "extended_gcd_lcm"): m_extgcd_lcm, ("Integer", "gcd_lcm"): m_gcd_lcm,
    ("CheckedDiv", "checked_div"): lambda c: m_checked_div(c, "trunc_div"), ("CheckedRem", "checked_rem"): lambda c: m_checked_div(c, "trunc_rem"),
    ("Integer", "is_multiple_of"): m_multiple, ("Integer", "divides"): m_multiple,
    ("From", "from"): m_ident, ("Into", "into"): m_ident,
    ("TryFrom", "try_from"): m_try_from, ("TryInto", "try_into"): m_try_from,
    ("ToBigInt", "to_bigint"): m_to_prim, ("ToBigUint", "to_biguint"): m_to_prim,
    ("Pow", "pow"): m_pow,
}
for _n in "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split():
    INT_TRAIT[("ToPrimitive", "to_" + _n)] = m_to_prim
    INT_TRAIT[("FromPrimitive", "from_" + _n)] = m_to_prim

INT_INHERENT = {
    "pow": m_pow, "sqrt": m_sqrt, "bits": m_bits, "sign": m_bigint_sign, "magnitude": m_magnitude(True),
    "trailing_zeros": m_trailing_zeros_big, "to_biguint": m_to_prim, "to_bigint": m_to_prim,
}


def m_saturating_sub(c):
    a, b = c.val(0), c.val(1)
    lo, hi = int_range(c.eng.prog.ty(c.fn["self_ty"]))
    v = sub(a, b)
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, cmpop("ge", v, lo), "satsub:"):
        if t:
            out.append((s2, v))
        else:
            out.append((s2, lo))
    return out


def m_checked(f):
    def h(c):
        a, b = c.val(0), c.val(1)
        t = c.eng.prog.ty(c.fn["self_ty"])
        lo, hi = int_range(t)
        v = f(a, b)
        return [(s2, opt(c, v) if ok else opt(c)) for (s2, ok) in c.eng.fork_bool(c.st, band(cmpop("ge", v, lo), cmpop("le", v, hi)), "chk:")]
    return h


def m_wrapping(f):
    def h(c):
        t = c.eng.prog.ty(c.fn["self_ty"])
        return one(c, c.st.wrap(f(c.val(0), c.val(1)), t))
    return h


def m_overflowing(f):
    def h(c):
        t = c.eng.prog.ty(c.fn["self_ty"])
        lo, hi = int_range(t)
        v = f(c.val(0), c.val(1))
        ok = band(cmpop("ge", v, lo), cmpop("le", v, hi))
        return [(s2, Tup([v if b else s2.wrap(v, t), not b])) for (s2, b) in c.eng.fork_bool(c.st, ok, "ovf:")]
    return h


def m_leading_zeros(c):
    t = c.eng.prog.ty(c.fn["self_ty"])
    bits = t["bits"]
    a = c.val(0)
    if isc(a):
        return one(c, bits - (a & ((1 << bits) - 1)).bit_length())
    out = []
    if t["signed"]:
        for (s2, ng) in c.eng.fork_bool(c.st, cmpop("lt", a, 0), "lzneg:"):
            if ng:
                out.append((s2, 0))
            else:
                c.st = s2
        if not c.st.feasible(cmpop("ge", a, 0)):
            return out
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", a, 0), "lz0:"):
        if z:
            out.append((s2, bits))
            continue
        r = s2.fresh_int("lz")
        s2.assume(z3.And(r >= 0, r < bits))
        # exact bit-length table (finite, no uninterpreted pow2)
        s2.assume(z3.And(*[z3.Implies(r == k, z3.And(a >= (1 << (bits - 1 - k)), a < (1 << (bits - k)))) for k in range(bits)]))
        out.append((s2, r))
    return out


def m_tz_prim(c):
    t = c.eng.prog.ty(c.fn["self_ty"])
    bits = t["bits"]
    a = c.val(0)
    if isc(a):
        a &= (1 << bits) - 1
        return one(c, bits if a == 0 else (a & -a).bit_length() - 1)
    out = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", a, 0), "tz0:"):
        if z:
            out.append((s2, bits))
            continue
        r = s2.fresh_int("tz")
        k = s2.fresh_int("tzk")
        s2.assume(z3.And(r >= 0, r < bits))
        s2.assume(z3.And(*[z3.Implies(r == j, a == (2 * k + 1) * (1 << j)) for j in range(bits)]))
        s2.assume(to_z(a) == (2 * k + 1) * s2.pow2(r))
        s2.ghost["tzk"] = s2.ghost.get("tzk", ()) + ((a, r, k),)
        out.append((s2, r))
    return out


PRIM_INH = {"saturating_sub", "checked_add", "checked_sub", "checked_mul", "wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add",
            "overflowing_sub", "overflowing_mul", "leading_zeros", "trailing_zeros", "pow"}
INT_INHERENT.update({
    "saturating_sub": m_saturating_sub, "checked_add": m_checked(add), "checked_sub": m_checked(sub), "checked_mul": m_checked(mul),
    "wrapping_add": m_wrapping(add), "wrapping_sub": m_wrapping(sub), "wrapping_mul": m_wrapping(mul),
    "overflowing_add": m_overflowing(add), "overflowing_sub": m_overflowing(sub), "overflowing_mul": m_overflowing(mul),
    "leading_zeros": m_leading_zeros,
})


def m_tz_any(c):
    t = c.eng.prog.ty(c.fn["self_ty"])
    return m_tz_prim(c) if t["k"] == "int" else m_trailing_zeros_big(c)


INT_INHERENT["trailing_zeros"] = m_tz_any

# ---------------------------------------------------------------- Ratio


VAL = z3.Function("VAL", z3.IntSort(), z3.IntSort(), z3.RealSort())                      # n/d
VALX = None       # ... and as equality of their values (a function, told the unreduced numerator and denominator)
RINT = None       # told of integers used as fractions
RMULT = None      # product of two reals, in place of *
VALS = False      # also state results of fraction arithmetic as real-number equations


def rval(st, a):
    """n/d as a real number"""
    if isc(a[1]) and a[1] == 1:
        if RINT and not isc(a[0]):
            RINT(st, a[0], 1)
        return z3.ToReal(to_z(a[0]))
    n, d = to_z(a[0]), to_z(a[1])
    st.assume(z3.Implies(d >= 1, VAL(n, d) * z3.ToReal(d) == z3.ToReal(n)))
    return VAL(n, d)


def rat(c, st, n, d, ty):
    """reduced rational equal to n/d (d != 0 known, d>0 after normalisation)"""
    if isc(n) and isc(d):
        import math
        if d < 0:
            n, d = -n, -d
        g = math.gcd(n, d)
        return Adt(ty, 0, [n // g, d // g])
    rn, rd, k = st.fresh_int("rn"), st.fresh_int("rd"), st.fresh_int("rk")
    st.assume(rd >= 1)
    st.assume(rn * to_z(d) == to_z(n) * rd)
    # (n,d) = k*(rn,rd)
    st.assume(k != 0)
    st.assume(to_z(n) == k * rn)
    st.assume(to_z(d) == k * rd)
    st.assume(GCD(rn, rd) == 1)
    return Adt(ty, 0, [rn, rd])


def rparts(c, i):
    v = c.val(i)
    if isinstance(v, Adt):
        return v.f[0], v.f[1]
    return v, 1


def ratio_ty(c):
    for x in [c.rty()] + [c.aty(i) for i in range(len(c.args))]:
        t = c.eng.prog.ty(c.eng.prog.deref_ty(x))
        if t["k"] == "adt" and t["path"] == RATIO:
            return t["id"]
    raise Unsupported("ratio type")


def need_big(c):
    t = c.eng.prog.ty(ratio_ty(c))
    it = c.eng.prog.ty(t["targs"][0])
    if it["k"] == "int":
        raise Unsupported("Ratio of machine integers")


def r_bin(f):
    def h(c):
        need_big(c)
        a, b = rparts(c, 0), rparts(c, 1)
        n, d = f(a, b)
        ty = ratio_ty(c)
        if isc(b[1]) and b[1] == 1 and isc(a[1]) and a[1] == 1:
            return one(c, Adt(ty, 0, [n, 1]))
        r = rat(c, c.st, n, d, ty)
        if VALS:
            x, y, z = rval(c.st, a), rval(c.st, b), rval(c.st, r.f)
            c.st.assume(z3.Implies(z3.And(to_z(a[1]) >= 1, to_z(b[1]) >= 1), z == (x + y if f is r_add else x - y if f is r_sub else RMULT(c.st, x, y) if RMULT else x * y)))
        return one(c, r)
    return h


def r_add(a, b):
    return add(mul(a[0], b[1]), mul(b[0], a[1])), mul(a[1], b[1])


def r_sub(a, b):
    return sub(mul(a[0], b[1]), mul(b[0], a[1])), mul(a[1], b[1])


def r_mul(a, b):
    return mul(a[0], b[0]), mul(a[1], b[1])


def r_div(c):
    need_big(c)
    a, b = rparts(c, 0), rparts(c, 1)
    ty = ratio_ty(c)
    out = []
    for s2 in nz(c, b[0]):
        out.append((s2, rat(c, s2, mul(a[0], b[1]), mul(a[1], b[0]), ty)))
    return out


def r_cmpop(op):
    def h(c):
        a, b = rparts(c, 0), rparts(c, 1)
        return one(c, cmpop(op, mul(a[0], b[1]), mul(b[0], a[1])))
    return h


def r_cmp(c):
    a, b = rparts(c, 0), rparts(c, 1)
    return c.eng.fork_cmp(c.st, mul(a[0], b[1]), mul(b[0], a[1]), c.rty())


def r_partial_cmp(c):
    a, b = rparts(c, 0), rparts(c, 1)
    rt = c.rty()
    oty = c.eng.prog.ty(rt)["variants"][1]["fields"][0][1]
    return c.eng.fork_cmp(c.st, mul(a[0], b[1]), mul(b[0], a[1]), oty, wrap=lambda x: Adt(rt, 1, [x]))


def r_new(c):
    need_big(c)
    n, d = c.val(0), c.val(1)
    ty = ratio_ty(c)
    out = []
    for s2 in nz(c, d):
        r = rat(c, s2, n, d, ty)
        if VALS:
            s2.assume(rval(s2, r.f) * z3.ToReal(to_z(d)) == z3.ToReal(to_z(n)))
        if VALX:
            s2.assume(z3.Implies(to_z(d) != 0, VAL(to_z(r.f[0]), to_z(r.f[1])) == VAL(to_z(n), to_z(d))))
            VALX(s2, n, d)
        out.append((s2, r))
    return out


def r_fld(i, by_ref):
    def h(c):
        if by_ref:
            return one(c, c.eng.as_ref(c.args[0]).sub(("f", i)))
        return one(c, c.val(0).f[i])
    return h


def r_recip(c):
    n, d = rparts(c, 0)
    ty = ratio_ty(c)
    out = []
    for s2 in nz(c, n):
        for (s3, pos) in c.eng.fork_bool(s2, cmpop("gt", n, 0), "recip+:"):
            out.append((s3, Adt(ty, 0, [d, n] if pos else [neg(d), neg(n)])))
    return out


def r_int(which):
    def h(c):
        n, d = rparts(c, 0)
        ty = ratio_ty(c)
        st = c.st
        if which == "floor":
            q = st.floor_div(n, d)
        elif which == "ceil":
            q = st.ceil_div(n, d)
        else:
            q = st.trunc_div(n, d)
        if c.fn["method"] == "to_integer":
            return one(c, q)
        return one(c, Adt(ty, 0, [q, 1]))
    return h


RATIO_TRAIT = {
    ("Add", "add"): r_bin(r_add), ("Sub", "sub"): r_bin(r_sub), ("Mul", "mul"): r_bin(r_mul), ("Div", "div"): r_div,
    ("AddAssign", "add_assign"): m_assign(r_bin(r_add)), ("SubAssign", "sub_assign"): m_assign(r_bin(r_sub)),
    ("MulAssign", "mul_assign"): m_assign(r_bin(r_mul)), ("DivAssign", "div_assign"): m_assign(r_div),
    ("Neg", "neg"): lambda c: one(c, Adt(ratio_ty(c), 0, [neg(rparts(c, 0)[0]), rparts(c, 0)[1]])),
    ("PartialEq", "eq"): r_cmpop("eq"), ("PartialEq", "ne"): r_cmpop("ne"),
    ("PartialOrd", "lt"): r_cmpop("lt"), ("PartialOrd", "le"): r_cmpop("le"), ("PartialOrd", "gt"): r_cmpop("gt"), ("PartialOrd", "ge"): r_cmpop("ge"),
    ("Ord", "cmp"): r_cmp, ("PartialOrd", "partial_cmp"): r_partial_cmp,
    ("Clone", "clone"): m_clone, ("Clone", "clone_from"): m_assign(lambda c: one(c, c.st.read(c.eng.as_ref(c.args[1])))),
    ("Zero", "zero"): lambda c: one(c, Adt(ratio_ty(c), 0, [0, 1])), ("One", "one"): lambda c: one(c, Adt(ratio_ty(c), 0, [1, 1])),
    ("Zero", "is_zero"): lambda c: one(c, cmpop("eq", rparts(c, 0)[0], 0)),
    ("One", "is_one"): lambda c: one(c, cmpop("eq", rparts(c, 0)[0], rparts(c, 0)[1])),
    ("Signed", "is_positive"): lambda c: one(c, cmpop("gt", rparts(c, 0)[0], 0)),
    ("Signed", "is_negative"): lambda c: one(c, cmpop("lt", rparts(c, 0)[0], 0)),
    ("Signed", "abs"): lambda c: [(s2, Adt(ratio_ty(c), 0, [rparts(c, 0)[0] if t else neg(rparts(c, 0)[0]), rparts(c, 0)[1]])) for (s2, t) in c.eng.fork_bool(c.st, cmpop("ge", rparts(c, 0)[0], 0), "abs:")],
    ("From", "from"): lambda c: one(c, c.val(0) if isinstance(c.val(0), Adt) else (Adt(ratio_ty(c), 0, [c.val(0), 1]) if not isinstance(c.val(0), Tup) else rat(c, c.st, c.val(0).f[0], c.val(0).f[1], ratio_ty(c)))),
    ("Into", "into"): lambda c: one(c, c.val(0) if isinstance(c.val(0), Adt) else Adt(ratio_ty(c), 0, [c.val(0), 1])),
}
RATIO_INH = {
    "new": r_new, "numer": r_fld(0, True), "denom": r_fld(1, True), "recip": r_recip, "floor": r_int("floor"), "ceil": r_int("ceil"),
    "trunc": r_int("trunc"), "to_integer": r_int("trunc"),
    "from_integer": lambda c: one(c, Adt(ratio_ty(c), 0, [c.val(0), 1])),
    "is_integer": lambda c: one(c, cmpop("eq", rparts(c, 0)[1], 1)),
}

# ---------------------------------------------------------------- generic std


def m_mem_swap(c):
    a, b = c.args
    va, vb = c.st.read(a), c.st.read(b)
    c.st.write(a, vb)
    c.st.write(b, va)
    return one(c, Tup([]))


def m_mem_replace(c):
    v = c.st.read(c.args[0])
    c.st.write(c.args[0], c.args[1])
    return one(c, v)


def m_opt_take(c):
    v = c.st.read(c.args[0])
    rt = c.rty()
    c.st.write(c.args[0], Adt(rt, 0, []))
    return one(c, v)


def m_opq(c):
    return one(c, Opq(c.fn["path"]))


def m_pass0(c):
    return one(c, c.args[0])


def m_slice_iter(c):
    r = c.eng.as_ref(c.args[0])
    n = c.st.length(r)
    return one(c, It("slice", ref=r, pos=0, end=n, mut="IterMut" in c.eng.prog.ty(c.rty())["name"]))


def iter_next(c, it, itref):
    """generic next on It at itref -> list of (state, value-or-None, newit)"""
    st = c.st
    k = it.kind
    if k in ("slice",):
        out = []
        for (s2, t) in c.eng.fork_bool(st, cmpop("lt", it.d["pos"], it.d["end"]), "next:"):
            if t:
                out.append((s2, it.d["ref"].sub(("i", it.d["pos"])), it.set(pos=add(it.d["pos"], 1))))
            else:
                out.append((s2, None, it))
        return out
    if k == "vec":
        out = []
        for (s2, t) in c.eng.fork_bool(st, cmpop("lt", it.d["pos"], it.d["end"]), "next:"):
            if t:
                out.append((s2, s2.index(it.d["seq"], it.d["pos"]), it.set(pos=add(it.d["pos"], 1))))
            else:
                out.append((s2, None, it))
        return out
    raise Unsupported(f"next on {k}")


def m_iter_next(c):
    r = c.args[0]
    it = c.st.read(r)
    if not isinstance(it, It):
        raise Unsupported(f"next on {type(it).__name__}")
    out = []
    for (s2, v, ni) in iter_next(c, it, r):
        if v is not None:
            s2.write(r, ni)
            out.append((s2, opt(c, v)))
        else:
            out.append((s2, opt(c)))
    return out


def m_iter_next_back(c):
    r = c.args[0]
    it = c.st.read(r)
    if not isinstance(it, It) or it.kind not in ("slice", "vec"):
        raise Unsupported("next_back")
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, cmpop("lt", it.d["pos"], it.d["end"]), "nextb:"):
        if t:
            e = sub(it.d["end"], 1)
            v = it.d["ref"].sub(("i", e)) if it.kind == "slice" else s2.index(it.d["seq"], e)
            s2.write(r, it.set(end=e))
            out.append((s2, opt(c, v)))
        else:
            out.append((s2, opt(c)))
    return out


def sel(f):
    f._sel = True
    return f


@sel
def sel_into_iter(eng, fn, ta):
    t = eng.prog.ty(fn["trait_args"][0])
    if t["k"] == "ref":
        u = eng.prog.ty(t["t"])
        if u["k"] in ("array", "slice") or (u["k"] == "adt" and u["path"] == VEC):
            return m_slice_iter
        return None
    if t["k"] == "adt" and t["path"] == VEC or t["k"] == "array":
        def h(c):
            v = c.args[0]
            return one(c, It("vec", seq=v, pos=0, end=c.st.seqlen(v)))
        return h
    return None


def m_range_next(c):
    r = c.args[0]
    v = c.st.read(r)
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, cmpop("lt", v.f[0], v.f[1]), "range:"):
        if t:
            s2.write(r, v.with_field(0, add(v.f[0], 1)))
            out.append((s2, opt(c, v.f[0])))
        else:
            out.append((s2, opt(c)))
    return out


@sel
def sel_next(eng, fn, ta):
    p = ta[0].get("path", "")
    if p == "std::ops::Range" and eng.prog.ty(ta[0]["targs"][0])["k"] == "int":
        return m_range_next
    if p in ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::array::IntoIter", "std::vec::Drain"):
        return m_iter_next
    return None


@sel
def sel_next_back(eng, fn, ta):
    p = ta[0].get("path", "")
    if p in ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::array::IntoIter"):
        return m_iter_next_back
    return None


@sel
def sel_clone(eng, fn, ta):
    t = ta[0]
    if t["k"] == "adt" and t["path"] == VEC:
        return m_clone
    if fn["kind"] != "item" and fn["trait_args"] and eng.prog.ty(fn["trait_args"][0])["k"] in ("tuple", "array"):
        return None
    return None


@sel
def sel_deref(eng, fn, ta):
    t = eng.prog.ty(fn["trait_args"][0])
    if t["k"] == "adt" and t["path"] == VEC:
        return m_pass0
    return None


def m_vec_index(c):
    r = c.eng.as_ref(c.args[0])
    i = c.args[1]
    ln = c.st.length(r)
    out = []
    if isc(i) or isinstance(i, z3.ExprRef):
        for (s2, t) in c.eng.fork_bool(c.st, cmpop("lt", i, ln), "idx:"):
            if t:
                out.append((s2, r.sub(("i", i))))
            else:
                c.on_panic(s2, "index out of bounds")
        return out
    if isinstance(i, Adt):
        t = c.eng.prog.ty(i.ty)
        nm = last(t["path"])
        if nm == "RangeFull":
            return one(c, r)
        if nm == "RangeFrom":
            a, b = i.f[0], ln
        elif nm == "RangeTo":
            a, b = 0, i.f[0]
        elif nm == "Range":
            a, b = i.f[0], i.f[1]
        else:
            raise Unsupported("range index " + nm)
        for (s2, ok) in c.eng.fork_bool(c.st, band(cmpop("le", a, b), cmpop("le", b, ln)), "rng:"):
            if ok:
                out.append((s2, r.sub(("ss", a, sub(b, a)))))
            else:
                c.on_panic(s2, "slice index out of range")
        return out
    raise Unsupported("vec index")


@sel
def sel_index(eng, fn, ta):
    t = ta[0]
    if t["k"] in ("slice", "array") or (t["k"] == "adt" and t["path"] == VEC):
        return m_vec_index
    return None


ANY_TRAIT = {
    ("IntoIterator", "into_iter"): sel_into_iter,
    ("Iterator", "next"): sel_next,
    ("DoubleEndedIterator", "next_back"): sel_next_back,
    ("Clone", "clone"): sel_clone,
    ("Deref", "deref"): sel_deref, ("DerefMut", "deref_mut"): sel_deref,
    ("Index", "index"): sel_index, ("IndexMut", "index_mut"): sel_index,
}

VEC_INH = {}
SLICE_INH = {}


def m_len(c):
    return one(c, c.st.length(c.eng.as_ref(c.args[0])))


def m_is_empty(c):
    return one(c, cmpop("eq", c.st.length(c.eng.as_ref(c.args[0])), 0))


def seq_push(eng, st, v, x):
    if isinstance(v, Arr):
        return Arr(v.e + (x,))
    leaves = eng.flatten(v.ety, x)
    return SSeq(v.ety, add(v.len, 1), [z3.Store(a, to_z(v.len), to_z(l)) for a, l in zip(v.arrs, leaves)])


def m_push(c):
    v = c.st.read(c.args[0])
    c.st.write(c.args[0], seq_push(c.eng, c.st, v, c.args[1]))
    return one(c, Tup([]))


def m_pop(c):
    v = c.st.read(c.args[0])
    out = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", c.st.seqlen(v), 0), "pop0:"):
        if z:
            out.append((s2, opt(c)))
        elif isinstance(v, Arr):
            s2.write(c.args[0], Arr(v.e[:-1]))
            out.append((s2, opt(c, v.e[-1])))
        else:
            x = s2.index(v, sub(v.len, 1))
            s2.write(c.args[0], SSeq(v.ety, sub(v.len, 1), v.arrs))
            out.append((s2, opt(c, x)))
    return out


def m_last(c):
    r = c.eng.as_ref(c.args[0])
    ln = c.st.length(r)
    out = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", ln, 0), "last0:"):
        out.append((s2, opt(c) if z else opt(c, r.sub(("i", sub(ln, 1))))))
    return out


def m_first(c):
    r = c.eng.as_ref(c.args[0])
    ln = c.st.length(r)
    out = []
    for (s2, z) in c.eng.fork_bool(c.st, cmpop("eq", ln, 0), "first0:"):
        out.append((s2, opt(c) if z else opt(c, r.sub(("i", 0)))))
    return out


def m_get(c):
    r = c.eng.as_ref(c.args[0])
    i = c.args[1]
    if not (isc(i) or isinstance(i, z3.ExprRef)):
        raise Unsupported("slice get range")
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, cmpop("lt", i, c.st.length(r)), "get:"):
        out.append((s2, opt(c, r.sub(("i", i))) if t else opt(c)))
    return out


VEC_INH.update({
    "new": lambda c: one(c, Arr([])), "with_capacity": lambda c: one(c, Arr([])),
    "len": m_len, "is_empty": m_is_empty, "push": m_push, "pop": m_pop, "reserve": lambda c: one(c, Tup([])),
    "as_slice": m_pass0, "as_mut_slice": m_pass0, "clear": lambda c: (c.st.write(c.args[0], Arr([])), one(c, Tup([])))[1],
})
SLICE_INH.update({
    "len": m_len, "is_empty": m_is_empty, "iter": m_slice_iter, "iter_mut": m_slice_iter, "last": m_last, "first": m_first,
    "last_mut": m_last, "first_mut": m_first, "get": m_get, "get_mut": m_get,
    "to_vec": m_clone, "into_vec": lambda c: one(c, c.val(0)),
})


def m_swap_slice(c):
    r = c.eng.as_ref(c.args[0])
    i, j = c.args[1], c.args[2]
    ln = c.st.length(r)
    out = []
    for (s2, ok) in c.eng.fork_bool(c.st, band(cmpop("lt", i, ln), cmpop("lt", j, ln)), "swap:"):
        if not ok:
            c.on_panic(s2, "index out of bounds")
            continue
        a, b = s2.read(r.sub(("i", i))), s2.read(r.sub(("i", j)))
        s2.write(r.sub(("i", i)), b)
        s2.write(r.sub(("i", j)), a)
        out.append((s2, Tup([])))
    return out


SLICE_INH["swap"] = m_swap_slice

PATHS = {
    "std::mem::swap": m_mem_swap,
    "std::mem::replace": m_mem_replace,
    "std::option::Option::<T>::take": m_opt_take,
    "std::borrow::ToOwned::to_owned": m_clone,
}
PATH_PREFIX = [
    ("std::fmt::Arguments", m_opq),
    ("core::fmt::rt::", m_opq),
    ("core::fmt::", m_opq),
    ("std::fmt::", m_opq),
    ("std::intrinsics::likely", m_pass0),
]
INTRINSICS = {
    "typed_swap_nonoverlapping": m_mem_swap,
    "black_box": m_pass0,
    "cold_path": lambda c: one(c, Tup([])),
    "assert_inhabited": lambda c: one(c, Tup([])),
    "ub_checks": lambda c: one(c, False),
    "discriminant_value": lambda c: one(c, c.eng.prog.ty(c.val(0).ty)["variants"][c.val(0).var]["discr"]),
}
