"""Symbolic values for the MIR executor.

Integers of every Rust type (primitive, BigInt, BigUint) are mathematical integers: a python
int when known, a z3 Int term otherwise.  Machine ranges are explicit facts / obligations.
"""
import z3


class Unsupported(Exception):
    pass


class Adt:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def with_field(self, i, v):
        f = list(self.f)
        f[i] = v
        return Adt(self.ty, self.var, f)

    def __repr__(self):
        return f"Adt#{self.ty}.{self.var}{self.f}"


class Tup:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def with_field(self, i, v):
        f = list(self.f)
        f[i] = v
        return Tup(f)

    def __repr__(self):
        return f"Tup{self.f}"


class Clo:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, tuple(f)

    def with_field(self, i, v):
        f = list(self.f)
        f[i] = v
        return Clo(self.ty, f)


class Arr:
    """array / Vec / slice contents of known length"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return f"Arr{list(self.e)}"


class SSeq:
    """sequence of symbolic length: struct-of-z3-arrays (one per scalar leaf of the element)"""
    __slots__ = ("ety", "len", "arrs")

    def __init__(self, ety, ln, arrs):
        self.ety, self.len, self.arrs = ety, ln, tuple(arrs)

    def __repr__(self):
        return f"SSeq(len={self.len}, {self.arrs})"


class Ref:
    """pointer: heap cell + projection path (fields / indices / downcasts / subslices)"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def sub(self, *els):
        return Ref(self.cell, self.path + tuple(els))

    def __repr__(self):
        return f"Ref({self.cell},{self.path})"


class FnV:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


class It:
    """iterator value, kind-specific data (immutable dict-like)"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def set(self, **kw):
        n = dict(self.d)
        n.update(kw)
        return It(self.kind, **n)

    def __repr__(self):
        return f"It({self.kind},{self.d})"


class Opq:
    """opaque value (strings, fmt arguments, ...): may be passed around, never inspected"""
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return f"Opq({self.what})"


class Fl:
    """f64: a python float when known, otherwise a z3 Real term ordered like the float"""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


UNINIT = Opq("uninit")


def isc(x):
    return isinstance(x, (int, bool)) and not isinstance(x, z3.ExprRef)


def to_z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def s(x):
    """simplify a term, folding to python values when possible"""
    if isc(x):
        return x
    r = z3.simplify(x)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return s(to_z(a) + to_z(b))


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    return s(to_z(a) - to_z(b))


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a):
        if a == 0:
            return 0
        if a == 1:
            return b
    if isc(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return to_z(a) * to_z(b)


def neg(a):
    return -a if isc(a) else s(-a)


def cmpop(op, a, b):
    if isc(a) and isc(b):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
    za, zb = to_z(a), to_z(b)
    if op == "lt":
        return s(za < zb)
    if op == "le":
        return s(za <= zb)
    if op == "gt":
        return s(za > zb)
    if op == "ge":
        return s(za >= zb)
    if op == "eq":
        return s(za == zb)
    return s(za != zb)


def bnot(a):
    return (not a) if isc(a) else s(z3.Not(a))


def band(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if isc(x):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if isc(c):
        return a if c else b
    return z3.If(c, to_z(a), to_z(b))
