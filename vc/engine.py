"""Symbolic execution / VC generation over monomorphised MIR (output of driver/mirdump).

A function under contract is executed symbolically from its precondition; calls to functions
under contract use the contract, calls to modelled (trusted) functions use the model, every other
call is executed by its own MIR.  Loops with symbolic trip count need an invariant.
"""
import json
import hashlib
import struct
import zlib
import z3
from values import *

P2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
FEAS_MS = 400


def norm_path(p):
    """type paths are printed through whatever re-export is visible: normalise the dependencies' """
    h, l = p.split("::", 1)[0], p.rsplit("::", 1)[-1]
    if h == "num_bigint" and l == "BigInt":
        return BIGINT
    if h == "num_bigint" and l == "BigUint":
        return BIGUINT
    if h == "num_rational" and l == "Ratio":
        return "num_rational::Ratio"
    if h in ("alloc", "std") and l == "Vec":
        return VEC
    if h == "core":
        return "std" + p[4:]
    return p


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.roots = {self.fns[r]["name"]: self.fns[r] for r in d["roots"]}
        for i, t in enumerate(self.types):
            t["id"] = i
            if t["k"] == "adt":
                t["path"] = norm_path(t["path"])
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f["name"], f)
        self._loops = {}

    def ty(self, i):
        return self.types[i]

    def deref_ty(self, i):
        while self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["t"]
        return i

    def find_ty(self, name):
        for t in self.types:
            if t["name"] == name:
                return t["id"]
        return None

    def loop_headers(self, fn):
        if fn["id"] in self._loops:
            return self._loops[fn["id"]]
        bl = fn["blocks"]

        def succ(b):
            t = bl[b]["t"]
            k = t[0]
            if k == "goto":
                return [t[1]]
            if k == "switch":
                return [x[1] for x in t[2]] + [t[3]]
            if k == "call":
                return [t[5]] if t[5] >= 0 else []
            if k == "assert":
                return [t[4]]
            return []

        color, headers, back = {}, [], []
        stack = [(0, iter(succ(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                c = color.get(x, 0)
                if c == 0:
                    color[x] = 1
                    stack.append((x, iter(succ(x))))
                    break
                if c == 1:
                    if x not in headers:
                        headers.append(x)
                    back.append((b, x))
            else:
                color[b] = 2
                stack.pop()
        # natural loops
        pred = {}
        for b in color:
            for x in succ(b):
                pred.setdefault(x, []).append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            st = [b]
            while st:
                y = st.pop()
                if y in body:
                    continue
                body.add(y)
                st.extend(pred.get(y, []))
        # order by source line / block number
        order = sorted(loops, key=lambda h: h)
        self._loops[fn["id"]] = (order, loops)
        return self._loops[fn["id"]]


class Frame:
    __slots__ = ("fn", "locals", "bb", "dest", "target", "visits", "inv", "on_return")

    def copy(self):
        f = Frame()
        f.fn, f.locals, f.bb, f.dest, f.target = self.fn, self.locals, self.bb, self.dest, self.target
        f.visits = dict(self.visits)
        f.inv = dict(self.inv)
        f.on_return = self.on_return
        return f


class State:
    def __init__(self, eng):
        self.eng = eng
        self.heap = {}
        self.frames = []
        self.pc = []
        self.pow2s = []
        self.memo = {}
        self.trail = ()
        self.ghost = {}

    def fork(self):
        n = State(self.eng)
        n.heap = dict(self.heap)
        n.frames = [f.copy() for f in self.frames]
        n.pc = list(self.pc)
        n.pow2s = list(self.pow2s)
        n.memo = dict(self.memo)
        n.trail = self.trail
        n.ghost = dict(self.ghost)
        return n

    # ---- facts
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(f)

    def fresh_int(self, name):
        self.eng.ctr += 1
        return z3.Int(f"{name}!{self.eng.ctr}")

    def fresh_bool(self, name):
        self.eng.ctr += 1
        return z3.Bool(f"{name}!{self.eng.ctr}")

    def fresh_real(self, name):
        self.eng.ctr += 1
        return z3.Real(f"{name}!{self.eng.ctr}")

    def fresh_arr(self, name, sort=None):
        self.eng.ctr += 1
        return z3.Array(f"{name}!{self.eng.ctr}", z3.IntSort(), z3.IntSort() if sort is None else sort)

    def known(self, f):
        """is f implied by the path condition? (True only when proved)"""
        if isc(f):
            return bool(f)
        return self.eng.quick_unsat(self.pc, z3.Not(f))

    def feasible(self, f=True):
        if isc(f):
            if not f:
                return False
            f = z3.BoolVal(True)
        return not self.eng.quick_unsat(self.pc, f)

    def alloc(self, v):
        self.eng.ctr += 1
        c = self.eng.ctr
        self.heap[c] = v
        return Ref(c)

    # ---- memory
    def read(self, ref):
        v = self.heap[ref.cell]
        for p in ref.path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, (Adt, Tup, Clo)):
                if p[1] >= len(v.f):
                    raise Unsupported(f"field {p[1]} of {v}")
                return v.f[p[1]]
            raise Unsupported(f"field of {type(v).__name__} {v}")
        if k == "dc":
            if isinstance(v, Adt):
                if v.var != p[1]:
                    raise Unsupported("downcast to inactive variant")
                return v
            raise Unsupported(f"downcast of {v}")
        if k == "i":
            return self.index(v, p[1])
        if k == "ss":
            return self.subslice(v, p[1], p[2])
        raise Unsupported(f"proj {p}")

    def index(self, v, i):
        if isinstance(v, Arr):
            if isc(i):
                if not 0 <= i < len(v.e):
                    raise Unsupported("concrete index out of range")
                return v.e[i]
            # symbolic index into a known-length array of ints
            if all(isc(x) or isinstance(x, z3.ArithRef) for x in v.e) and v.e:
                r = to_z(v.e[-1])
                for j in range(len(v.e) - 2, -1, -1):
                    r = z3.If(i == j, to_z(v.e[j]), r)
                return r
            raise Unsupported("symbolic index into concrete array")
        if isinstance(v, SSeq):
            return self.eng.unflatten(self, v.ety, [z3.Select(a, to_z(i)) for a in v.arrs])
        raise Unsupported(f"index of {type(v).__name__}")

    def subslice(self, v, frm, ln):
        if isinstance(v, Arr) and isc(frm) and isc(ln):
            return Arr(v.e[frm:frm + ln])
        if isinstance(v, SSeq) and isc(frm) and frm == 0:
            return SSeq(v.ety, ln, v.arrs)
        if isinstance(v, SSeq):
            j = z3.Int("j!ss")
            return SSeq(v.ety, ln, [z3.Lambda([j], z3.Select(a, j + to_z(frm))) for a in v.arrs])
        raise Unsupported("subslice")

    def length(self, ref):
        v = self.read(ref)
        return self.seqlen(v)

    def seqlen(self, v):
        if isinstance(v, Arr):
            return len(v.e)
        if isinstance(v, SSeq):
            return v.len
        raise Unsupported(f"len of {type(v).__name__} {v}")

    def write(self, ref, val):
        self.heap[ref.cell] = self._upd(self.heap[ref.cell], ref.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if k == "f":
            if isinstance(v, (Adt, Tup, Clo)):
                return v.with_field(p[1], self._upd(v.f[p[1]], path[1:], val))
            raise Unsupported(f"write field of {v}")
        if k == "dc":
            return self._upd(v, path[1:], val)
        if k == "i":
            if isinstance(v, Arr) and isc(p[1]):
                e = list(v.e)
                e[p[1]] = self._upd(e[p[1]], path[1:], val)
                return Arr(e)
            if isinstance(v, SSeq):
                old = self.index(v, p[1])
                new = self._upd(old, path[1:], val)
                leaves = self.eng.flatten(v.ety, new)
                return SSeq(v.ety, v.len, [z3.Store(a, to_z(p[1]), to_z(l)) for a, l in zip(v.arrs, leaves)])
            raise Unsupported("write index")
        if k == "ss":
            if isinstance(v, Arr) and isc(p[1]):
                inner = Arr(v.e[p[1]:p[1] + p[2]])
                n = self._upd(inner, path[1:], val)
                return Arr(v.e[:p[1]] + n.e + v.e[p[1] + p[2]:])
            if isinstance(v, SSeq) and len(path) > 1 and path[1][0] == "i":
                return self._upd(v, (("i", add(path[1][1], p[1])),) + path[2:], val)
            raise Unsupported("write subslice")
        raise Unsupported("write proj")

    # ---- arithmetic with facts
    def pow2(self, e):
        """2^e.  Facts are only asserted for exponents >= 0 (guarded when not known)."""
        if isc(e):
            if e < 0:
                raise Unsupported("pow2 of negative")
            return 1 << e
        e = z3.simplify(e)
        for (x, p, g) in self.pow2s:
            if x.eq(e):
                if g is not None and self.known(e >= 0):
                    # upgrade: assert the guard as a fact so guarded facts fire
                    self.assume(e >= 0)
                return p
        p = P2(e)
        g = None if self.known(e >= 0) else (e >= 0)

        def fact(f, *gs):
            gs = [x for x in gs if x is not None]
            self.assume(z3.Implies(z3.And(*gs), f) if gs else f)
        self.assume(p >= 1)
        fact(p >= e + 1, g)
        self.assume(z3.Implies(e == 0, p == 1))
        self.assume(z3.Implies(e >= 1, p >= 2))
        olds = list(self.pow2s)

        def rel(pl, d, pr, *gs):
            # pl = 2^d * pr
            if d >= 0:
                fact(pl == pr * (1 << d), *gs)
            else:
                fact(pl * (1 << -d) == pr, *gs)
        for (x, q, h) in olds:
            d = s(e - x)
            if isc(d):
                rel(p, d, q, g, h)
            else:
                fact(z3.Implies(e <= x, p <= q), g, h)
                fact(z3.Implies(e >= x, p >= q), g, h)
                fact(z3.Implies(e < x, 2 * p <= q), g, h)
                fact(z3.Implies(e > x, p >= 2 * q), g, h)
            d2 = s(e - 2 * x)
            if isc(d2):
                rel(p, d2, q * q, g, h)
            d3 = s(x - 2 * e)
            if isc(d3):
                rel(q, d3, p * p, g, h)
        for a in range(len(olds)):
            for b in range(a + 1, len(olds)):
                xa, pa, ga = olds[a]
                xb, pb, gb = olds[b]
                for (lhs, pl, r1, p1, r2, p2) in ((e, p, xa, pa, xb, pb), (xa, pa, e, p, xb, pb), (xb, pb, e, p, xa, pa)):
                    d = s(lhs - r1 - r2)
                    if isc(d):
                        rel(pl, d, p1 * p2, g, ga, gb)
        self.pow2s.append((e, p, g))
        return p

    def floor_div(self, n, d):
        """mathematical floor(n/d); d != 0 must already be known"""
        if isc(n) and isc(d):
            return n // d
        if isc(d) and d == 1:
            return n
        if isc(n) and n == 0:
            return 0
        zn, zd = z3.simplify(to_z(n)), z3.simplify(to_z(d))
        ex = self.memo.get(("exact", zn.sexpr(), zd.sexpr()))      # zn == zd * ex is a fact
        if ex is not None:
            return ex
        key = ("fd", zn.sexpr(), zd.sexpr())
        if key in self.memo:
            return self.memo[key]
        q = self.fresh_int("q")
        if self.known(zd > 0):
            self.assume(q * zd <= zn)
            self.assume(zn < q * zd + zd)
        elif self.known(zd < 0):
            self.assume(q * zd >= zn)
            self.assume(zn > q * zd + zd)
        else:
            self.assume(z3.Implies(zd > 0, z3.And(q * zd <= zn, zn < q * zd + zd)))
            self.assume(z3.Implies(zd < 0, z3.And(q * zd >= zn, zn > q * zd + zd)))
        self.memo[key] = q
        pos = self.known(zd > 0)
        if pos:
            for (n2, q2) in self.memo.get(("fdl", zd.sexpr()), ()):
                self.assume(z3.Implies(zn <= n2, q <= q2))
                self.assume(z3.Implies(zn >= n2, q >= q2))
            self.memo[("fdl", zd.sexpr())] = self.memo.get(("fdl", zd.sexpr()), ()) + ((zn, q),)
        return q

    def ceil_div(self, n, d):
        return neg(self.floor_div(neg(n), d))

    def mod_floor(self, n, d):
        if isc(n) and isc(d):
            return n % d
        return sub(n, mul(self.floor_div(n, d), d))

    def trunc_div(self, n, d):
        if isc(n) and isc(d):
            q = abs(n) // abs(d)
            return q if (n >= 0) == (d > 0) else -q
        if self.known(cmpop("ge", n, 0)) and self.known(cmpop("gt", d, 0)):
            return self.floor_div(n, d)
        zn, zd = z3.simplify(to_z(n)), z3.simplify(to_z(d))
        ex = self.memo.get(("exact", zn.sexpr(), zd.sexpr()))
        if ex is not None:
            return ex
        key = ("td", zn.sexpr(), zd.sexpr())
        if key in self.memo:
            return self.memo[key]
        q, r = self.fresh_int("tq"), self.fresh_int("tr")
        self.assume(zn == q * zd + r)
        self.assume(z3.Implies(zn >= 0, z3.And(r >= 0, z3.Implies(zd > 0, r < zd), z3.Implies(zd < 0, r < -zd))))
        self.assume(z3.Implies(zn <= 0, z3.And(r <= 0, z3.Implies(zd > 0, -r < zd), z3.Implies(zd < 0, -r < -zd))))
        self.assume(z3.Implies(z3.And(zn >= 0, zd > 0), q >= 0))
        self.assume(z3.Implies(z3.And(zn <= 0, zd < 0), q >= 0))
        self.assume(z3.Implies(z3.And(zn >= 0, zd < 0), q <= 0))
        self.assume(z3.Implies(z3.And(zn <= 0, zd > 0), q <= 0))
        self.memo[key] = q
        return q

    def trunc_rem(self, n, d):
        if isc(n) and isc(d):
            return n - d * self.trunc_div(n, d)
        return sub(n, mul(self.trunc_div(n, d), d))

    def wrap(self, x, ty):
        lo, hi = int_range(ty)
        if isc(x):
            m = hi - lo + 1
            return (x - lo) % m + lo
        if self.known(band(cmpop("ge", x, lo), cmpop("le", x, hi))):
            return x
        key = ("wrap", to_z(x).sexpr(), lo, hi)
        if key in self.memo:
            return self.memo[key]
        w, k = self.fresh_int("w"), self.fresh_int("k")
        m = hi - lo + 1
        self.assume(w == x + k * m)
        self.assume(w >= lo)
        self.assume(w <= hi)
        self.memo[key] = w
        return w


def int_range(ty):
    b = ty["bits"]
    if ty["signed"]:
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


class Oblig:
    __slots__ = ("label", "hyps", "goal", "trail", "verdict", "backend", "secs", "fn", "inputs", "model", "sat")

    def __init__(self, label, hyps, goal, trail, fn, inputs):
        self.label, self.hyps, self.goal, self.trail, self.fn, self.inputs = label, hyps, goal, trail, fn, inputs
        self.verdict = self.backend = None
        self.secs = 0.0


BIGINT = "num_bigint::bigint::BigInt"
BIGUINT = "num_bigint::biguint::BigUint"
VEC = "std::vec::Vec"
ARC = "std::sync::Arc"


class Engine:
    def __init__(self, prog, models, contracts, loopspecs=None):
        self.prog = prog
        self.models = models
        self.contracts = contracts
        self.loopspecs = loopspecs or {}
        self.ctr = 0
        self.obligs = []
        self.steps = 0
        self.cur = None
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.inputs = None
        self.max_paths = 4000
        self.max_unroll = 40
        self.no_contract_for = None
        self.raw = False
        self.used_invs = set()
        self.used_axioms = set()
        self.tables = {}

    # ---- quick in-process checks
    def quick_unsat(self, pc, f):
        sol = z3.Solver()
        sol.set("timeout", FEAS_MS)
        sol.set("rlimit", 3000000)
        for p in pc:
            sol.add(p)
        sol.add(f)
        return sol.check() == z3.unsat

    def const_seq(self, st, c):
        """short constant arrays element by element; long tables of integers as a named array (contents in self.tables)"""
        es = [self.const(st, x) for x in c["es"]]
        if len(es) > 64 and all(isc(x) and not isinstance(x, bool) for x in es):
            t = self.prog.ty(c["ty"])
            ety = t.get("t")
            if t["k"] == "ref":
                ety = self.prog.ty(t["t"]).get("t")
            name = "table_" + hashlib.sha1(repr(es).encode()).hexdigest()[:10]
            self.tables[name] = es
            return SSeq(ety, len(es), [z3.Array(name, z3.IntSort(), z3.IntSort())])
        return Arr(es)

    # ---- types
    def is_bigint(self, t):
        return t["k"] == "adt" and t["path"] == BIGINT

    def is_biguint(self, t):
        return t["k"] == "adt" and t["path"] == BIGUINT

    def is_intlike(self, t):
        return t["k"] == "int" or self.is_bigint(t) or self.is_biguint(t)

    def leaf_sorts(self, ti):
        t = self.prog.ty(ti)
        if self.is_intlike(t) or t["k"] == "char":
            return [z3.IntSort()]
        if t["k"] == "bool":
            return [z3.BoolSort()]
        if t["k"] == "tuple":
            return [x for u in t["ts"] for x in self.leaf_sorts(u)]
        if t["k"] == "adt" and t["path"] == ARC:
            return self.leaf_sorts(t["targs"][0])
        if t["k"] == "adt" and t["path"] == VEC:
            return [z3.ArraySort(z3.IntSort(), x) for x in self.leaf_sorts(t["targs"][0])] + [z3.IntSort()]
        if t["k"] == "adt" and t["ak"] == "struct":
            return [x for (_, u) in t["variants"][0]["fields"] for x in self.leaf_sorts(u)]
        raise Unsupported(f"flatten {t['name']}")

    def flatten(self, ti, v):
        t = self.prog.ty(ti)
        if self.is_intlike(t) or t["k"] in ("bool", "char"):
            return [v]
        if t["k"] == "tuple":
            return [x for u, w in zip(t["ts"], v.f) for x in self.flatten(u, w)]
        if t["k"] == "adt" and t["path"] == ARC:
            return self.flatten(t["targs"][0], v)
        if t["k"] == "adt" and t["path"] == VEC:
            if isinstance(v, Arr):
                v = self.as_sseq(t["targs"][0], v)
            return list(v.arrs) + [v.len]
        if t["k"] == "adt" and t["ak"] == "struct":
            return [x for (_, u), w in zip(t["variants"][0]["fields"], v.f) for x in self.flatten(u, w)]
        raise Unsupported(f"flatten {t['name']}")

    def as_sseq(self, ety, v):
        """a sequence of known length as arrays"""
        if isinstance(v, SSeq):
            return v
        arrs = []
        for i, so in enumerate(self.leaf_sorts(ety)):
            arrs.append(z3.K(z3.IntSort(), z3.IntVal(0)) if so == z3.IntSort() else z3.Const(f"nil_{so}".replace(" ", "_").replace("(", "").replace(")", ""), z3.ArraySort(z3.IntSort(), so)))
        for j, x in enumerate(v.e):
            arrs = [z3.Store(a, z3.IntVal(j), to_z(l)) for a, l in zip(arrs, self.flatten(ety, x))]
        return SSeq(ety, len(v.e), arrs)

    def unflatten(self, st, ti, leaves):
        it = iter(leaves)

        def go(ti):
            t = self.prog.ty(ti)
            if self.is_intlike(t) or t["k"] in ("bool", "char"):
                x = next(it)
                if t["k"] == "int":
                    lo, hi = int_range(t)
                    st.assume(band(cmpop("ge", x, lo), cmpop("le", x, hi)))
                elif self.is_biguint(t):
                    st.assume(x >= 0)
                return x
            if t["k"] == "tuple":
                return Tup([go(u) for u in t["ts"]])
            if t["k"] == "adt" and t["path"] == ARC:
                return go(t["targs"][0])
            if t["k"] == "adt" and t["path"] == VEC:
                ety = t["targs"][0]
                arrs = [next(it) for _ in self.leaf_sorts(ety)]
                ln = next(it)
                st.assume(z3.And(to_z(ln) >= 0, to_z(ln) <= (1 << 60)))
                return SSeq(ety, ln, arrs)
            r = Adt(ti, 0, [go(u) for (_, u) in t["variants"][0]["fields"]])
            if t["path"] == "num_rational::Ratio":
                st.assume(to_z(r.f[1]) >= 1)
                st.assume(z3.Function("gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())(to_z(r.f[0]), to_z(r.f[1])) == 1)
            elif t["path"].startswith("algebraics"):
                for h in self.models.inv_hooks:
                    g = self.hook(h, r, st)
                    if g is not None:
                        st.assume(g)
            return r

        return go(ti)

    def fresh(self, st, ti, name):
        """fresh value of type ti -> list of (state, value); enums fork"""
        t = self.prog.ty(ti)
        k = t["k"]
        if k == "int":
            x = st.fresh_int(name)
            lo, hi = int_range(t)
            st.assume(x >= lo)
            st.assume(x <= hi)
            return [(st, x)]
        if k == "bool":
            return [(st, st.fresh_bool(name))]
        if k == "char":
            x = st.fresh_int(name)
            st.assume(z3.And(x >= 0, x <= 0x10FFFF))
            return [(st, x)]
        if self.is_bigint(t):
            return [(st, st.fresh_int(name))]
        if self.is_biguint(t):
            x = st.fresh_int(name)
            st.assume(x >= 0)
            return [(st, x)]
        if k in ("ref", "ptr"):
            out = []
            for (s2, v) in self.fresh(st, t["t"], name):
                out.append((s2, s2.alloc(v)))
            return out
        if k == "tuple":
            return [(a, Tup(v)) for a, v in self.fresh_list(st, [(f"{name}.{i}", u) for i, u in enumerate(t["ts"])])]
        if k == "adt":
            h = self.models.fresh_adt(self, st, t, name)
            if h is not None:
                return h
            if t["path"] == ARC:
                return self.fresh(st, t["targs"][0], name)
            if t["path"] == VEC:
                ety = t["targs"][0]
                ln = st.fresh_int(name + ".len")
                st.assume(z3.And(ln >= 0, ln <= (1 << 60)))
                return [(st, SSeq(ety, ln, [st.fresh_arr(f"{name}.a{i}", so) for i, so in enumerate(self.leaf_sorts(ety))]))]
            if t["ak"] == "union":
                raise Unsupported("fresh union")
            out = []
            for vi, v in enumerate(t["variants"]):
                s2 = st if vi == len(t["variants"]) - 1 else st.fork()
                if t["ak"] == "enum":
                    s2.trail = s2.trail + (f"{name}={v['name']}",)
                for (s3, fs) in self.fresh_list(s2, [(f"{name}.{fn}", fi) for fn, fi in v["fields"]]):
                    out.append((s3, Adt(ti, vi, fs)))
            return out
        if k == "slice":
            ety = t["t"]
            ln = st.fresh_int(name + ".len")
            st.assume(z3.And(ln >= 0, ln <= (1 << 60)))
            return [(st, SSeq(ety, ln, [st.fresh_arr(f"{name}.a{i}", so) for i, so in enumerate(self.leaf_sorts(ety))]))]
        if k == "array":
            n = t["n"]
            if n > 64:
                raise Unsupported("fresh big array")
            return [(a, Arr(v)) for a, v in self.fresh_list(st, [(f"{name}[{i}]", t["t"]) for i in range(n)])]
        if k == "fndef":
            return [(st, FnV(t["inst"]))]
        if k == "closure":
            return [(a, Clo(ti, v)) for a, v in self.fresh_list(st, [(f"{name}.{i}", u) for i, u in enumerate(t["ts"])])]
        if k in ("str", "dyn"):
            return [(st, Opq(name))]
        raise Unsupported(f"fresh {t['name']}")

    def holds_ref(self, v, depth=0):
        if isinstance(v, Ref):
            return True
        return depth < 5 and isinstance(v, (Adt, Tup)) and any(self.holds_ref(x, depth + 1) for x in v.f)

    def refresh(self, st, v, ti, name):
        """arbitrary value in place of v: what is behind its mutable references changes, shared references stay -> [(state, value)]"""
        t = self.prog.ty(ti)
        if t["k"] == "ref":
            if not t["mut"]:
                return [(st, v)]
            out = []
            for (s1, nv) in self.refresh(st, st.read(v), t["t"], name):
                s1.write(v, nv)
                out.append((s1, v))
            return out
        if t["k"] == "adt" and t["path"].split("::")[-1] == "Cow":
            return [(st, v)]
        if not self.holds_ref(v):
            return self.fresh(st, ti, name)
        if isinstance(v, Tup) and t["k"] == "tuple":
            fs, mk = list(zip(map(str, range(len(v.f))), t["ts"])), Tup
        elif isinstance(v, Adt) and t["ak"] == "struct":
            fs, mk = t["variants"][0]["fields"], lambda xs: Adt(v.ty, 0, xs)
        else:
            raise Unsupported("havoc of a value with references")
        outs = [(st, [])]
        for x, (fn_, u) in zip(v.f, fs):
            outs = [(s2, xs + [y]) for (s1, xs) in outs for (s2, y) in self.refresh(s1, x, u, f"{name}.{fn_}")]
        return [(s1, mk(xs)) for (s1, xs) in outs]

    def fresh_list(self, st, items):
        outs = [(st, [])]
        for (nm, ti) in items:
            nxt = []
            for (s1, vs) in outs:
                for (s2, v) in self.fresh(s1, ti, nm):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    # ---- deep snapshot of a value with references followed (for contracts)
    def snap(self, st, v, depth=0):
        if depth > 8:
            return v
        if isinstance(v, Ref):
            return self.snap(st, st.read(v), depth + 1)
        if isinstance(v, Adt):
            return Adt(v.ty, v.var, [self.snap(st, x, depth + 1) for x in v.f])
        if isinstance(v, Tup):
            return Tup([self.snap(st, x, depth + 1) for x in v.f])
        if isinstance(v, Arr):
            return Arr([self.snap(st, x, depth + 1) for x in v.e])
        return v

    # ---- execution
    def push(self, st, fn, args, dest, target, on_return=None):
        if "blocks" not in fn:
            raise Unsupported(f"no MIR for {fn['name']}")
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        f = Frame()
        f.fn = fn
        f.bb = 0
        f.dest, f.target = dest, target
        f.visits, f.inv = {}, {}
        f.on_return = on_return
        n = fn["argc"]
        if fn.get("spread", -1) >= 0:
            pass
        if len(args) != n:
            if len(args) == 2 and isinstance(args[1], Tup) and len(args[1].f) == n - 1:
                args = [args[0]] + list(args[1].f)
            elif len(args) == 1 and n == 0:
                args = []
            else:
                raise Unsupported(f"arity {fn['name']} {len(args)} vs {n}")
        elif n == 2 and isinstance(args[1], Tup) and fn["path"].endswith("}") and "closure" in fn["path"] \
                and len(args[1].f) == 1 and self.prog.ty(fn["locals"][2])["k"] != "tuple":
            args = [args[0], args[1].f[0]]
        elif n == 2 and isinstance(args[1], Tup) and fn["path"].endswith("}") and "closure" in fn["path"] \
                and len(args[1].f) == 1 and isinstance(args[1].f[0], Tup):
            args = [args[0], args[1].f[0]]
        cells = []
        for i, lt in enumerate(fn["locals"]):
            self.ctr += 1
            v = UNINIT
            if 1 <= i <= n:
                v = args[i - 1]
            st.heap[self.ctr] = v
            cells.append(self.ctr)
        f.locals = cells
        st.frames.append(f)
        self.inlined.add(fn["id"])

    def place(self, st, fr, p):
        ref = Ref(fr.locals[p[0]])
        for e in p[1]:
            k = e[0]
            if k == "deref":
                v = st.read(ref)
                v = self.as_ref(v)
                ref = v
            elif k == "f":
                ref = ref.sub(("f", e[1]))
            elif k == "dc":
                ref = ref.sub(("dc", e[1]))
            elif k == "i":
                ref = ref.sub(("i", st.heap[fr.locals[e[1]]]))
            elif k == "ci":
                if e[3]:
                    ref = ref.sub(("i", sub(st.length(ref), e[1])))
                else:
                    ref = ref.sub(("i", e[1]))
            elif k == "ss":
                ln = st.length(ref)
                to = sub(ln, e[2]) if e[3] else e[2]
                ref = ref.sub(("ss", e[1], sub(to, e[1])))
            else:
                raise Unsupported(f"place elem {e}")
        return ref

    def as_ref(self, v):
        while isinstance(v, Adt) and len(v.f) >= 1:
            v = v.f[0]
        if not isinstance(v, Ref):
            raise Unsupported(f"deref of {type(v).__name__} {v}")
        return v

    def place_ty(self, fr, p):
        ti = fr.fn["locals"][p[0]]
        for e in p[1]:
            t = self.prog.ty(ti)
            k = e[0]
            if k == "deref":
                ti = t["t"]
            elif k == "f":
                ti = e[2]
            elif k in ("i", "ci"):
                ti = t["t"]
        return ti

    def const(self, st, c):
        k = c["c"]
        if k == "int":
            t = self.prog.ty(c["ty"])
            if t["k"] == "bool":
                return bool(c["v"])
            return c["v"]
        if k == "float":
            if c["size"] != 8:
                raise Unsupported("float width")
            return Fl(struct.unpack("<d", struct.pack("<Q", c["bits"]))[0])
        if k == "zst":
            t = self.prog.ty(c["ty"])
            if t["k"] == "fndef":
                return FnV(t["inst"])
            return Clo(c["ty"], [])
        if k == "str":
            return st.alloc(Opq("str:" + c["v"]))
        if k == "ref":
            return st.alloc(self.const(st, c["v"]))
        if k == "sliceref":
            return st.alloc(self.const_seq(st, c))
        if k == "array":
            return self.const_seq(st, c)
        if k == "agg":
            t = self.prog.ty(c["ty"])
            es = [self.const(st, x) for x in c["es"]]
            if t["k"] == "tuple":
                return Tup(es)
            return Adt(c["ty"], c["variant"], es)
        if k == "static":
            return st.alloc(Opq("static:" + c["path"]))
        t = self.prog.ty(c["ty"])
        if t["k"] == "tuple" and not t["ts"]:
            return Tup([])
        if t["k"] == "adt" and t["ak"] == "struct" and not t["variants"][0]["fields"]:
            return Adt(c["ty"], 0, [])
        return Opq("const")

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return st.read(self.place(st, fr, o[1]))
        if o[0] == "const":
            return self.const(st, o[1])
        if o[0] == "rtcheck":
            return False
        raise Unsupported("operand")

    def operand_ty(self, fr, o):
        if o[0] in ("copy", "move"):
            return self.place_ty(fr, o[1])
        return o[1]["ty"]

    # ---- rvalues; returns list of (state, value)
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fr, r[1]))]
        if k in ("ref", "rawptr"):
            p = r[2] if k == "ref" else r[1]
            return [(st, self.place(st, fr, p))]
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "adt":
                t = self.prog.ty(a[1])
                if t["ak"] == "union":
                    raise Unsupported("union aggregate")
                return [(st, Adt(a[1], a[2], vs))]
            if a[0] == "tuple":
                return [(st, Tup(vs))]
            if a[0] == "array":
                return [(st, Arr(vs))]
            if a[0] == "closure":
                return [(st, Clo(a[1], vs))]
            raise Unsupported(f"aggregate {a}")
        if k == "discr":
            v = st.read(self.place(st, fr, r[1]))
            if isinstance(v, Adt):
                t = self.prog.ty(v.ty)
                if v.var < 0:
                    raise Unsupported("variant of a value of unknown variant")
                return [(st, t["variants"][v.var]["discr"])]
            raise Unsupported(f"discriminant of {type(v).__name__}")
        if k == "bin":
            return self.binop(st, fr, r)
        if k == "un":
            v = self.operand(st, fr, r[2])
            op = r[1]
            t = self.prog.ty(self.operand_ty(fr, r[2]))
            if op == "Not":
                if t["k"] == "bool":
                    return [(st, bnot(v))]
                if t["k"] == "int":
                    if t["signed"]:
                        return [(st, sub(-1, v))]
                    return [(st, sub(int_range(t)[1], v))]
            if op == "Neg":
                return [(st, st.wrap(neg(v), t))]
            if op == "PtrMetadata":
                return [(st, st.length(v))]
            raise Unsupported(f"unop {op}")
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] < 0 or r[2] > 4096:
                raise Unsupported("repeat")
            return [(st, Arr([v] * r[2]))]
        raise Unsupported(f"rvalue {k} {str(r)[:80]}")

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r[2])
        kind = r[1]
        tgt = self.prog.ty(r[3])
        if kind == "IntToInt":
            if isinstance(v, bool):
                v = int(v)
            elif isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if tgt["k"] == "int":
                return [(st, st.wrap(v, tgt))]
            return [(st, v)]
        if kind == "IntToFloat" and tgt["name"] == "f64":
            return [(st, self.models.float_app(st, "of_int", v))]
        if kind == "FloatToInt" and isinstance(v, Fl) and tgt["k"] == "int":
            lo, hi = int_range(tgt)
            x = self.models.float_app(st, f"to_{tgt['name']}", v)
            if isinstance(x, z3.ExprRef):
                st.assume(z3.And(x >= lo, x <= hi))
            return [(st, x)]
        if kind.startswith("PointerCoercion(Unsize") or kind.startswith("PointerCoercion(MutToConst") or kind.startswith("PtrToPtr"):
            return [(st, v)]
        if kind.startswith("PointerCoercion(ReifyFn") or kind.startswith("PointerCoercion(ClosureFn"):
            return [(st, v)]
        if kind.startswith("BoxDeref"):
            return [(st, v)]
        if kind.startswith("Transmute") and isinstance(v, Ref) and tgt["k"] == "int":
            x = st.fresh_int("addr")          # the address of a live object: non-null and aligned
            st.assume(z3.And(x >= 4096, x < (1 << 62), x % 4096 == 0))
            return [(st, x)]
        if kind.startswith("Transmute") or kind.startswith("Subtype"):
            if isinstance(v, (Ref,)):
                return [(st, v)]
            if isinstance(v, Adt):
                x = v
                while isinstance(x, Adt) and x.f:
                    x = x.f[0]
                if isinstance(x, Ref):
                    return [(st, x)]
        raise Unsupported(f"cast {kind}")

    def binop(self, st, fr, r):
        op = r[1]
        a = self.operand(st, fr, r[2])
        b = self.operand(st, fr, r[3])
        t = self.prog.ty(self.operand_ty(fr, r[2]))
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ("Eq", "Ne") and isinstance(a, Ref) and isinstance(b, Ref):
                eq = a.cell == b.cell and len(a.path) == len(b.path) and all(str(x) == str(y) for x, y in zip(a.path, b.path))
                return [(st, eq if op == "Eq" else not eq)]
            raise Unsupported("pointer op")
        cm = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}
        if op in cm:
            for x in (a, b):
                if not (isc(x) or isinstance(x, z3.ExprRef)):
                    raise Unsupported(f"compare {type(x).__name__}")
            if t["k"] == "bool" and op not in ("Eq", "Ne"):
                a = ite(a, 1, 0)
                b = ite(b, 1, 0)
            if isinstance(a, bool) != isinstance(b, bool) and t["k"] == "bool":
                a, b = to_z(a), to_z(b)
            return [(st, cmpop(cm[op], a, b))]
        if op == "Cmp":
            return self.fork_cmp(st, a, b, self.ordering_ty())
        if t["k"] == "bool":
            if op == "BitAnd":
                return [(st, band(a, b))]
            if op == "BitOr":
                return [(st, bor(a, b))]
            if op == "BitXor":
                if isc(a) and isc(b):
                    return [(st, a != b)]
                return [(st, s(z3.Xor(to_z(a), to_z(b))))]
        if isinstance(a, Fl) and isinstance(b, Fl) and op in ("Add", "Mul"):
            return [(st, self.models.float_bin(st, op, a, b))]
        if t["k"] != "int":
            raise Unsupported(f"binop {op} on {t['name']}")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b)
            if op.endswith("WithOverflow"):
                lo, hi = int_range(t)
                ok = band(cmpop("ge", v, lo), cmpop("le", v, hi))
                out = []
                if isc(ok):
                    return [(st, Tup([st.wrap(v, t), not ok]))]
                if st.known(ok):
                    return [(st, Tup([v, False]))]
                s2 = st.fork()
                st.assume(ok)
                out.append((st, Tup([v, False])))
                nk = z3.Not(ok)
                if s2.feasible(nk):
                    s2.assume(nk)
                    s2.trail = s2.trail + (f"overflow-{base}",)
                    out.append((s2, Tup([s2.wrap(v, t), True])))
                return out
            if op.endswith("Unchecked"):
                return [(st, v)]
            return [(st, st.wrap(v, t))]
        if base == "Div":
            return [(st, st.wrap(st.trunc_div(a, b), t))]
        if base == "Rem":
            return [(st, st.trunc_rem(a, b))]
        if base == "Shl":
            if isc(b):
                return [(st, st.wrap(mul(a, 1 << (b % t["bits"])), t))]
            return [(st, st.wrap(mul(a, st.pow2(b)), t))]
        if base == "Shr":
            if isc(b):
                return [(st, st.floor_div(a, 1 << (b % t["bits"])))]
            return [(st, st.floor_div(a, st.pow2(b)))]
        if base == "BitAnd":
            if isc(a) and isc(b):
                return [(st, a & b)]
            if isc(b) and b >= 0 and (b & (b + 1)) == 0:
                return [(st, st.mod_floor(a, b + 1))]
            if isc(a) and a >= 0 and (a & (a + 1)) == 0:
                return [(st, st.mod_floor(b, a + 1))]
        if base in ("BitOr", "BitXor", "BitAnd") and isc(a) != isc(b):
            x, m = (a, b) if isc(b) else (b, a)
            if m > 0 and m & (m - 1) == 0 and not (t["signed"] and m >= 1 << (t["bits"] - 1)):
                bit = st.mod_floor(st.floor_div(x, m), 2)       # one bit
                return [(st, add(x, mul(m, sub(1, bit))) if base == "BitOr" else add(x, mul(m, sub(1, mul(2, bit)))) if base == "BitXor" else mul(m, bit))]
        if base == "BitOr" and not (isc(a) and isc(b)):
            # disjoint bits: a is a multiple of a power of two p (recorded by an invariant) and 0 <= b < p
            for (x, p, g) in st.ghost.get("mult", ()):
                if isinstance(x, z3.ExprRef) and isinstance(a, z3.ExprRef) and x.eq(a) and st.known(band(g, cmpop("ge", b, 0), cmpop("lt", b, p))):
                    return [(st, add(a, b))]
        if isc(a) and isc(b):
            if base == "BitOr":
                return [(st, a | b)]
            if base == "BitXor":
                return [(st, a ^ b)]
        raise Unsupported(f"binop {op}")

    def ordering_ty(self):
        for t in self.prog.types:
            if t["k"] == "adt" and t["path"] == "std::cmp::Ordering":
                return t["id"]
        raise Unsupported("no Ordering type")

    def fork_cmp(self, st, a, b, oty, wrap=None):
        w = wrap or (lambda x: x)
        out = []
        for var, c in ((0, cmpop("lt", a, b)), (1, cmpop("eq", a, b)), (2, cmpop("gt", a, b))):
            if isc(c):
                if c:
                    return [(st, w(Adt(oty, var, [])))]
                continue
            if st.feasible(c):
                s2 = st.fork()
                s2.assume(c)
                s2.trail = s2.trail + (("lt", "eq", "gt")[var],)
                out.append((s2, w(Adt(oty, var, []))))
        return out

    def fork_bool(self, st, c, label=""):
        """-> list of (state, bool)"""
        if isc(c):
            return [(st, bool(c))]
        out = []
        for val, f in ((True, c), (False, z3.Not(c))):
            if st.feasible(f):
                s2 = st.fork()
                s2.assume(f)
                s2.trail = s2.trail + (f"{label}{'T' if val else 'F'}",)
                out.append((s2, val))
        return out

    # ---- main loop: runs until all frames above `base` returned; collects terminal events
    def run(self, st0, on_return, on_panic):
        """execute until the frame stack is empty; on_return(st, value), on_panic(st, msg)"""
        work = [st0]
        paths = 0
        while work:
            st = work.pop()
            paths += 1
            if paths > self.max_paths:
                raise Unsupported("too many paths")
            while True:
                if self.owner is not None and len(st.trail) >= self.owner[2] and not self.mine(st):
                    break
                nxt = self.step(st, on_return, on_panic)
                if nxt is None:
                    break
                if len(nxt) == 1:
                    st = nxt[0]
                    continue
                work.extend(nxt)
                break

    def do_return(self, st, on_return):
        fr = st.frames.pop()
        v = st.heap[fr.locals[0]]
        if isinstance(v, Opq) and v.what == "uninit":
            t = self.prog.ty(fr.fn["locals"][0])
            if t["k"] == "tuple" and not t["ts"]:
                v = Tup([])
            elif t["k"] == "adt" and t["ak"] == "struct" and not t["variants"][0]["fields"]:
                v = Adt(t["id"], 0, [])
        if fr.on_return is not None:
            return fr.on_return(st, v)
        if not st.frames:
            on_return(st, v)
            return None
        if fr.dest is not None:
            st.write(fr.dest, v)
        st.frames[-1].bb = fr.target
        return [st]

    def step(self, st, on_return, on_panic):
        """execute one basic block"""
        self.steps += 1
        fr = st.frames[-1]
        fn = fr.fn
        headers, loops = self.prog.loop_headers(fn)
        if fr.bb in loops:
            r = self.at_header(st, fr, loops[fr.bb])
            if r is not None:
                return r
        blk = fn["blocks"][fr.bb]
        sts = self.run_stmts(st, blk["s"], 0)
        if len(sts) == 1:
            return self.term(sts[0], blk, on_return, on_panic)
        out = []
        for s2 in sts:
            r = self.term(s2, blk, on_return, on_panic)
            if r:
                out.extend(r)
        return out or None

    def run_stmts(self, st, stmts, i):
        while i < len(stmts):
            fr = st.frames[-1]
            x = stmts[i]
            if x[0] == "=":
                try:
                    rs = self.rvalue(st, fr, x[2])
                except Unsupported as e:
                    raise Unsupported(f"{e} in {fr.fn['name'][:120]} bb{fr.bb}")
                if len(rs) == 1:
                    st, v = rs[0]
                    fr = st.frames[-1]
                    st.write(self.place(st, fr, x[1]), v)
                else:
                    out = []
                    for (s2, v) in rs:
                        s2.write(self.place(s2, s2.frames[-1], x[1]), v)
                        out.extend(self.run_stmts(s2, stmts, i + 1))
                    return out
            elif x[0] == "setdiscr":
                raise Unsupported("setdiscr")
            elif x[0] == "assume":
                v = self.operand(st, fr, x[1])
                st.assume(v)
            elif x[0] == "copyno":
                raise Unsupported("copy_nonoverlapping")
            i += 1
        return [st]

    def at_header(self, st, fr, body):
        """loop handling; None -> continue executing normally"""
        fn, h = fr.fn, fr.bb
        spec = None
        lid = None
        for key, sp in self.loopspecs.items():
            if key(fn):
                order, loops = self.prog.loop_headers(fn)
                lid = order.index(h)
                spec = sp.get(lid)
                break
        n = fr.visits.get(h, 0) + 1
        fr.visits[h] = n
        if spec is None:
            if n > self.max_unroll:
                raise Unsupported(f"loop without invariant in {fn['name'][:120]}")
            return None
        self.used_invs.add((fn["path"], lid))
        return spec.at_header(self, st, fr, body, lid, n)

    def term(self, st, blk, on_return, on_panic):
        fr = st.frames[-1]
        t = blk["t"]
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            return [st]
        if k == "return":
            return self.do_return(st, on_return)
        if k == "switch":
            v = self.operand(st, fr, t[1])
            dt = self.prog.ty(t[4])

            def conv(x):
                if dt["k"] == "int" and dt["signed"] and x >= (1 << (dt["bits"] - 1)):
                    return x - (1 << dt["bits"])
                return x
            if isc(v):
                iv = int(v)
                for (x, b) in t[2]:
                    if conv(x) == iv:
                        fr.bb = b
                        return [st]
                fr.bb = t[3]
                return [st]
            if not isinstance(v, z3.ExprRef):
                raise Unsupported(f"switch on {type(v).__name__}")
            out = []
            rest = []
            if isinstance(v, z3.BoolRef):
                opts = [(z3.Not(v) if x == 0 else v, b) for (x, b) in t[2]]
            else:
                opts = [(v == conv(x), b) for (x, b) in t[2]]
            for c, b in opts:
                rest.append(z3.Not(c))
                if st.feasible(c):
                    s2 = st.fork()
                    s2.assume(s(c))
                    s2.frames[-1].bb = b
                    s2.trail = s2.trail + (f"L{blk['l']}",)
                    out.append(s2)
            ob = fr.fn["blocks"][t[3]]
            if ob["t"][0] != "unreachable" or ob["s"]:
                c = s(z3.And(*rest))
                if st.feasible(c):
                    st.assume(c)
                    st.frames[-1].bb = t[3]
                    st.trail = st.trail + (f"L{blk['l']}e",)
                    out.append(st)
            return out or None
        if k == "assert":
            c = self.operand(st, fr, t[1])
            good = c if t[2] else bnot(c)
            outs = []
            for (s2, b) in self.fork_bool(st, good, f"assert@{blk['l']}:"):
                if b:
                    s2.frames[-1].bb = t[4]
                    outs.append(s2)
                else:
                    on_panic(s2, "assert " + t[3][:80])
            return outs or None
        if k == "call":
            return self.call(st, fr, t, blk, on_panic, on_return)
        if k == "unreachable":
            return None
        raise Unsupported(f"terminator {k} {str(t)[:60]}")

    def finish(self, st, dest, target, v, on_panic=None):
        st.write(dest, v)
        st.frames[-1].bb = target
        return st

    def call(self, st, fr, t, blk, on_panic, on_return):
        _, fti, fop, aops, dplace, target = t
        ft = self.prog.ty(fti)
        args = [self.operand(st, fr, a) for a in aops]
        dest = self.place(st, fr, dplace)
        if ft["k"] == "fndef":
            inst = ft["inst"]
        else:
            fv = self.operand(st, fr, fop)
            if isinstance(fv, FnV):
                inst = fv.inst
            else:
                raise Unsupported("indirect call")
        if inst < 0:
            raise Unsupported(f"unresolved call {ft['name']}")
        return self.invoke(st, inst, args, dest, target, on_panic, on_return, blk["l"])

    def invoke(self, st, inst, args, dest, target, on_panic, on_return, line=0):
        fn = self.prog.fns[inst]
        if target < 0:
            # diverging call
            msg = fn["path"]
            on_panic(st, msg)
            return None
        # contracts first
        c = self.contract_for(fn)
        if c is not None and (fn["id"] != self.no_contract_for or c.recursive and st.frames) and not c.inline:
            outs = self.apply_contract(st, fn, c, args, on_panic)
            res = []
            for (s2, v) in outs:
                res.append(self.finish(s2, dest, target, v))
            return res or None
        m = self.models.lookup(self, fn)
        if m is not None:
            self.used_models.add(fn["path"] if not fn["trait"] else f"<{self.prog.ty(fn['self_ty'])['name'] if fn['self_ty']>=0 else '_'} as {fn['trait']}>::{fn['method']}")
            r = m(Call(self, st, fn, args, dest, target, on_panic, on_return))
            if r is None:
                return None
            if isinstance(r, Pushed):
                return [r.st]
            res = []
            for (s2, v) in r:
                if isinstance(v, Pushed):
                    res.append(s2)
                else:
                    res.append(self.finish(s2, dest, target, v))
            return res or None
        if "blocks" not in fn:
            raise Unsupported(f"external {fn['name'][:160]}")
        if sum(1 for f in st.frames if f.fn["id"] == fn["id"]) > 3:
            raise Unsupported(f"recursion {fn['name'][:100]}")
        self.push(st, fn, args, dest, target)
        return [st]

    def contract_for(self, fn):
        if "_contract" not in fn:
            fn["_contract"] = None
            for c in self.contracts:
                if c.matches(self, fn):
                    fn["_contract"] = c
                    break
        return fn["_contract"]

    def hook(self, h, v, st):
        return h(self, v, st) if getattr(h, "with_state", False) else h(self, v)

    def type_inv(self, v, depth=0, st=None):
        """data invariants of the crate's types (assumed for arguments, proved at call sites)"""
        out = []
        if isinstance(v, Adt):
            for h in self.models.inv_hooks:
                r = self.hook(h, v, st)
                if r is not None:
                    return [r]
        if isinstance(v, (Adt, Tup)) and depth < 3:
            for x in v.f:
                out += self.type_inv(x, depth + 1, st)
        return out

    # ---- contracts at call sites
    def apply_contract(self, st, fn, c, args, on_panic):
        self.used_contracts.add((fn["id"], c.name))
        a = [self.snap(st, x) for x in args]
        ctx = Ctx(self, st, fn, a, None, None)
        ctx.calling = True
        hook = st.ghost.get("before:" + c.name)
        if hook is not None:
            hook(st, a)
        for i, x in enumerate(a):
            if i not in c.raw_args:
                for g in self.type_inv(x, 0, st):
                    if not (isc(g) and g):
                        self.oblige(st, f"{c.name}/pre/type-invariant-arg{i}", g)
        for cl in c.requires(ctx) or []:
            cl.oblige(self, st, f"{c.name}/pre/{cl.label}")
            st.assume(cl.goal)
        p = c.panics(ctx)
        if not (isc(p) and not p):
            out = self.fork_bool(st, p, "panics:")
            live = []
            for (s2, b) in out:
                if b:
                    on_panic(s2, f"callee {c.name}")
                else:
                    live.append(s2)
        else:
            live = [st]
        res = []
        tys = fn["locals"][1:1 + fn["argc"]] if "locals" in fn else fn["sig"]
        rty = fn["locals"][0] if "locals" in fn else fn["ret"]
        for s1 in live:
            # havoc &mut pointees
            muts = []
            outs = [(s1, [])]
            for i, (ti, v) in enumerate(zip(tys, args)):
                t = self.prog.ty(ti)
                if t["k"] == "ref" and t["mut"]:
                    nx = []
                    for (sx, ms) in outs:
                        for (sy, nv) in (self.refresh if self.holds_ref(sx.read(v)) else self.fresh_of)(sx, sx.read(v), t["t"], f"{c.name}.mut{i}"):
                            nv = c.exact(ctx, sy, nv, i)
                            sy.write(v, nv)
                            nx.append((sy, ms + [nv]))
                    outs = nx
                elif t["k"] in ("adt", "tuple") and self.holds_ref(v) and self.mut_refs(ti):
                    # consumed: anything behind its mutable references may have changed
                    outs = [(sy, ms + [None]) for (sx, ms) in outs for (sy, _) in self.refresh(sx, v, ti, f"{c.name}.mut{i}")]
                else:
                    outs = [(sx, ms + [None]) for (sx, ms) in outs]
            for (sx, ms) in outs:
                for (sy, rv) in self.fresh(sx, rty, f"{c.name}.ret"):
                    if isinstance(rv, Ref):
                        sy.write(rv, c.exact(ctx, sy, sy.read(rv), None))
                    else:
                        rv = c.exact(ctx, sy, rv, None)
                    news = [self.snap(sy, x) if x is not None else None for x in ms]
                    ctx2 = Ctx(self, sy, fn, a, self.snap(sy, rv), news)
                    ctx2.assuming = True
                    dead = False
                    for cl in c.ensures(ctx2) or []:
                        if cl.export:
                            g = implies(band(*cl.hyps), cl.goal) if cl.hyps else cl.goal
                            if isc(g) and not g:
                                dead = True
                                break
                            sy.assume(g)
                    if not dead:
                        for h in self.models.post_hooks:
                            h(c, ctx2)
                    if not dead and (len(outs) == 1 and True) and sy.feasible():
                        res.append((sy, rv))
                    elif not dead and sy.feasible():
                        res.append((sy, rv))
        return res

    def fresh_of(self, st, v, ti, name):
        return self.fresh(st, ti, name)

    def mut_refs(self, ti, depth=0):
        """does the type hold a mutable reference?"""
        t = self.prog.ty(ti)
        if t["k"] == "ref":
            return t["mut"]
        if depth > 4:
            return False
        if t["k"] == "tuple":
            return any(self.mut_refs(u, depth + 1) for u in t["ts"])
        if t["k"] == "adt" and t["path"].startswith("algebraics"):
            return any(self.mut_refs(u, depth + 1) for v in t["variants"] for (_, u) in v["fields"])
        return False

    opaque = False
    owner = None        # (i, k, D): this process handles the paths whose first D branch labels hash to i modulo k; part 0 also the prefixes

    def mine(self, st):
        i, k, d = self.owner
        return (zlib.crc32(repr(st.trail[:d]).encode()) % k if len(st.trail) >= d else 0) == i

    def oblige(self, st, label, goal, hyps=(), alone=False, core=False):
        if self.owner is not None and not self.mine(st):
            return
        if isc(goal) and goal:
            # trivially true by construction: still counted
            o = Oblig(label, None, True, st.trail, self.cur, self.inputs)
            o.verdict, o.backend = "proved", "simplifier"
            self.obligs.append(o)
            return
        hs = ([] if alone else list(st.pc)) + [to_z(h) for h in hyps]
        if among(to_z(goal), hs):
            o = Oblig(label, None, True, st.trail, self.cur, self.inputs)
            o.verdict, o.backend = "proved", "syntactic"
            self.obligs.append(o)
            return
        if core:
            hs = [h for h in hs if not nonlinear_int(h)]       # fewer hypotheses: sound
        for f in self.models.lemma_hooks:
            hs += f(hs + [to_z(goal)])
        o = Oblig(label, hs, to_z(goal), st.trail, self.cur, self.inputs)
        self.obligs.append(o)

    # ---- verify one function against a contract
    def verify(self, fn, c, label=None, part=None):
        """generate obligations; returns number of (return paths, panic paths); part (i, k): every k-th starting case"""
        self.cur = label or c.name
        self.opaque = getattr(c, "opaque", False)       # parts the function never looks into stay unresolved
        st = State(self)
        tys = fn["locals"][1:1 + fn["argc"]]
        names = {}
        for (nm, pl, ai) in fn["dbg"]:
            if not pl[1] and 1 <= pl[0] <= fn["argc"]:
                names[pl[0]] = nm
        d = getattr(c, "split_depth", None)
        self.owner = (part[0], part[1], d) if part is not None and d is not None else None
        starts = [(st, [])]
        for i, ti in enumerate(tys):
            self.raw = i in c.raw_args
            starts = [(s2, xs + [x]) for (s1, xs) in starts for (s2, x) in self.fresh(s1, ti, f"{names.get(i+1, 'a'+str(i))}")]
            self.raw = False
        stats = {"ret": 0, "panic": 0, "starts": 0}
        saved = self.no_contract_for
        self.no_contract_for = fn["id"]
        try:
            for si, (s0, args) in enumerate(starts):
                if part is not None and self.owner is None and si % part[1] != part[0]:
                    continue
                a = [self.snap(s0, x) for x in args]
                ctx = Ctx(self, s0, fn, a, None, None)
                for cl in c.requires(ctx) or []:
                    s0.assume(cl.goal)
                if not s0.feasible():
                    continue
                stats["starts"] += 1
                self.inputs = (fn, a, c)
                panics = c.panics(ctx)

                def on_return(s1, v, a=a, args=args, panics=panics):
                    stats["ret"] += 1
                    news = []
                    for ti, x in zip(tys, args):
                        t = self.prog.ty(ti)
                        news.append(self.snap(s1, x) if t["k"] == "ref" and t["mut"] else None)
                    ctx2 = Ctx(self, s1, fn, a, self.snap(s1, v), news)
                    if not (isc(panics) and not panics):
                        self.oblige(s1, f"{self.cur}/must-panic-when-required", bnot(panics))
                    for cl in c.ensures(ctx2) or []:
                        cl.oblige(self, s1, f"{self.cur}/ensures/{cl.label}")

                def on_panic(s1, msg, panics=panics):
                    if not s1.feasible():
                        return
                    stats["panic"] += 1
                    self.oblige(s1, f"{self.cur}/no-panic/{msg[:60]}", panics)

                self.entry = (list(s0.pc), list(s0.pow2s), dict(s0.memo), set(s0.heap), dict(s0.ghost))
                self.cuts = set()
                self.push(s0, fn, args, None, None)
                self.run(s0, on_return, on_panic)
        finally:
            self.no_contract_for = saved
        return stats


class Pushed:
    def __init__(self, st):
        self.st = st


class Call:
    """what a model sees"""

    def __init__(self, eng, st, fn, args, dest, target, on_panic, on_return):
        self.eng, self.st, self.fn, self.args = eng, st, fn, args
        self.dest, self.target, self.on_panic, self.on_return = dest, target, on_panic, on_return

    def rty(self):
        return self.fn["locals"][0] if "locals" in self.fn else self.fn.get("ret", -1)

    def aty(self, i):
        return self.fn["locals"][1 + i] if "locals" in self.fn else self.fn["sig"][i]

    def val(self, i):
        v = self.args[i]
        while isinstance(v, Ref):
            v = self.st.read(v)
        return v


NLI = {}


def conjuncts(e):
    if z3.is_and(e):
        for x in e.children():
            yield from conjuncts(x)
    else:
        yield e


def among(goal, hs):
    """every conjunct of the goal is (a conjunct of) a hypothesis"""
    want = {x.get_id() for x in conjuncts(goal) if not z3.is_true(x)}
    for h in hs:
        i = h.get_id()
        if i in want:
            want.discard(i)
        elif z3.is_and(h):
            want.difference_update([x.get_id() for x in conjuncts(h)])
        if not want:
            return True
    return not want


def nonlinear_int(e):
    """contains a product of two non-constant integer terms"""
    k = e.get_id()
    if k not in NLI:
        NLI[k] = (e, nonlinear_int1(e))     # the term is kept alive: its id stays its own
    return NLI[k][1]


def nonlinear_int1(e):
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL and x.sort() == z3.IntSort() and sum(not z3.is_int_value(y) for y in x.children()) > 1:
                return True
            stack.extend(x.children())
    return False


class Clause:
    """core: proved without the hypotheses that multiply integers; alone: proved from hyps only; lemma: available to the clauses after it"""
    __slots__ = ("label", "goal", "hyps", "export", "alone", "lemma", "core")

    def __init__(self, label, goal, hyps=(), export=True, alone=False, lemma=False, core=False):
        self.core = core
        self.label, self.goal, self.hyps, self.export, self.alone, self.lemma = label, goal, list(hyps), export, alone, lemma

    def oblige(self, eng, st, label):
        eng.oblige(st, label, self.goal, self.hyps, self.alone, self.core)
        if self.lemma:
            st.assume(implies(band(*self.hyps), self.goal) if self.hyps else self.goal)


class Ctx:
    """contract evaluation context: a = argument snapshots, r = result, n = &mut results"""
    assuming = False     # postcondition at a call site
    calling = False      # precondition at a call site

    def __init__(self, eng, st, fn, a, r, n):
        self.eng, self.st, self.fn, self.a, self.r, self.n = eng, st, fn, a, r, n

    def aty(self, i):
        f = self.fn
        ti = f["locals"][1 + i] if "locals" in f else f["sig"][i]
        return self.eng.prog.ty(self.eng.prog.deref_ty(ti))

    def rty(self):
        f = self.fn
        return self.eng.prog.ty(f["locals"][0] if "locals" in f else f["ret"])


class Contract:
    name = "?"
    raw_args = ()        # arguments whose type invariant is neither assumed nor required
    recursive = False    # calls of the function in its own body are checked against the contract (partial correctness)
    inline = False       # proved on its own, but callers see the body (cheaper than the contract for pass-through functions)

    def matches(self, eng, fn):
        return False

    def requires(self, c):
        return []

    def exact(self, c, st, v, i):
        """at a call site: the value of the result (i None) or of the mutated argument i where the postcondition determines it
        (checked like the rest: the postcondition is assumed of the value returned here); v is an arbitrary value"""
        return v

    def panics(self, c):
        return False

    def ensures(self, c):
        return []
