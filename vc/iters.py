"""Whole-sequence iterator operations (map/collect, for_each, fold, extend) on sequences of symbolic length, and the
evaluation / gcd functions of coefficient sequences.

A sequence A[0..n) of integers has the value EV(A, n) = sum A[k]*X^k at an arbitrary, never constrained integer X: an
identity between EV terms is an identity of polynomials.  GA(A, n, d) is the gcd of d and all elements.

map / for_each: the closure is executed at one arbitrary index J; relations between the source element and the result that
the solver proves for that J hold for every index, and their consequences for EV / GA are used.  Nothing else is known about
the produced sequence.  fold: the closure is executed on an arbitrary accumulator and element and has to be gcd or lcm."""
import z3
import models as M
from values import *
from engine import Frame, VEC
from loops import collect_mut_refs

I = z3.IntSort()
AR = z3.ArraySort(I, I)
EV = z3.Function("EV", AR, I, I)
DV = z3.Function("DV", AR, I, I)          # sum k*A[k]*X^(k-1)
XP = z3.Function("XP", I, I)
X = z3.Int("X")
GA = z3.Function("GA", AR, I, I, I)
LA = z3.Function("LA", AR, I, I)          # lcm of A[0..n)
QV = z3.Function("QV", AR, AR, I, z3.RealSort())   # sum (N[k]/D[k]) X^k
ALLZ = z3.Function("ALLZ", AR, I, z3.BoolSort())
EVR = z3.Function("EVR", AR, I, z3.RealSort(), z3.RealSort())      # sum A[k] x^k
RP = z3.Function("RP", z3.RealSort(), I, z3.RealSort())            # x^k
VAL = M.VAL
PW = z3.Function("PW", I, I, I)                                   # b^k
HQ = z3.Function("HQ", AR, I, I, I, I)     # quotient so far: HQ(A,0)=0, HQ(A,t+1) = lc*HQ(A,t) + A[t]*X^(n-1-t)
ADIV = z3.Function("ADIV", AR, I, I, z3.BoolSort())               # d divides A[0..n)
GCD = M.GCD
AX = ("EV(A,n) = sum_{k<n} A[k]*X^k and DV its formal derivative, GA(A,n,d) = gcd(d, A[0..n)), LA = lcm, X an unconstrained integer: unfolding, update, "
      "scaling and monomial lemmas of these finite sums / gcds (also: numerators over the lcm of reduced denominators have gcd 1 with it)")
ZERO = z3.K(I, z3.IntVal(0))


def is_store(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE


def is_k(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY


def cval(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


COLL = {}


def collect(es, decls, out, seen):
    """the applications of the functions decls (a frozenset) that occur in es"""
    for f in es:
        k = (f.get_id(), decls)
        if k not in COLL:
            ts, sn, stack = [], set(), [f]
            while stack:
                e = stack.pop()
                i = e.get_id()
                if i in sn:
                    continue
                sn.add(i)
                if z3.is_quantifier(e):
                    continue
                if z3.is_app(e):
                    if e.decl().name() in decls and e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        ts.append(e)
                    stack.extend(e.children())
            COLL[k] = (f, ts)       # the term is kept alive: its id stays its own
        for e in COLL[k][1]:
            if e.get_id() not in seen:
                seen.add(e.get_id())
                out.append(e)


def sels(fs):
    out, seen, stack = [], set(), list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_SELECT:
                out.append(e)
            stack.extend(e.children())
    return out


NAMES = frozenset({"EV", "XP", "GA", "DV", "QV", "EVR", "RP", "PW", "HQ", "ADIV"})


def lemmas(fs):
    """ground instances for the EV / XP / GA / DV terms that occur (closed under what the instances introduce)"""
    seen, out, done = set(), [], set()
    terms = []
    names = NAMES
    collect(fs, names, terms, seen)
    if not terms:
        return []
    i = 0
    evs, xps, gas, evr, rps, pws, hqs = [], [], [], [], [], [], []

    def emit(f):
        out.append(f)
        collect([f], names, terms, seen)

    while i < len(terms) and len(out) < 900:
        t = terms[i]
        i += 1
        nm = t.decl().name()
        if nm == "EV" or nm == "DV":
            A, n = t.arg(0), t.arg(1)
            F = EV if nm == "EV" else DV
            w = (lambda k, v: v * XP(k)) if nm == "EV" else (lambda k, v: k * v * XP(k - 1))
            c = cval(n)
            if c is not None and c <= 0 or is_k(A) and cval(A.arg(0)) == 0:
                emit(t == 0)
                continue
            emit(z3.Implies(n <= 0, t == 0))
            if c is not None and c <= 6:
                emit(t == F(A, z3.IntVal(c - 1)) + w(z3.IntVal(c - 1), z3.simplify(z3.Select(A, z3.IntVal(c - 1)))))
                continue
            if is_store(A):
                B, k, v = A.arg(0), A.arg(1), A.arg(2)
                d = cval(n - k)
                if d == 1:
                    emit(z3.Implies(k >= 0, t == F(B, k) + w(k, v)))
                elif d is not None and d <= 0:
                    emit(t == F(B, n))
                else:
                    emit(t == F(B, n) + z3.If(z3.And(0 <= k, k < n), w(k, v) - w(k, z3.Select(B, k)), 0))
            for (B, m, u) in evs:
                if B.get_id() == A.get_id() and u.decl().name() == nm:
                    d = cval(n - m)
                    if d == 1:
                        emit(z3.Implies(m >= 0, t == u + w(m, z3.Select(A, m))))
                    elif d == -1:
                        emit(z3.Implies(n >= 0, u == t + w(n, z3.Select(A, n))))
            evs.append((A, n, t))
        elif nm == "XP":
            n = z3.simplify(t.arg(0))
            c = cval(n)
            if c is not None:
                if c == 0:
                    emit(t == 1)
                elif 0 < c <= 6:
                    p = X
                    for _ in range(c - 1):
                        p = p * X
                    emit(t == p)
                continue
            emit(z3.Implies(n == 0, t == 1))
            for (m, u) in xps:
                d = cval(n - m)
                if d is not None and 0 < d <= 3:
                    p = u
                    for _ in range(d):
                        p = p * X
                    emit(z3.Implies(m >= 0, t == p))
                elif d is not None and -3 <= d < 0:
                    p = t
                    for _ in range(-d):
                        p = p * X
                    emit(z3.Implies(n >= 0, u == p))
            xps.append((n, t))
            for x in range(len(xps)):
                for y in range(x, len(xps)):
                    for z in range(len(xps)):
                        if z in (x, y) or len(xps) - 1 not in (x, y, z):
                            continue
                        a, b, c_ = xps[x], xps[y], xps[z]
                        key = (a[1].get_id(), b[1].get_id(), c_[1].get_id())
                        if key not in done and cval(a[0] + b[0] - c_[0]) == 0:
                            done.add(key)
                            emit(z3.Implies(z3.And(a[0] >= 0, b[0] >= 0), c_[1] == a[1] * b[1]))
        elif nm == "EVR":
            A, n, x = t.children()
            emit(z3.Implies(n <= 0, t == 0))
            for u in evr:
                if u.arg(0).get_id() == A.get_id() and u.arg(2).get_id() == x.get_id():
                    m = u.arg(1)
                    d = cval(n - m)
                    if d == 1:
                        emit(z3.Implies(m >= 0, t == u + z3.ToReal(z3.Select(A, m)) * RP(x, m)))
                    elif d == -1:
                        emit(z3.Implies(n >= 0, u == t + z3.ToReal(z3.Select(A, n)) * RP(x, n)))
            evr.append(t)
        elif nm == "RP":
            x, n = t.children()
            emit(z3.Implies(n == 0, t == 1))
            emit(z3.Implies(n == 1, t == x))
            for u in rps:
                if u.arg(0).get_id() == x.get_id():
                    d = cval(n - u.arg(1))
                    if d == 1:
                        emit(z3.Implies(u.arg(1) >= 0, t == x * u))
                    elif d == -1:
                        emit(z3.Implies(n >= 0, u == x * t))
            rps.append(t)
        elif nm == "PW":
            x, n = t.children()
            emit(z3.Implies(n == 0, t == 1))
            emit(z3.Implies(n == 1, t == x))
            if cval(x) == 1:
                emit(t == 1)
                continue
            emit(z3.Implies(z3.And(n >= 0, x >= 1), t >= 1))
            emit(z3.Implies(z3.And(n >= 0, x != 0), t != 0))
            for u in pws:
                if u.arg(0).get_id() == x.get_id():
                    d = cval(n - u.arg(1))
                    if d == 1:
                        emit(z3.Implies(u.arg(1) >= 0, t == x * u))
                    elif d == -1:
                        emit(z3.Implies(n >= 0, u == x * t))
            pws.append(t)
        elif nm == "HQ":
            A, n, lc, q = t.children()
            emit(z3.Implies(n <= 0, t == 0))
            if is_store(A):
                B, k, v = A.arg(0), A.arg(1), A.arg(2)
                d = cval(n - k)
                if d == 1:
                    emit(z3.Implies(k >= 0, t == lc * HQ(B, k, lc, q) + v * XP(q - 1 - k)))
                else:
                    emit(z3.Implies(k >= n, t == HQ(B, n, lc, q)))
            for u in hqs:
                if u.arg(0).get_id() == A.get_id() and u.arg(2).get_id() == lc.get_id() and u.arg(3).get_id() == q.get_id():
                    m = u.arg(1)
                    d = cval(n - m)
                    if d == 1:
                        emit(z3.Implies(m >= 0, t == lc * u + z3.Select(A, m) * XP(q - 1 - m)))
                    elif d == -1:
                        emit(z3.Implies(n >= 0, u == lc * t + z3.Select(A, n) * XP(q - 1 - n)))
            hqs.append(t)
        elif nm == "ADIV":
            A, n, d = t.children()
            emit(z3.Implies(n <= 0, t))
            for x in sels(fs):
                if x.arg(0).get_id() == A.get_id():
                    j = x.arg(1)
                    emit(z3.Implies(z3.And(t, 0 <= j, j < n), z3.And(d != 0, x % d == 0)))
        elif nm == "QV":
            N, D, n = t.children()
            emit(z3.Implies(n <= 0, t == 0))
            if cval(n) == 1:
                emit(z3.Implies(z3.Select(D, z3.IntVal(0)) >= 1, t * z3.ToReal(z3.Select(D, z3.IntVal(0))) == z3.ToReal(z3.Select(N, z3.IntVal(0)))))
            else:
                emit(z3.Implies(z3.And(n == 1, z3.Select(D, z3.IntVal(0)) >= 1), t * z3.ToReal(z3.Select(D, z3.IntVal(0))) == z3.ToReal(z3.Select(N, z3.IntVal(0)))))
            for (B, m, u) in evs:
                if u.decl().name() == "QV" and B.get_id() == N.get_id() and u.arg(1).get_id() == D.get_id():
                    d = cval(n - m)
                    if d == 1:
                        emit(z3.Implies(z3.And(m >= 0, z3.Select(N, m) == 0), t == u))
                    elif d == -1:
                        emit(z3.Implies(z3.And(n >= 0, z3.Select(N, n) == 0), t == u))
            evs.append((N, n, t))
        elif nm == "GA":
            A, n, d = t.arg(0), t.arg(1), t.arg(2)
            emit(z3.Implies(d >= 1, t >= 1))
            emit(z3.Implies(d == 1, t == 1))
            if cval(n) == 1:
                emit(z3.Implies(d >= 1, t == GCD(z3.simplify(z3.Select(A, z3.IntVal(0))), d)))
            if is_store(A):
                B, k, v = A.arg(0), A.arg(1), A.arg(2)
                if cval(n - k) == 1:
                    emit(z3.Implies(z3.And(d >= 1, ALLZ(B, k)), t == GCD(v, d)))
    return out


def arr_of(v):
    """(array, length) of an integer sequence"""
    if isinstance(v, SSeq):
        if len(v.arrs) != 1:
            raise Unsupported("sequence of structs")
        return v.arrs[0], to_z(v.len)
    if isinstance(v, Arr):
        a = ZERO
        for i, x in enumerate(v.e):
            if not (isc(x) or isinstance(x, z3.ArithRef)):
                raise Unsupported("sequence element")
            a = z3.Store(a, z3.IntVal(i), to_z(x))
        return a, z3.IntVal(len(v.e))
    raise Unsupported("sequence shape")


def ev(v):
    a, n = arr_of(v)
    return EV(a, n)


# ---------------------------------------------------------------- running a closure at an arbitrary index
FAKE = {"id": -99, "path": "<iterator model>", "name": "<iterator model>", "locals": [0], "argc": 0, "dbg": [], "blocks": [{"s": [], "t": ["return"], "l": 0}]}


def run_call(eng, st, f, args, on_panic):
    """results [(state, value)] of calling closure / fn item f; frames of st are left alone"""
    saved = st.frames
    fr = Frame()
    fr.fn, fr.bb, fr.dest, fr.target, fr.visits, fr.inv, fr.on_return = FAKE, 0, None, None, {}, {}, None
    cell = st.alloc(UNINIT)
    fr.locals = [cell.cell]
    st.frames = [fr]
    fv = st.read(f) if isinstance(f, Ref) else f
    if isinstance(fv, FnV):
        nxt = eng.invoke(st, fv.inst, args, Ref(cell.cell), 0, on_panic, None)
    elif isinstance(fv, Clo):
        t = eng.prog.ty(fv.ty)
        fn = eng.prog.fns[t["inst"]]
        self_t = eng.prog.ty(fn["locals"][1])
        envp = fv if self_t["k"] == "closure" else (f if isinstance(f, Ref) else st.alloc(fv))
        if fn["argc"] == 1 + len(args):
            a = [envp] + list(args)
        else:
            a = [envp, Tup(args)]
        eng.push(st, fn, a, Ref(cell.cell), 0)
        nxt = [st]
    else:
        raise Unsupported("callee")
    out = []
    for s1 in nxt or []:
        eng.run(s1, lambda s2, v: out.append((s2, v)), on_panic)
    for (s2, v) in out:
        s2.frames = [x.copy() for x in saved]
    st.frames = saved
    return out


def pure(eng, f, st):
    fv = st.read(f) if isinstance(f, Ref) else f
    if isinstance(fv, Clo):
        refs = []
        collect_mut_refs(eng, fv, refs)
        if refs:
            raise Unsupported("closure with captured mutable state")


def iter_len(eng, st, it):
    if isinstance(it, It):
        return sub(it.d["end"], it.d["pos"])
    if isinstance(it, Adt):
        nm = M.last(eng.prog.ty(it.ty)["path"])
        if nm == "Range":
            a, b = it.f
            return z3.If(to_z(a) < to_z(b), to_z(b) - to_z(a), z3.IntVal(0))
        if nm in ("Map", "Enumerate", "Rev", "Cloned", "Copied"):
            return iter_len(eng, st, it.f[0])
        if nm == "Skip":
            n = iter_len(eng, st, it.f[0])
            k = to_z(it.f[1])
            return z3.If(to_z(n) > k, to_z(n) - k, z3.IntVal(0))
        u = user_iter(eng, it)
        if u is not None:
            return iter_len(eng, st, it.f[u[0]])
    raise Unsupported("iterator shape")


def user_iter(eng, it):
    """(field holding the element iterator, next function) of an iterator type of the crate"""
    t = eng.prog.ty(it.ty)
    if not t["path"].startswith("algebraics::"):
        return None
    fs = [i for i, x in enumerate(it.f) if isinstance(x, It)]
    nx = [f for f in (eng.prog.fns.values() if isinstance(eng.prog.fns, dict) else eng.prog.fns) if f["method"] == "next" and M.last(f["trait"]) == "Iterator" and f["trait_args"] and f["trait_args"][0] == it.ty and "blocks" in f]
    return (fs[0], nx[0]) if len(fs) == 1 and nx else None


def user_item(eng, st, it, J, on_panic):
    """item J of a crate iterator: its own `next` run in the state with J elements consumed; `next` must not change anything else before the last item"""
    k, nx = user_iter(eng, it)
    inner = it.f[k]
    n = iter_len(eng, st, it)
    cur = it.with_field(k, inner.set(pos=add(inner.d["pos"], J)))
    cell = st.alloc(cur)
    out = []
    for (s1, v) in run_call(eng, st, FnV(nx["id"]), [cell], on_panic):
        if not s1.feasible():
            continue
        if not (isinstance(v, Adt) and len(v.f) == 1):
            raise Unsupported("crate iterator ends early")
        aft = s1.read(cell)
        same = all(a is b or (i == k and isinstance(b, It) and cval(to_z(b.d["pos"]) - to_z(a.d["pos"])) == 1 and a.kind == b.kind and cval(to_z(b.d["end"]) - to_z(a.d["end"])) == 0)
                   for i, (a, b) in enumerate(zip(cur.f, aft.f)))
        if not same and not s1.known(to_z(J) + 1 == to_z(n)):
            raise Unsupported("stateful crate iterator")
        out.append((s1, v.f[0]))
    return out


def elem_at(eng, st, it, J, on_panic):
    """[(state, value)]: item number J"""
    if isinstance(it, It):
        p = add(it.d["pos"], J)
        if it.kind == "slice":
            return [(st, it.d["ref"].sub(("i", p)))]
        if it.kind == "vec":
            return [(st, st.index(it.d["seq"], p))]
    if isinstance(it, Adt):
        nm = M.last(eng.prog.ty(it.ty)["path"])
        if nm == "Range":
            return [(st, add(it.f[0], J))]
        if nm == "Enumerate":
            return [(s1, Tup([add(it.f[1], J), v])) for (s1, v) in elem_at(eng, st, it.f[0], J, on_panic)]
        if nm == "Skip":
            return elem_at(eng, st, it.f[0], add(it.f[1], J), on_panic)
        if nm == "Rev":
            return elem_at(eng, st, it.f[0], sub(sub(iter_len(eng, st, it.f[0]), 1), J), on_panic)
        if nm in ("Cloned", "Copied"):
            return [(s1, s1.read(v)) for (s1, v) in elem_at(eng, st, it.f[0], J, on_panic)]
        if nm == "Map":
            pure(eng, it.f[1], st)
            out = []
            for (s1, v) in elem_at(eng, st, it.f[0], J, on_panic):
                out += run_call(eng, s1, it.f[1], [v], on_panic)
            return out
        if user_iter(eng, it) is not None:
            return user_item(eng, st, it, J, on_panic)
    raise Unsupported("iterator shape")


def sources(eng, st, it, J, out):
    """(arrays, index) the items come from"""
    if isinstance(it, It):
        seq = st.read(it.d["ref"]) if it.kind == "slice" else it.d["seq"]
        if isinstance(seq, Arr):
            seq = SSeq(None, len(seq.e), [arr_of(seq)[0]])
        out.append((seq.arrs, add(it.d["pos"], J), seq))
    elif isinstance(it, Adt):
        nm = M.last(eng.prog.ty(it.ty)["path"])
        if nm == "Skip":
            sources(eng, st, it.f[0], add(it.f[1], J), out)
        elif nm in ("Map", "Enumerate", "Cloned", "Copied"):
            sources(eng, st, it.f[0], J, out)
        else:
            u = user_iter(eng, it)
            if u is not None:
                sources(eng, st, it.f[u[0]], J, out)


def scalars(eng, st, v, out, depth=0):
    """integers reachable from a closure environment: candidate multipliers"""
    if depth > 6:
        return
    if isinstance(v, Ref):
        try:
            scalars(eng, st, st.read(v), out, depth + 1)
        except Unsupported:
            pass
    elif isinstance(v, bool):
        return
    elif isc(v) or isinstance(v, z3.ArithRef):
        out.append(to_z(v))
    elif isinstance(v, (Adt, Tup, Clo)):
        for x in v.f:
            scalars(eng, st, x, out, depth + 1)


def closures(eng, st, it, out):
    if isinstance(it, Adt):
        for x in it.f:
            closures(eng, st, x, out)
    elif not isinstance(it, It):
        out.append(it)


def a_last(A, k):
    return z3.Select(A, k)


def relate_ratio(c, st, J, n, paths, src, N, D, envs):
    """produced fractions: N[k]/D[k] = m*A[k]/d"""
    eng = c.eng
    eng.used_axioms.add(AX)
    if not paths:
        st.assume(n <= 0)
        return
    ds = [z3.IntVal(1)]
    for e in envs:
        scalars(eng, st, e, ds)
    last = n - 1
    for (arrs, idx, seq) in src:
        if len(arrs) != 1 or cval(to_z(idx) - J) != 0:
            continue
        a = z3.Select(arrs[0], to_z(idx))
        own = ds[1:]
        for d in own:
            for x in own:
                for y in own:
                    # items A[k]*y/(d*x)
                    if z3.simplify(x).eq(z3.simplify(y)) or z3.simplify(d).eq(z3.simplify(x)):
                        continue
                    if valid(paths, lambda e: band(to_z(e.f[0]) * (d * x) == a * y * to_z(e.f[1]), d * x != 0)):
                        st.assume(z3.ToReal(d * x) * QV(N, D, n) == z3.ToReal(y * EV(arrs[0], n)))
                        st.assume(z3.Implies(n > 0, z3.And(z3.Select(N, last) * (d * x) == a_last(arrs[0], last) * y * z3.Select(D, last), z3.Select(D, last) >= 1, d * x != 0)))
                        return
        for d in ds:
            for m in (1, -1):
                if valid(paths, lambda e: band(to_z(e.f[0]) * d == m * a * to_z(e.f[1]), d >= 1)):
                    st.assume(z3.ToReal(d) * QV(N, D, n) == z3.ToReal(m * EV(arrs[0], n)))
                    st.assume(z3.Implies(n > 0, z3.And(z3.Select(N, last) * d == m * z3.Select(arrs[0], last) * z3.Select(D, last), z3.Select(D, last) >= 1)))
                    return


HASR = {}


def has_real(e):
    k = e.get_id()
    if k not in HASR:
        r, stack, seen = False, [e], set()
        while stack and not r:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            r = x.sort() == z3.RealSort()
            stack.extend(x.children())
        HASR[k] = (e, r)
    return HASR[k][1]


def valid(paths, mk):
    """the relation holds on every path"""
    for (s1, e) in paths:
        g = mk(e)
        if isc(g):
            if not g:
                return False
            continue
        from engine import nonlinear_int
        sv = z3.Solver()
        sv.set("timeout", 1500)
        for p in s1.pc:
            if not nonlinear_int(p) and not has_real(p):
                sv.add(p)
        sv.add(z3.Not(g))
        if sv.check() == z3.unsat:
            continue
        sv = z3.Solver()
        sv.set("timeout", 4000)
        for p in s1.pc:
            sv.add(p)
        for l in lemmas(list(s1.pc) + [g]):
            sv.add(l)
        sv.add(z3.Not(g))
        if sv.check() != z3.unsat:
            return False
    return True


def at_arbitrary(c, it, extra):
    """run the item computation at an arbitrary index; (J, n, paths)"""
    eng, st = c.eng, c.st
    n = to_z(s(to_z(iter_len(eng, st, it))))
    J = st.fresh_int("J")
    s1 = st.fork()
    s1.assume(z3.And(J >= 0, J < n))
    src = []
    sources(eng, s1, it, J, src)
    for (arrs, idx, seq) in src:
        for (G, A, m) in st.ghost.get("divides", ()):
            if len(arrs) == 1 and A.get_id() == arrs[0].get_id():
                q = s1.fresh_int("q")
                if s1.known(z3.And(to_z(idx) >= 0, to_z(idx) < m, G != 0)):
                    e = z3.Select(A, to_z(idx))
                    s1.assume(e == G * q)
                    s1.memo[("exact", z3.simplify(e).sexpr(), z3.simplify(G).sexpr())] = q
        for (L, D, m) in st.ghost.get("multiple", ()):
            if len(arrs) == 2 and D.get_id() == arrs[1].get_id():
                q = s1.fresh_int("q")
                if s1.known(z3.And(to_z(idx) >= 0, to_z(idx) < m)):
                    e = z3.Select(D, to_z(idx))
                    s1.assume(z3.And(L == e * q, e >= 1, q >= 1))
                    s1.memo[("exact", z3.simplify(L).sexpr(), z3.simplify(e).sexpr())] = q
    if not s1.feasible():
        return J, n, [], src
    paths = extra(s1, J)
    return J, n, paths, src


def relate(c, st, J, n, paths, src, B, envs, d=None):
    """consequences for the produced array B of the relations that hold at the arbitrary index"""
    eng = c.eng
    eng.used_axioms.add(AX)
    if not paths:
        st.assume(n <= 0)
        st.assume(EV(B, n) == 0)
        return
    ms = [z3.IntVal(0), z3.IntVal(1), z3.IntVal(-1)]
    for e in envs:
        scalars(eng, st, e, ms)
    seen, cand = set(), []
    for m in ms:
        m = z3.simplify(m)
        if m.get_id() not in seen:
            seen.add(m.get_id())
            cand.append(m)
    if any(not (isc(e) or isinstance(e, z3.ArithRef)) for (_, e) in paths):
        return
    last = n - 1
    if valid(paths, lambda e: to_z(e) == 0):
        st.assume(EV(B, n) == 0)
        st.assume(ALLZ(B, n))
        st.assume(z3.Implies(n > 0, z3.Select(B, last) == 0))
        return
    for (arrs, idx, seq) in src:
        off = cval(to_z(idx) - J)
        if off is None:
            continue
        if len(arrs) == 1:
            A = arrs[0]
            a = z3.Select(A, to_z(idx))
            if off == 1 and valid(paths, lambda e: to_z(e) == (J + 1) * a):
                st.assume(EV(B, n) == DV(A, n + 1))
                st.assume(z3.Implies(n > 0, z3.Select(B, last) == n * z3.Select(A, n)))
                return
            if off != 0:
                continue
            for m in cand:
                if valid(paths, lambda e: to_z(e) == m * a):
                    st.assume(EV(B, n) == m * EV(A, n))
                    st.assume(z3.Implies(n > 0, z3.Select(B, last) == m * z3.Select(A, last)))
                    if cval(m) in (1, -1):
                        for (dd) in st.ghost.get("divs", ()):
                            st.assume(GA(B, n, dd) == GA(A, n, dd))
                    return
            for m in cand[3:]:
                if valid(paths, lambda e: to_z(e) * m == a):
                    st.assume(z3.Implies(m != 0, m * EV(B, n) == EV(A, n)))
                    st.assume(z3.Implies(m != 0, ADIV(A, n, m)))
                    st.assume(z3.Implies(n > 0, m * z3.Select(B, last) == z3.Select(A, last)))
                    for dd in st.ghost.get("divs", ()):
                        q = st.fresh_int("dq")
                        st.assume(z3.Implies(z3.And(m >= 1, dd == m * q), GA(A, n, dd) == m * GA(B, n, q)))
                        st.assume(z3.Implies(z3.And(m >= 1, dd % m == 0), dd == m * q))
                    return
        if len(arrs) == 2 and off == 0:
            N, D = arrs[0], arrs[1]
            for m in cand[3:]:
                if valid(paths, lambda e: to_z(e) * z3.Select(D, to_z(idx)) == z3.Select(N, to_z(idx)) * m):
                    st.assume(z3.Implies(m >= 1, z3.ToReal(EV(B, n)) == z3.ToReal(m) * QV(N, D, n)))
                    st.assume(z3.Implies(n > 0, z3.Select(B, last) * z3.Select(D, last) == z3.Select(N, last) * m))
                    if any(m.get_id() == z3.simplify(L).get_id() and D.get_id() == D2.get_id() for (L, D2, _) in st.ghost.get("multiple", ())):
                        st.assume(z3.Implies(m >= 1, GA(B, n, m) == 1))
                    return


def produced(c, it, ety, extra_f=None):
    eng, st = c.eng, c.st
    J, n, paths, src = at_arbitrary(c, it, lambda s1, J: elem_at(eng, s1, it, J, c.on_panic))
    sorts = eng.leaf_sorts(ety)
    arrs = [st.fresh_arr("map", so) for so in sorts]
    if len(arrs) == 1 and sorts[0] == I:
        envs = []
        closures(eng, st, it, envs)
        relate(c, st, J, n, paths, src, arrs[0], envs)
    elif len(arrs) == 2 and eng.prog.ty(ety).get("path") == M.RATIO:
        envs = []
        closures(eng, st, it, envs)
        relate_ratio(c, st, J, n, paths, src, arrs[0], arrs[1], envs)
    for h in c.eng.models.relate_hooks:
        h(c, st, it, J, n, paths, src, SSeq(ety, s(n), arrs))
    return SSeq(ety, s(n), arrs)


def m_from_iter_opt(c):
    """collect into Option<Vec<_>>: None as soon as one item is None"""
    eng, st = c.eng, c.st
    it = c.args[0]
    rt = eng.prog.ty(c.rty())
    vt = eng.prog.ty(rt["targs"][0])
    ety = vt["targs"][0]
    J, n, paths, src = at_arbitrary(c, it, lambda s1, J: elem_at(eng, s1, it, J, c.on_panic))
    out = []
    some = []
    for (s1, v) in paths:
        if not s1.feasible():
            continue
        if v.f:
            some.append((s1, v.f[0]))
        else:
            s1.trail = s1.trail + ("item=None",)
            out.append((s1, Adt(rt["id"], 0, [])))
    s2 = st.fork()
    if paths and not some:
        s2.assume(n <= 0)
    sorts = eng.leaf_sorts(ety)
    arrs = [s2.fresh_arr("map", so) for so in sorts]
    envs = []
    closures(eng, s2, it, envs)
    if len(arrs) == 1 and sorts[0] == I:
        relate(c, s2, J, n, some, src, arrs[0], envs)
    elif len(arrs) == 2 and eng.prog.ty(ety).get("path") == M.RATIO:
        relate_ratio(c, s2, J, n, some, src, arrs[0], arrs[1], envs)
    s2.trail = s2.trail + ("item=Some",)
    if s2.feasible():
        out.append((s2, Adt(rt["id"], 1, [SSeq(ety, s(n), arrs)])))
    return out


def m_from_iter(c):
    rt = c.eng.prog.ty(c.rty())
    return M.one(c, produced(c, c.args[0], rt["targs"][0]))


def m_for_each(c):
    eng, st = c.eng, c.st
    it, f = c.args
    if not (isinstance(it, It) and it.kind == "slice" and it.d.get("mut")):
        raise Unsupported("for_each")
    ref = it.d["ref"]
    seq = st.read(ref)
    if isinstance(seq, Arr):
        out = [(st, None)]
        for i in range(len(seq.e)):
            out = [(s2, v) for (s1, _) in out for (s2, v) in run_call(eng, s1, f, [ref.sub(("i", i))], c.on_panic)]
        return [(s1, Tup([])) for (s1, _) in out]
    if not (isc(it.d["pos"]) and it.d["pos"] == 0 and cval(to_z(it.d["end"]) - to_z(seq.len)) == 0) or len(seq.arrs) != 1:
        raise Unsupported("for_each on part of a sequence")
    pure(eng, f, st)

    def at(s1, J):
        return [(s2, s2.read(ref.sub(("i", J)))) for (s2, _) in run_call(eng, s1, f, [ref.sub(("i", J))], c.on_panic)]
    J, n, paths, src = at_arbitrary(c, it, at)
    B = st.fresh_arr("upd")
    relate(c, st, J, n, paths, src, B, [f])
    st.write(ref, SSeq(seq.ety, seq.len, [B]))
    return M.one(c, Tup([]))


def m_extend(c):
    eng, st = c.eng, c.st
    v = st.read(c.args[0])
    t = eng.prog.ty(eng.prog.deref_ty(c.aty(0)))
    ety = t["targs"][0]
    if isinstance(v, Arr) and not v.e:
        st.write(c.args[0], produced(c, c.args[1], ety))
        return M.one(c, Tup([]))
    raise Unsupported("extend of a nonempty sequence")


def m_fold(c):
    """gcd / lcm of a run of elements with an initial value"""
    eng, st = c.eng, c.st
    it, init, f = c.args
    if not (isinstance(it, It) and it.kind == "slice"):
        raise Unsupported("fold")
    seq = st.read(it.d["ref"])
    if isinstance(seq, Arr) or cval(to_z(it.d["end"]) - to_z(seq.len)) != 0 or not (isc(init) or isinstance(init, z3.ArithRef)):
        raise Unsupported("fold shape")
    pure(eng, f, st)
    pos, n = it.d["pos"], to_z(seq.len)
    if not isc(pos):
        raise Unsupported("fold shape")
    J, acc = st.fresh_int("J"), st.fresh_int("acc")
    s1 = st.fork()
    s1.assume(z3.And(J >= pos, J < n, acc >= 1))
    e = it.d["ref"].sub(("i", J))
    ev_ = s1.read(e)
    if isinstance(ev_, Adt) and M.RATIO == eng.prog.ty(ev_.ty)["path"]:
        s1.assume(to_z(ev_.f[1]) >= 1)
    paths = run_call(eng, s1, f, [acc, e], c.on_panic) if s1.feasible() else []
    eng.used_axioms.add(AX)
    A = seq.arrs[0]

    def same(g):
        return all(st2.known(to_z(v) == g(st2)) for (st2, v) in paths)
    if not paths:
        st.assume(n <= pos)
        return M.one(c, init)
    if len(seq.arrs) == 1 and pos == 1 and same(lambda st2: to_z(M.gcd_of(st2, acc, z3.Select(A, J)))):
        d = st.ghost.get("gcd_with")
        for dd in st.ghost.get("divs", ()):
            if st.known(to_z(init) == to_z(M.gcd_of(st, z3.Select(A, 0), dd))):
                G = st.fresh_int("G")
                st.assume(z3.Implies(z3.And(n >= 1, dd >= 1), z3.And(G == GA(A, n, dd), G >= 1, dd % G == 0)))
                q = st.fresh_int("q")
                st.assume(z3.Implies(z3.And(n >= 1, dd >= 1), dd == G * q))
                st.ghost["divides"] = st.ghost.get("divides", ()) + ((G, A, n),)
                return M.one(c, G)
    if len(seq.arrs) == 2 and pos == 2 and same(lambda st2: to_z(M.lcm_of(st2, acc, z3.Select(seq.arrs[1], J)))):
        D = seq.arrs[1]
        if st.known(to_z(init) == to_z(M.lcm_of(st, z3.Select(D, 0), z3.Select(D, 1)))):
            L = st.fresh_int("L")
            st.assume(z3.And(L == LA(D, n), L >= 1))
            st.ghost["multiple"] = st.ghost.get("multiple", ()) + ((L, D, n),)
            return M.one(c, L)
    raise Unsupported("fold: not a gcd or lcm")


@M.sel
def sel_from_iter(eng, fn, ta):
    t = ta[0]
    if t["k"] == "adt" and t["path"] == VEC:
        try:
            eng.leaf_sorts(t["targs"][0])
        except Unsupported:
            return None
        return m_from_iter
    if t["k"] == "adt" and M.last(t["path"]) == "Option":
        u = eng.prog.ty(t["targs"][0])
        if u["k"] == "adt" and u["path"] == VEC:
            return m_from_iter_opt
    return None


@M.sel
def sel_extend(eng, fn, ta):
    t = ta[0]
    return m_extend if t["k"] == "adt" and t["path"] == VEC else None


def sel_slice_iter(h):
    @M.sel
    def f(eng, fn, ta):
        return h if ta[0].get("path", "") in ("std::slice::Iter", "std::slice::IterMut") else None
    return f


def m_enum_next(c):
    r = c.args[0]
    v = c.st.read(r)
    it, cnt = v.f
    if not isinstance(it, It):
        raise Unsupported("enumerate over an adapter")
    out = []
    for (s2, x, ni) in M.iter_next(c, it, r.sub(("f", 0))):
        if x is None:
            out.append((s2, M.opt(c)))
        else:
            s2.write(r, Adt(v.ty, 0, [ni, add(cnt, 1)]))
            out.append((s2, M.opt(c, Tup([cnt, x]))))
    return out


def m_box_new_uninit(c):
    """vec![..]: a box for an array literal; only its conversion into a Vec is modelled"""
    t = c.eng.prog.ty(c.rty())
    mu = c.eng.prog.ty(t["targs"][0])
    md = [u for (nm, u) in mu["variants"][0]["fields"] if nm == "value"]
    if mu["k"] != "adt" or mu["ak"] != "union" or len(md) != 1 or len(mu["variants"][0]["fields"]) != 2:
        raise Unsupported("box")
    cell = c.st.alloc(Adt(mu["id"], 0, [Tup([]), Adt(md[0], 0, [UNINIT])]))
    return M.one(c, Adt(t["id"], 0, [cell]))


def m_box_into_vec(c):
    b = c.args[0]
    v = c.st.read(b.f[0])
    arr = v.f[1].f[0]
    if not isinstance(arr, Arr):
        raise Unsupported("box contents")
    return M.one(c, arr)


def m_into_iter_as_slice(c):
    it = c.val(0)
    if not isinstance(it, It) or it.kind != "vec":
        raise Unsupported("as_slice")
    cell = c.st.alloc(it.d["seq"])
    return M.one(c, cell.sub(("ss", it.d["pos"], sub(it.d["end"], it.d["pos"]))))


@M.sel
def sel_to_owned(eng, fn, ta):
    return M.m_clone if ta[0]["k"] == "slice" else None


def m_remove(c):
    eng, st = c.eng, c.st
    v = st.read(c.args[0])
    i = c.args[1]
    if isinstance(v, Arr):
        v = eng.as_sseq(eng.prog.ty(eng.prog.deref_ty(c.aty(0)))["targs"][0], v)
    if not (isc(i) and i == 0):
        raise Unsupported("remove in the middle")
    out = []
    for (s2, t) in eng.fork_bool(st, cmpop("lt", i, v.len), "rm:"):
        if not t:
            c.on_panic(s2, "removal index out of bounds")
            continue
        x = s2.index(v, 0)
        if len(v.arrs) == 1:
            B = s2.fresh_arr("shift")
            n = s(to_z(v.len) - 1)
            s2.ghost["shifted"] = s2.ghost.get("shifted", ()) + ((B, v.arrs[0]),)
            k = z3.Int("k!sh")
            s2.assume(z3.ForAll([k], z3.Select(B, k) == z3.Select(v.arrs[0], k + 1), patterns=[z3.Select(B, k)]))
            s2.write(c.args[0], SSeq(v.ety, n, [B]))
        else:
            k = z3.Int("k!sh")
            s2.write(c.args[0], SSeq(v.ety, s(to_z(v.len) - 1), [z3.Lambda([k], z3.Select(a, k + 1)) for a in v.arrs]))
        out.append((s2, x))
    return out


def m_drain(c):
    """drain(k..) whose result is dropped: truncation; drain(..): all elements, leaving the vector empty"""
    st = c.st
    v = st.read(c.args[0])
    r = c.args[1]
    if isinstance(r, (Adt, Clo)) and M.last(c.eng.prog.ty(r.ty)["path"]) == "RangeFull":
        st.write(c.args[0], Arr([]))
        return M.one(c, It("vec", seq=v, pos=0, end=st.seqlen(v)))
    if not (isinstance(r, Adt) and M.last(c.eng.prog.ty(r.ty)["path"]) == "RangeFrom"):
        raise Unsupported("drain")
    k = r.f[0]
    out = []
    for (s2, ok) in c.eng.fork_bool(st, cmpop("le", k, st.seqlen(v)), "drain:"):
        if not ok:
            c.on_panic(s2, "drain out of range")
            continue
        if isinstance(v, Arr):
            s2.write(c.args[0], Arr(v.e[:k]))
        else:
            s2.write(c.args[0], SSeq(v.ety, k, v.arrs))
        out.append((s2, Opq("drain")))
    return out


def m_reverse(c):
    st = c.st
    r = c.eng.as_ref(c.args[0])
    v = st.read(r)
    if isinstance(v, Arr):
        st.write(r, Arr(list(v.e)[::-1]))
        return M.one(c, Tup([]))
    if len(v.arrs) != 1:
        raise Unsupported("reverse")
    B = st.fresh_arr("rev")
    n = to_z(v.len)
    k = z3.Int("k!rv")
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(B, k) == z3.Select(v.arrs[0], n - 1 - k)), patterns=[z3.Select(B, k)]))
    st.ghost["reversed"] = st.ghost.get("reversed", ()) + ((B, v.arrs[0], n),)
    st.write(r, SSeq(v.ety, v.len, [B]))
    return M.one(c, Tup([]))


def m_range_next_back(c):
    r = c.args[0]
    v = c.st.read(r)
    out = []
    for (s2, t) in c.eng.fork_bool(c.st, cmpop("lt", v.f[0], v.f[1]), "range:"):
        if t:
            e = sub(v.f[1], 1)
            s2.write(r, v.with_field(1, e))
            out.append((s2, M.opt(c, e)))
        else:
            out.append((s2, M.opt(c)))
    return out


def m_truncate(c):
    st = c.st
    v = st.read(c.args[0])
    k = c.args[1]
    out = []
    for (s2, lt) in c.eng.fork_bool(st, cmpop("lt", k, st.seqlen(v)), "trunc:"):
        if lt:
            s2.write(c.args[0], Arr(v.e[:k]) if isinstance(v, Arr) and isc(k) else SSeq(v.ety, k, v.arrs))
        out.append((s2, Tup([])))
    return out


def install():
    M.PATHS["std::boxed::Box::<T>::new_uninit"] = m_box_new_uninit
    M.PATHS["std::boxed::box_assume_init_into_vec_unsafe"] = m_box_into_vec
    M.PATHS["std::vec::IntoIter::<T, A>::as_slice"] = m_into_iter_as_slice
    M.ANY_TRAIT[("ToOwned", "to_owned")] = sel_to_owned
    M.ANY_TRAIT[("Borrow", "borrow")] = M.sel(lambda eng, fn, ta: M.m_pass0 if ta[0].get("path") == VEC else None)
    M.VEC_INH["remove"] = m_remove
    M.VEC_INH["drain"] = m_drain
    M.VEC_INH["truncate"] = m_truncate
    M.SLICE_INH["reverse"] = m_reverse
    oldb = M.ANY_TRAIT[("DoubleEndedIterator", "next_back")]

    @M.sel
    def nxtb(eng, fn, ta):
        if ta[0].get("path", "") == "std::ops::Range" and eng.prog.ty(ta[0]["targs"][0])["k"] == "int":
            return m_range_next_back
        return oldb(eng, fn, ta)
    M.ANY_TRAIT[("DoubleEndedIterator", "next_back")] = nxtb
    old = M.ANY_TRAIT[("Iterator", "next")]

    @M.sel
    def nxt(eng, fn, ta):
        if ta[0].get("path", "") == "std::iter::Enumerate" and eng.prog.ty(ta[0]["targs"][0]).get("path", "").startswith(("std::slice::Iter", "std::vec::IntoIter")):
            return m_enum_next
        return old(eng, fn, ta)
    M.ANY_TRAIT[("Iterator", "next")] = nxt
    M.ANY_TRAIT[("FromIterator", "from_iter")] = sel_from_iter
    M.ANY_TRAIT[("Extend", "extend")] = sel_extend
    M.ANY_TRAIT[("Iterator", "for_each")] = sel_slice_iter(m_for_each)
    M.ANY_TRAIT[("Iterator", "fold")] = sel_slice_iter(m_fold)
