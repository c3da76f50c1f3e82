"""Obligation discharge: z3 / cvc5 as subprocesses on SMT-LIB text."""
import os
import subprocess
import tempfile
import time
import z3

TMP = None


def tmpdir():
    global TMP
    if TMP is None:
        TMP = tempfile.mkdtemp(prefix="vcsmt.")
        import atexit
        import shutil
        atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
    return TMP


RELAXED = {}


def relax(exprs):
    """Int -> Real relaxation (sound for validity: every integer model is a real model).
    Uninterpreted Int applications become real constants.  Returns None when not expressible."""
    cache = RELAXED

    def go(e):
        k = e.get_id()
        if k in cache:
            if cache[k][1] is None:
                raise ValueError
            return cache[k][1]
        try:
            r = go1(e)
        except ValueError:
            cache[k] = (e, None)
            raise
        cache[k] = (e, r)
        return r

    def go1(e):
        if z3.is_quantifier(e) or z3.is_array(e):
            raise ValueError
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        if z3.is_rational_value(e):
            return e
        d = e.decl()
        kd = d.kind()
        if kd == z3.Z3_OP_UNINTERPRETED:
            if e.sort() == z3.IntSort():
                if e.num_args() == 0:
                    return z3.Real("r!" + d.name())
                return z3.Real("r!" + e.sexpr().replace("|", "").replace("\n", " "))
            if e.sort() == z3.RealSort():
                return e if e.num_args() == 0 else z3.Real("rr!" + e.sexpr().replace("|", "").replace("\n", " "))
            if e.sort() == z3.BoolSort() and e.num_args() == 0:
                return e
            if e.sort() == z3.BoolSort():
                return z3.Bool("b!" + e.sexpr().replace("|", "").replace("\n", " "))
            raise ValueError
        if kd == z3.Z3_OP_TO_REAL:
            return go(e.arg(0))
        if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT, z3.Z3_OP_SELECT):
            if kd == z3.Z3_OP_SELECT and e.sort() == z3.IntSort():
                return z3.Real("r!" + e.sexpr().replace("|", "").replace("\n", " "))
            raise ValueError
        ch = [go(c) for c in e.children()]
        if kd == z3.Z3_OP_ADD:
            r = ch[0]
            for c in ch[1:]:
                r = r + c
            return r
        if kd == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
            return r
        if kd == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = r * c
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -ch[0]
        if kd == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        if kd == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if kd == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if kd == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if kd == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if kd == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if kd == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if kd == z3.Z3_OP_AND:
            return z3.And(*ch)
        if kd == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if kd == z3.Z3_OP_NOT:
            return z3.Not(ch[0])
        if kd == z3.Z3_OP_IMPLIES:
            return z3.Implies(ch[0], ch[1])
        if kd == z3.Z3_OP_ITE:
            return z3.If(ch[0], ch[1], ch[2])
        if kd == z3.Z3_OP_TRUE or kd == z3.Z3_OP_FALSE:
            return e
        if kd == z3.Z3_OP_POWER:
            return ch[0] ** ch[1]
        raise ValueError(str(d))

    try:
        return [go(e) for e in exprs]
    except ValueError:
        return None


def vars_of(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return acc


def smt2(exprs, logic=None, tactic=None):
    sol = z3.Solver()
    for e in exprs:
        sol.add(e)
    t = sol.to_smt2()
    if logic:
        t = f"(set-logic {logic})\n" + t
    if tactic:
        t = t.replace("(check-sat)", f"(check-sat-using {tactic})")
    return t


def run(cmd, text, timeout):
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", dir=tmpdir(), delete=False)
    f.write(text)
    f.close()
    try:
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=timeout + 3)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
        return out, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        os.unlink(f.name)


def discharge(text_int, text_real, scale=1.0, quick_only=False):
    """try back ends in turn; -> (verdict, backend, seconds) verdict in proved|refuted|unknown"""
    t0 = time.time()
    plan = []
    if text_real is not None:
        plan.append(("z3-5.3.2/nra", ["z3-new", f"-T:{int(2*scale)+1}"], text_real, 3 * scale, False))
    plan.append(("z3-5.3.2/int", ["z3-new", f"-T:{int(4*scale)}"], text_int, 4 * scale, True))
    if not quick_only:
        plan.append(("cvc5-1.1.2/int", ["cvc5", "--tlimit", str(int(8000 * scale)), "--nl-ext-tplanes"], "(set-logic ALL)\n" + text_int, 8 * scale, True))
        if text_real is not None:
            plan.append(("z3-4.8.12/nra", ["z3", f"-T:{int(8*scale)}"], text_real, 8 * scale, False))
            plan.append(("z3-5.3.2/nra-long", ["z3-new", f"-T:{int(25*scale)}"], text_real, 25 * scale, False))
        plan.append(("z3-5.3.2/int-long", ["z3-new", f"-T:{int(20*scale)}"], text_int, 20 * scale, True))
    sat = None
    for name, cmd, txt, to, exact in plan:
        out, full = run(cmd, txt, to)
        if out == "unsat":
            return "proved", name, time.time() - t0
        if out == "sat" and exact:
            return "refuted", name, time.time() - t0
    return "unknown", "", time.time() - t0


def real_model(exprs, ms=6000):
    """A counter-model in which the uninterpreted symbols have their intended meaning (pow2 on exponents
    0..10, gcd), or None.  Only such a model counts as a refutation: the solver's `sat` alone may come
    from the partial axiomatisation."""
    import math
    p2, gcds, other = [], [], []
    seen = set()
    stack = list(exprs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                (p2 if nm == "pow2" else gcds if nm == "gcd" else other).append(x)
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            return None
    if other:
        return None
    sol = z3.Solver()
    sol.set("timeout", ms)
    for e in exprs:
        sol.add(e)
    for t in p2:
        e = t.arg(0)
        sol.add(z3.Or(e < 0, *[z3.And(e == k, t == 1 << k) for k in range(11)]))
    for _ in range(6):
        if sol.check() != z3.sat:
            return None
        m = sol.model()
        bad = False
        for t in gcds:
            a, b = m.eval(t.arg(0), True), m.eval(t.arg(1), True)
            g = math.gcd(a.as_long(), b.as_long())
            if m.eval(t, True).as_long() != g:
                sol.add(z3.Implies(z3.And(t.arg(0) == a, t.arg(1) == b), t == g))
                bad = True
        if not bad:
            out = {}
            for d in m.decls():
                if d.arity() == 0 and d.range() == z3.IntSort():
                    out[d.name()] = str(m[d])
            return out
    return None
