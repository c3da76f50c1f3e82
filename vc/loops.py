"""Loop invariants: cut a loop at its header.

First arrival: the invariant is an obligation; everything the loop body may change is replaced by
arbitrary values; the invariant is assumed.  Arrival over the back edge: the invariant is an
obligation and the path ends.  Variables are named by their source names (debug info).
"""
import z3
from values import *
from engine import Clause


class L:
    """what an invariant sees"""

    def __init__(self, eng, st, fr, rec, spec):
        self.eng, self.st, self.fr, self.rec, self.spec = eng, st, fr, rec, spec

    def _local(self, name):
        cands = []
        for (nm, pl, ai) in self.fr.fn["dbg"]:
            if nm == name:
                cands.append(pl)
        if not cands:
            raise Unsupported(f"loop invariant: no variable `{name}` in {self.fr.fn['path']}")
        for pl in reversed(cands):
            v = self.st.heap[self.fr.locals[pl[0]]]
            if isinstance(v, Opq) and v.what == "uninit":
                continue
            try:
                x = self.eng.snap(self.st, self.st.read(self.eng.place(self.st, self.fr, pl)))
            except Unsupported:
                continue
            if not (isinstance(x, Opq) and x.what == "uninit"):
                return pl
        return cands[0]

    def ref(self, name):
        return self.eng.place(self.st, self.fr, self._local(name))

    def v(self, name):
        """current value, references followed"""
        x = self.eng.snap(self.st, self.st.read(self.ref(name)))
        if isinstance(x, Opq) and x.what == "uninit":
            raise Unsupported(f"loop invariant: `{name}` not initialised")
        return x

    def vt(self, name, ty):
        """current value of the variable `name` whose type is the struct / enum `ty`"""
        for (nm, pl, ai) in self.fr.fn["dbg"]:
            if nm == name and not pl[1]:
                t = self.eng.prog.ty(self.fr.fn["locals"][pl[0]])
                if t["k"] == "adt" and t["path"].split("::")[-1] == ty:
                    x = self.eng.snap(self.st, self.st.heap[self.fr.locals[pl[0]]])
                    if not (isinstance(x, Opq) and x.what == "uninit"):
                        return x
        raise Unsupported(f"loop invariant: no variable `{name}` of type {ty}")

    def z(self, name):
        return to_z(self.v(name))

    def e(self, name):
        """value at loop entry"""
        return self.rec["entry"][name]

    def h(self, name):
        """value at the start of the current iteration"""
        return self.rec["head"][name]

    @property
    def g(self):
        return self.rec["ghost"]


class LoopSpec:
    name = "loop"
    vars = ()          # variables snapshotted at entry and iteration start
    cut = False        # forget the path: one arbitrary state satisfying the invariant stands for all arrivals

    def inv(self, l):
        return []

    def ghost0(self, l):
        return {}

    def ghost_fresh(self, l):
        """fresh ghosts for an arbitrary iteration (default: fresh of the same sort)"""
        out = {}
        for k, v in l.g.items():
            if isc(v) or (isinstance(v, z3.ExprRef) and v.sort() == z3.IntSort()):
                out[k] = l.st.fresh_int("gh_" + k)
            elif isinstance(v, z3.ExprRef) and v.sort() == z3.RealSort():
                out[k] = l.st.fresh_real("gh_" + k)
            elif z3.is_array(v):
                out[k] = l.st.fresh_arr("gh_" + k, v.sort().range())
            else:
                raise Unsupported("ghost sort")
        return out

    def ghost_next(self, l):
        return l.g

    def lemmas(self, l):
        """facts justified elsewhere (asserted after havoc)"""

    def on_init(self, l):
        """intermediate assertions before the invariant is checked on arrival"""

    def on_back(self, l):
        """facts to instantiate before the invariant is checked over the back edge"""

    def keep(self, l, name):
        return False

    # ---- engine hook
    def at_header(self, eng, st, fr, body, lid, n):
        h = fr.bb
        rec = fr.inv.get(h)
        if rec is not None and rec.get("skip"):
            rec = dict(rec)
            rec["skip"] = False
            fr.inv[h] = rec
            return None
        if rec is None:
            rec = {"entry": {}, "head": {}, "ghost": {}}
            l = L(eng, st, fr, rec, self)
            for v in self.vars:
                rec["entry"][v] = l.v(v)
            rec["ghost"] = self.ghost0(l)
            self.on_init(l)
            for c in self.inv(l):
                c.oblige(eng, st, f"{eng.cur}/loop{lid}/{self.name}/init/{c.label}")
            if self.cut and len(st.frames) == 1:
                if h in eng.cuts:
                    return []
                eng.cuts.add(h)
                sts = forget(eng, st, fr)
            else:
                sts = havoc(eng, st, fr, body)
            out = []
            for s2 in sts:
                f2 = s2.frames[-1]
                r2 = dict(rec)
                l2 = L(eng, s2, f2, r2, self)
                r2["ghost"] = self.ghost0(l2) if self.cut else self.ghost_fresh(l2)
                r2["head"] = {}
                for v in self.vars:
                    r2["head"][v] = l2.v(v)
                dead = False
                for c in self.inv(l2):
                    g = implies(band(*c.hyps), c.goal) if c.hyps else c.goal
                    if isc(g) and not g:
                        dead = True
                        break
                    s2.assume(g)
                if dead or not s2.feasible():
                    continue
                self.lemmas(l2)
                r2["skip"] = True
                f2.inv = dict(f2.inv)
                f2.inv[h] = r2
                s2.trail = s2.trail + (f"loop{lid}",)
                out.append(s2)
            return out
        rec = dict(rec)
        l = L(eng, st, fr, rec, self)
        rec["ghost"] = self.ghost_next(l)
        l = L(eng, st, fr, rec, self)
        self.on_back(l)
        for c in self.inv(l):
            c.oblige(eng, st, f"{eng.cur}/loop{lid}/{self.name}/preserved/{c.label}")
        return []


def body_effects(fn, body):
    """(locals possibly changed, places through pointers possibly changed, locals read)"""
    changed, derefs, used = set(), [], set()

    def wr(p):
        i = next((k for k, e in enumerate(p[1]) if e[0] == "deref"), None)
        if i is None:
            changed.add(p[0])
        else:
            derefs.append(p)

    def rd(o):
        if o and o[0] in ("copy", "move"):
            used.add(o[1][0])

    for b in body:
        blk = fn["blocks"][b]
        for x in blk["s"]:
            if x[0] == "=":
                wr(x[1])
                r = x[2]
                if r[0] == "ref" and r[1] not in ("shared", "Shared", "fake", "imm", 0, False):
                    wr(r[2])
                elif r[0] == "rawptr":
                    wr(r[1])
                if r[0] == "use":
                    rd(r[1])
                elif r[0] == "agg":
                    for o in r[2]:
                        rd(o)
                elif r[0] == "ref":
                    used.add(r[2][0])
        t = blk["t"]
        if t[0] == "call":
            wr(t[4])
            for o in t[3]:
                rd(o)
    return changed, derefs, used


def collect_mut_refs(eng, v, out, depth=0):
    """references stored inside closures / aggregates"""
    if depth > 5:
        return
    if isinstance(v, Clo):
        ts = eng.prog.ty(v.ty).get("ts") or [] if isinstance(v.ty, int) else []
        for i, x in enumerate(v.f):
            if isinstance(x, Ref):
                u = eng.prog.ty(ts[i]) if i < len(ts) else None
                if u is None or u["k"] != "ref" or u["mut"]:
                    out.append(x)
            else:
                collect_mut_refs(eng, x, out, depth + 1)
    elif isinstance(v, (Adt, Tup)):
        for x in v.f:
            collect_mut_refs(eng, x, out, depth + 1)
    elif isinstance(v, It):
        if v.d.get("mut") and isinstance(v.d.get("ref"), Ref):
            out.append(v.d["ref"])
        for x in v.d.values():
            if isinstance(x, (Clo, Adt, Tup, It)):
                collect_mut_refs(eng, x, out, depth + 1)


def has_it(v):
    return isinstance(v, It) or isinstance(v, Adt) and any(has_it(x) for x in v.f)


def fresh_like(eng, st, v, name, ti=None, back=False):
    """arbitrary value with the dynamic shape of v -> list of (state, value)"""
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return [(st, st.fresh_bool(name))]
    if isc(v) or isinstance(v, z3.ArithRef):
        if ti is not None:
            return eng.fresh(st, ti, name)
        return [(st, st.fresh_int(name))]
    if isinstance(v, It):
        d = dict(v.d)
        if "pos" in d:
            p = st.fresh_int(name + ".pos")
            e = d["end"]
            st.assume(z3.And(p >= to_z(d["pos"]), p <= to_z(e)))
            d["pos"] = p
            if back:
                e2 = st.fresh_int(name + ".end")
                st.assume(z3.And(e2 >= p, e2 <= to_z(e)))
                d["end"] = e2
        outs = [(st, d)]
        for k, x in list(d.items()):
            if isinstance(x, It):
                nx = []
                for (s1, d1) in outs:
                    for (s2, y) in fresh_like(eng, s1, x, f"{name}.{k}"):
                        d2 = dict(d1)
                        d2[k] = y
                        nx.append((s2, d2))
                outs = nx
        return [(s1, It(v.kind, **d1)) for (s1, d1) in outs]
    if isinstance(v, (Arr, SSeq)):
        if ti is None:
            ety = v.ety if isinstance(v, SSeq) else None
            if ety is None:
                raise Unsupported("havoc of untyped array")
        else:
            t = eng.prog.ty(ti)
            if t["k"] == "array":
                return eng.fresh(st, ti, name)
            ety = t["targs"][0] if t["k"] == "adt" else t["t"]
        ln = st.fresh_int(name + ".len")
        st.assume(z3.And(ln >= 0, ln <= (1 << 60)))
        return [(st, SSeq(ety, ln, [st.fresh_arr(f"{name}.a{i}", so) for i, so in enumerate(eng.leaf_sorts(ety))]))]
    if isinstance(v, Tup):
        ts = eng.prog.ty(ti)["ts"] if ti is not None and eng.prog.ty(ti)["k"] == "tuple" else [None] * len(v.f)
        outs = [(st, [])]
        for i, (x, u) in enumerate(zip(v.f, ts)):
            outs = [(s2, xs + [y]) for (s1, xs) in outs for (s2, y) in fresh_like(eng, s1, x, f"{name}.{i}", u)]
        return [(s1, Tup(xs)) for (s1, xs) in outs]
    if isinstance(v, Adt):
        t = eng.prog.ty(v.ty)
        root = t["path"].split("::")[0]
        if t["ak"] == "struct" and (any(isinstance(x, (It, Clo, Ref, Adt)) for x in v.f) and root in ("std", "core", "alloc") or root == "algebraics" and has_it(v)):
            outs = [(st, [])]
            back = back or root == "algebraics" or t["path"].endswith("::Rev")
            for x, (fn_, u) in zip(v.f, t["variants"][0]["fields"]):
                if root == "algebraics" and isinstance(x, Ref) and eng.prog.ty(u)["k"] == "ref" and not eng.prog.ty(u)["mut"]:
                    # a shared reference: to an arbitrary value
                    outs = [(s2, xs + [s2.alloc(y)]) for (s1, xs) in outs for (s2, y) in eng.fresh(s1, eng.prog.ty(u)["t"], f"{name}.{fn_}")]
                    continue
                outs = [(s2, xs + [y]) for (s1, xs) in outs for (s2, y) in fresh_like(eng, s1, x, f"{name}.{fn_}", u, back)]
            return [(s1, Adt(v.ty, 0, xs)) for (s1, xs) in outs]
        if t["ak"] == "struct" and root == "algebraics" and eng.holds_ref(v) and eng.mut_refs(v.ty):
            return eng.refresh(st, v, v.ty, name)
        return eng.fresh(st, v.ty, name)
    if isinstance(v, Ref) and ti is not None and eng.prog.ty(ti)["k"] == "ref" and not eng.prog.ty(ti)["mut"] and eng.prog.ty(eng.prog.ty(ti)["t"])["k"] == "slice":
        return [(s1, s1.alloc(x)) for (s1, x) in eng.fresh(st, eng.prog.ty(ti)["t"], name)]     # a shared slice: some other slice
    if isinstance(v, (Ref, FnV, Opq, Clo)):
        return [(st, v if isinstance(v, (FnV, Clo)) else UNINIT)]
    raise Unsupported(f"havoc {type(v).__name__}")


def forget(eng, st, fr):
    """keep only what every path has in common: the facts at function entry, and which locals hold a value;
    locals get arbitrary values of their type, references survive only into what existed at entry"""
    pc, p2, memo, cells, ghost = eng.entry
    for ti in fr.fn["locals"][1:1 + fr.fn["argc"]]:
        t = eng.prog.ty(ti)
        if t["k"] == "ref" and t["mut"]:
            raise Unsupported("cut with a mutable reference argument")
    st.ghost = dict(ghost)
    st.pc, st.pow2s, st.memo = list(pc), list(p2), dict(memo)
    st.trail = ()
    names = {}
    for (nm, pl, ai) in fr.fn["dbg"]:
        if not pl[1]:
            names.setdefault(pl[0], nm)
    sts = [st]
    for i, ti in enumerate(fr.fn["locals"]):
        nxt = []
        for s1 in sts:
            v = s1.heap[fr.locals[i]]
            if isinstance(v, Ref) and v.cell in cells:
                nxt.append(s1)
                continue
            if isinstance(v, (Opq, Ref, Clo, FnV)) or (i not in names and not isinstance(v, (bool, z3.BoolRef))):
                s1.write(Ref(fr.locals[i]), UNINIT)
                nxt.append(s1)
                continue
            for (s2, nv) in eng.fresh(s1, ti, names.get(i, f"_{i}")):
                s2.write(Ref(fr.locals[i]), nv)
                nxt.append(s2)
        sts = nxt
        if len(sts) > 16:
            raise Unsupported("forget forks")
    return sts


def havoc(eng, st, fr, body):
    fn = fr.fn
    changed, derefs, used = body_effects(fn, body)
    names = {}
    for (nm, pl, ai) in fn["dbg"]:
        if not pl[1]:
            names.setdefault(pl[0], nm)
    targets = []     # (Ref, type)
    for i in sorted(changed):
        targets.append((Ref(fr.locals[i]), fn["locals"][i], names.get(i, f"_{i}")))
    seen = set()
    for p in derefs:
        if p[0] in changed:
            continue
        # resolve up to the last deref that is stable
        k = next(j for j, e in enumerate(p[1]) if e[0] == "deref")
        try:
            ref = eng.place(st, fr, [p[0], p[1][:k + 1]])
            ty = eng.place_ty(fr, [p[0], p[1][:k + 1]])
        except Unsupported:
            continue
        key = (ref.cell, str(ref.path))
        if key not in seen:
            seen.add(key)
            targets.append((ref, ty, names.get(p[0], f"_{p[0]}")))
    for i in sorted(used | changed):
        v = st.heap[fr.locals[i]]
        refs = []
        collect_mut_refs(eng, v, refs)
        for r in refs:
            if r.path and r.path[-1][0] == "ss":
                r = Ref(r.cell, r.path[:-1])       # part of a sequence: all of it
            key = (r.cell, str(r.path))
            if key not in seen:
                seen.add(key)
                targets.append((r, None, "captured"))
    # a place inside another target is covered by it
    sts = [st]
    for (ref, ty, nm) in targets:
        nxt = []
        for s1 in sts:
            try:
                v = s1.read(ref)
            except Unsupported:
                nxt.append(s1)
                continue
            if isinstance(v, Opq):
                nxt.append(s1)
                continue
            for (s2, nv) in fresh_like(eng, s1, v, nm, ty):
                s2.write(ref, nv)
                nxt.append(s2)
        sts = nxt
        if len(sts) > 64:
            raise Unsupported("havoc forks")
    return sts
