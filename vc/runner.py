"""Verify every function matched by a contract; parallel over functions."""
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
import z3
from engine import Prog, Engine, Contract, Unsupported
from models import Models
import solve

G = {}
MAX_BAD = 3          # stop on a function after this many undischarged obligations
JOB_LIMIT = int(os.environ.get("JOB_LIMIT", "240"))      # seconds per function


def init(progpath, suites):
    G["prog"] = Prog(progpath)
    G["suites"] = suites


def mk_engine():
    import suites as S
    m = Models()
    contracts, loops = [], {}
    for nm in G["suites"]:
        s = S.SUITES[nm]
        contracts += s.contracts()
        if hasattr(s, "fresh_hook"):
            m.fresh_hooks.append(s.fresh_hook)
        if hasattr(s, "inv_hook"):
            m.inv_hooks.append(s.inv_hook)
        if hasattr(s, "loopspecs"):
            loops.update(s.loopspecs())
        if hasattr(s, "install"):
            s.install(m)
    return Engine(G["prog"], m, contracts, loops), contracts


class TimeUp(Exception):
    pass


def prove_all(obligs, scale=1.0, threads=1):
    """texts are generated here; the solvers run as subprocesses, several at a time"""
    from concurrent.futures import ThreadPoolExecutor
    seen, todo = {}, []
    for o in obligs:
        if o.verdict:
            continue
        exprs = o.hyps + [z3.Not(o.goal)]
        txt = solve.smt2(exprs)
        h = hash(txt)
        if h in seen:
            seen[h].append(o)
            continue
        seen[h] = [o]
        rel = solve.relax(exprs)
        todo.append((h, exprs, txt, solve.smt2(rel, "QF_NRA") if rel is not None else None))
    bad = [0]

    def one(t):
        if bad[0] >= MAX_BAD:
            return ("skipped", "", 0.0)
        r = solve.discharge(t[2], t[3], scale)
        if r[0] != "proved":
            bad[0] += 1
        return r
    ex = ThreadPoolExecutor(threads)
    try:
        for t, r in zip(todo, ex.map(one, todo)):
            h, exprs = t[0], t[1]
            o = seen[h][0]
            o.verdict, o.backend, o.secs = r
            if o.verdict not in ("proved", "skipped"):
                o.sat = o.verdict == "refuted"
                o.model = solve.real_model(exprs)
                o.verdict = "refuted" if o.model is not None else "unknown"
            for p in seen[h][1:]:
                p.verdict, p.backend, p.secs = o.verdict, o.backend, 0.0
                if hasattr(o, "model"):
                    p.model, p.sat = o.model, o.sat
    finally:
        ex.shutdown(wait=False, cancel_futures=True)


def job(args):
    fid, ci, scale, threads, part = args
    prog = G["prog"]
    t0 = time.time()
    eng, contracts = mk_engine()
    c = contracts[ci]
    fn = prog.fns[fid]
    res = {"fn": fn["name"], "contract": c.name, "status": "ok", "obligs": [], "file": fn.get("file", ""), "line": fn.get("line", 0), "fid": fid, "ci": ci}

    def up(*_):
        raise TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.alarm(JOB_LIMIT)
    try:
        st = eng.verify(fn, c, part=part)
        res["stats"] = st
        res["gen_s"] = time.time() - t0
        if st["ret"] + st["panic"] == 0 and part is None:
            res["status"] = "vacuous"
        prove_all(eng.obligs, scale, threads)
    except Unsupported as e:
        res["status"] = "unsupported"
        res["why"] = str(e)
    except TimeUp:
        res["status"] = "unsupported"
        res["why"] = "time limit"
    except Exception as e:
        res["status"] = "unsupported"
        res["why"] = "internal: " + "".join(traceback.format_exception_only(type(e), e))[:300]
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    if res["status"] in ("ok", "vacuous"):
        for o in eng.obligs:
            d = {"label": o.label, "verdict": o.verdict, "backend": o.backend, "secs": round(o.secs, 3), "trail": list(o.trail)}
            if o.verdict not in ("proved", "skipped"):
                d["smt2"] = solve.smt2(o.hyps + [z3.Not(o.goal)]) if o.hyps is not None else ""
                d["model"] = getattr(o, "model", None)
                d["sat"] = getattr(o, "sat", False)
            res["obligs"].append(d)
    res["models"] = sorted(eng.used_models)
    res["callees"] = sorted({n for (_, n) in eng.used_contracts})
    res["inlined"] = sorted({prog.fns[i]["path"] for i in eng.inlined if i != fid})
    res["files"] = sorted({prog.fns[i].get("file", "") for i in list(eng.inlined) + [fid]})
    res["invs"] = sorted(f"{p}#loop{i}" for p, i in eng.used_invs)
    res["axioms"] = sorted(eng.used_axioms)
    res["havoc"] = getattr(c, "inexact", False) or bool(eng.used_invs) or any(getattr(contracts_by(contracts, n), "inexact", False) for n in res["callees"])
    res["wall"] = time.time() - t0
    return res


def contracts_by(contracts, n):
    for c in contracts:
        if c.name == n:
            return c


def plan(progpath, suites, only=None):
    """[(fn id, contract index)] for suites; contracts whose anchor is missing are reported"""
    init(progpath, suites)
    eng, contracts = mk_engine()
    jobs, missing = [], []
    prog = G["prog"]
    hit = {}
    for f in prog.fns.values():
        if "blocks" not in f:
            continue
        c = eng.contract_for(f)
        if c is not None:
            ci = contracts.index(c)
            hit.setdefault(ci, []).append(f["id"])
    for ci, c in enumerate(contracts):
        if getattr(c, "assumed", False):
            continue
        if only and not only(c):
            continue
        if ci not in hit:
            if not getattr(c, "optional", False):
                missing.append(c.name)
        for fid in hit.get(ci, []):
            jobs.append((fid, ci))
    return jobs, missing


def run_jobs(progpath, suites, jobs, scale=1.0, procs=8, deadline=None):
    """functions with many starting cases are split over several processes (contract.split)"""
    done, parts = [], {}
    init(progpath, suites)
    contracts = mk_engine()[1]
    todo = []
    for (f, c) in jobs:
        k = getattr(contracts[c], "split", 1)
        todo += [(f, c, None)] if k == 1 else [(f, c, (i, k)) for i in range(k)]
    todo.sort(key=lambda j: j[2] is None)
    threads = 4 if len(todo) <= 12 else 2 if len(todo) <= 30 else 1
    pool = mp.get_context("fork").Pool(procs, initializer=init, initargs=(progpath, suites), maxtasksperchild=40)
    try:
        it = pool.imap_unordered(job, [(f, c, scale, threads, p) for (f, c, p) in todo], chunksize=1)
        for _ in range(len(todo)):
            try:
                r = it.next(timeout=None if deadline is None else max(1, deadline - time.time()))
            except mp.TimeoutError:
                break
            k = getattr(contracts[r["ci"]], "split", 1)
            if k == 1:
                done.append(r)
                continue
            rs = parts.setdefault((r["fid"], r["ci"]), [])
            rs.append(r)
            if len(rs) == k:
                done.append(merge(rs))
    finally:
        pool.terminate()
        pool.join()
    return done


def merge(rs):
    """results of the parts of one function"""
    m = dict(next((r for r in rs if r["status"] != "ok"), rs[0]))
    for k in ("models", "callees", "inlined", "files", "invs", "axioms"):
        m[k] = sorted({x for r in rs for x in r[k]})
    m["obligs"] = [o for r in rs for o in r["obligs"]] if m["status"] == "ok" else m["obligs"]
    m["havoc"] = any(r["havoc"] for r in rs)
    m["wall"] = sum(r["wall"] for r in rs)
    m["gen_s"] = sum(r.get("gen_s", 0) for r in rs)
    if m["status"] == "ok":
        m["stats"] = {k: sum(r["stats"][k] for r in rs) for k in rs[0]["stats"]}
        if m["stats"]["ret"] + m["stats"]["panic"] == 0:
            m["status"] = "vacuous"
    return m


def main():
    progpath, suites = sys.argv[1], sys.argv[2].split(",")
    pat = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    jobs, missing = plan(progpath, suites, (lambda c: pat.search(c.name)) if pat else None)
    print(len(jobs), "functions; missing anchors:", missing)
    t0 = time.time()
    rs = run_jobs(progpath, suites, jobs, scale=float(os.environ.get("SCALE", "1")))
    tot = pr = 0
    for r in sorted(rs, key=lambda r: r["contract"]):
        bad = [o for o in r["obligs"] if o["verdict"] != "proved"]
        tot += len(r["obligs"])
        pr += len(r["obligs"]) - len(bad)
        if r["status"] != "ok" or bad:
            print(r["contract"], "|", r["fn"][:110], "|", r["status"], r.get("why", ""))
            for o in bad[:int(os.environ.get("NB", "6"))]:
                print("     ", o["verdict"], o["label"], o["trail"], o["secs"], o.get("model"))
                if os.environ.get("DUMP"):
                    open(f"/tmp/bad_{abs(hash(o['label']))%1000}.smt2", "w").write(o["smt2"])
        elif os.environ.get("V"):
            print("OK", r["contract"], "|", r["fn"][:110], len(r["obligs"]), r["stats"], round(r["wall"], 2), round(r["gen_s"], 2))
    print(f"{pr}/{tot} obligations discharged, {time.time()-t0:.1f}s")


if __name__ == "__main__":
    main()
