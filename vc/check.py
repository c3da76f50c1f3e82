#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY TIER: decide one property on /repo's current working tree."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
B = os.path.join(VERIF, ".build")
sys.path.insert(0, HERE)
STOP = "\n".join("""crate:num_bigint
core::fmt
std::fmt
alloc::fmt
core::panicking
std::rt
std::panicking
alloc::raw_vec
alloc::alloc
std::io
std::sync
std::thread
rand""".split())


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def build_driver():
    t = os.path.join(B, "driver")
    exe = os.path.join(t, "debug", "mirdump")
    p = sh(["cargo", "+nightly", "build", "--offline"], {"CARGO_TARGET_DIR": t}, os.path.join(VERIF, "driver"))
    if p.returncode or not os.path.exists(exe):
        raise RuntimeError("driver build failed: " + p.stderr[-2000:])
    lib = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip() + "/lib"
    return exe, lib


def forget(target):
    """drop the fingerprints of the code under test so that it is always rebuilt from the working tree"""
    for pat in ("vroots-*", "vnative-*", "algebraics-*"):
        for d in glob.glob(os.path.join(target, "*", ".fingerprint", pat)) + glob.glob(os.path.join(target, "*", "build", pat[:-2])) + glob.glob(os.path.join(target, "*", "incremental", pat)):
            shutil.rmtree(d, ignore_errors=True)


def scoped_repo():
    """the crate without the modules that do not compile (same cut as the repository's own build script)"""
    d = os.path.join(B, "scope")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/src")
    shutil.copy(REPO + "/Cargo.toml", d)
    if os.path.exists(REPO + "/Cargo.lock"):
        shutil.copy(REPO + "/Cargo.lock", d)
    shutil.copy(REPO + "/README.md", d)
    for f in os.listdir(REPO + "/src"):
        if f in ("algebraic_numbers.rs", "prelude.rs", "lib.rs"):
            continue
        os.symlink(os.path.join(REPO, "src", f), os.path.join(d, "src", f))
    with open(REPO + "/src/lib.rs") as fh:
        lines = [l for l in fh if not re.match(r"\s*(pub mod algebraic_numbers;|pub mod prelude;|pub use algebraic_numbers::)", l)]
    open(d + "/src/lib.rs", "w").writelines(lines)
    return d


def crate_dir(name, repo):
    if repo == REPO:
        return os.path.join(VERIF, name)
    d = os.path.join(B, name + "-scoped")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, name), d, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(d, "Cargo.toml")
    t = open(p).read().replace('path = "/repo"', f'path = "{repo}"').replace('default = ["full"]', "default = []")
    open(p, "w").write(t)
    return d


def dump(feature, repo):
    exe, lib = build_driver()
    t = os.path.join(B, "roots")
    out = os.path.join(B, f"mir_{feature}.json")
    if os.path.exists(out):
        os.unlink(out)
    forget(t)
    p = sh(["cargo", "+nightly", "check", "--offline", "--features", feature],
           {"MIRDUMP_CRATE": "vroots", "MIRDUMP_OUT": out, "MIRDUMP_STOP": STOP, "RUSTC_WRAPPER": exe, "LD_LIBRARY_PATH": lib, "CARGO_TARGET_DIR": t},
           crate_dir("roots", repo))
    if not os.path.exists(out):
        return None, p.stderr[-3000:]
    return out, ""


def build_native(repo, feature):
    t = os.path.join(B, "native")
    forget(t)
    exe = os.path.join(t, "debug", "vnative")
    if os.path.exists(exe):
        os.unlink(exe)
    p = sh(["cargo", "build", "--offline", "--features", feature], {"CARGO_TARGET_DIR": t}, crate_dir("native", repo))
    if not os.path.exists(exe):
        return None, p.stderr[-3000:]
    return exe, ""


def run_native(exe, prefixes, seed, ms, points=()):
    pts = ",".join(points) if points else "-"
    try:
        p = sh([exe, "run", ",".join(prefixes), str(seed), str(ms), pts], timeout=ms / 1000 * 4 + 240)
    except subprocess.TimeoutExpired:
        return None, "native run did not finish (a case does not terminate)"
    try:
        return json.loads(p.stdout), ""
    except ValueError:
        return None, f"native run ended with {p.returncode}: {p.stderr[-500:]}"


def stripped(txt):
    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
    txt = re.sub(r"//[^\n]*", " ", txt)
    return hashlib.sha256(" ".join(txt.split()).encode()).hexdigest()


def src_hashes():
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".rs"):
                out[os.path.relpath(p, REPO)] = stripped(open(p, encoding="utf-8", errors="replace").read())
    return out


def changed_files():
    """source files whose code (comments and layout aside) is not the one the proofs were developed on; an obligation no solver
    decides counts as failed only there, so that a slow machine cannot raise an alarm"""
    p = os.path.join(VERIF, "vc", "base_src.json")
    base = json.load(open(p)) if os.path.exists(p) else {}
    cur = src_hashes()
    ch = {f for f in set(base) | set(cur) if base.get(f) != cur.get(f)}
    return ch | {os.path.join(REPO, f) for f in ch}


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f["status"] == "open"]


def main():
    t0 = time.time()
    if sys.argv[1] == "setup":
        os.makedirs(B, exist_ok=True)
        build_driver()
        exe, err = build_native(REPO, "interval")
        print("setup: driver built; native harness " + ("built" if exe else "not built: " + err[-300:]))
        return
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from props import PROPS
    P = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    tmp = os.path.join(B, f"tmp.{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    os.environ["TMPDIR"] = tmp
    import tempfile
    tempfile.tempdir = tmp
    import atexit
    atexit.register(shutil.rmtree, tmp, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    quick = tier == "quick"
    budget = 560 if quick else 840
    notes, viol = [], []

    repo = REPO
    mir, err = dump(P["feature"], repo) if P.get("feature") else (None, "")
    if P.get("feature") and mir is None:
        repo = scoped_repo()
        mir, err = dump(P["feature"], repo)
        notes.append("full crate did not compile; the modules in the repository's own build scope were verified instead")
    if P.get("feature") and mir is None:
        notes.append("verifier front end could not build /repo: " + err[-400:])

    results, missing = [], []
    if mir:
        import runner
        rx = re.compile(P["contracts"])
        jobs, missing = runner.plan(mir, P["suites"], lambda c: bool(rx.search(c.name)))
        scale = 1.0 if quick else 3.0
        results = runner.run_jobs(mir, P["suites"], jobs, scale=scale, deadline=t0 + budget - 150)
        if len(results) < len(jobs):
            notes.append(f"{len(jobs) - len(results)} functions not finished within the time budget")
        for nm, f in (P.get("lemmas") or []):
            results.extend(f(mir, P["suites"], scale))

    lab = re.compile(P["labels"]) if P.get("labels") else None
    obl = dis = 0
    undecided, refuted, failed, backends, secs = [], [], [], {}, 0.0
    changed = changed_files()
    for r in results:
        if r["status"] != "ok":
            undecided.append({"function": r["fn"], "contract": r["contract"], "why": r.get("why", r["status"])})
            continue
        for o in r["obligs"]:
            if lab and not lab.search(o["label"]):
                continue
            obl += 1
            secs += o["secs"]
            if o["verdict"] == "proved":
                dis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["verdict"] == "refuted":
                refuted.append((r, o))
            else:
                undecided.append({"function": r["fn"], "contract": r["contract"], "why": f"obligation {o['label']} {o['verdict']}"})
                if o["verdict"] == "unknown" and (o.get("sat") or any(f in changed for f in r.get("files", []))):
                    failed.append((r, o))
    for m in missing:
        undecided.append({"function": m, "contract": m, "why": "no function with this role in the compiled code"})

    # bounded, native execution of the same contracts on the real code
    native, nerr, exe = [], "", None
    if P.get("native"):
        exe, nerr = build_native(repo, P["native_feature"])
        if exe is None and repo == REPO:
            repo2 = scoped_repo()
            exe, nerr = build_native(repo2, P["native_feature"])
            notes.append("native harness built against the scoped crate")
        if exe:
            pts = []
            for (r, o) in refuted[:20]:
                for v in (o.get("model") or {}).values():
                    if v not in pts and len(v) < 60:
                        pts.append(v)
            base = P.get("native_ms", 6000) * (1 if quick else 20)
            if undecided:
                base *= 2
            native, nerr = run_native(exe, P["native"], seed, base, ())
            if native is not None and pts and not any(x["failures"] for x in native):
                n2, _ = run_native(exe, P["native"], seed + 1, 10000, pts[:60])
                native = native + (n2 or [])
            if native is None:
                native = []
                if nerr.startswith("native run did not finish"):
                    viol.append(("native-timeout", {"kind": "non-termination", "detail": nerr}, False))
        else:
            notes.append("native harness did not build: " + nerr[-400:])
    known = known_findings(pid)
    printed_known = set()
    nfail = 0
    for x in native:
        for f in x["failures"]:
            kf = next((k for k in known if k["check"] == x["check"] and re.search(k["match"], f["why"] + " " + " ".join(f["case"]))), None)
            if kf:
                printed_known.add(kf["what"])
                continue
            nfail += 1
            viol.append((x["check"], {"kind": "failing input", "check": x["check"], "case": f["case"], "why": f["why"],
                                      "replay": f"{exe} replay {x['check']} " + " ".join(f["case"])}, True))
    for k in known:
        printed_known.add(k["what"])
    for w in sorted(printed_known):
        print(f"KNOWN-FINDING: property={pid} {w}")

    have_input = any(v[2] for v in viol)
    named = [{"obligation": o["label"], "function": r["fn"], "file": r["file"], "line": r["line"], "path": o["trail"], "model": o.get("model"),
              "solver_output": "sat (counter-model checked with pow2 and gcd interpreted)", "smt2": o.get("smt2", "")[:20000]} for (r, o) in refuted]
    strong = [n for n, (r, o) in zip(named, refuted) if not r.get("havoc")]
    weak = [n for n, (r, o) in zip(named, refuted) if r.get("havoc")]
    weak += [{"obligation": o["label"], "function": r["fn"], "file": r["file"], "line": r["line"], "path": o["trail"], "model": None,
              "solver_output": "sat (uninterpreted lemma functions)" if o.get("sat") else "unknown from every back end", "smt2": o.get("smt2", "")[:20000]} for (r, o) in failed]
    lines = []
    if have_input:
        for i, (nm, d, _) in enumerate([v for v in viol if v[2]][:3]):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            d["failed_obligations"] = [{k: n[k] for k in ("obligation", "function", "file", "line")} for n in (named + weak)[:10]]
            json.dump({"property": pid, **d}, open(path, "w"), indent=1)
            lines.append(f"VIOLATION property={pid} replay={path}")
    elif strong:
        path = os.path.join(rdir, f"{pid}-obligation.json")
        json.dump({"property": pid, "kind": "failed obligation", "obligations": strong[:10]}, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    elif weak:
        # the proof of a changed function no longer goes through and the bounded run found no failing input
        path = os.path.join(rdir, f"{pid}-obligation.json")
        json.dump({"property": pid, "kind": "failed obligation: the contract is not derivable from the changed code", "obligations": weak[:10]}, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    elif viol:
        path = os.path.join(rdir, f"{pid}-run.json")
        json.dump({"property": pid, **viol[0][1]}, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for n, (r, o) in zip(named, refuted):
        if r.get("havoc") and not have_input:
            undecided.append({"function": r["fn"], "contract": r["contract"], "why": f"obligation {o['label']} not derivable from the loop invariants / abstract callees"})

    # nothing examined at all is no answer
    evals = sum(x["evaluations"] for x in native)
    if obl == 0 and evals == 0:
        print(f"check {pid}: nothing could be examined: {'; '.join(notes)} {nerr}", file=sys.stderr)
        lines = lines or []
        rc_dead = True
    else:
        rc_dead = False

    models = sorted({m for r in results for m in r.get("models", [])})
    axioms = sorted({m for r in results for m in r.get("axioms", [])})
    fns = sorted({r["fn"] for r in results if r["status"] == "ok"})
    proved_all = bool(mir) and obl > 0 and obl == dis and not undecided
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": f"python3-vt vc/check.py {pid} {tier}",
            "trusted_base": ["rustc nightly (MIR construction, trait resolution) and driver/ (serialisation)", "vc/engine.py (VC generation) and the solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2"]
            + ["assumed contract: " + m for m in models] + ["mathematical axiom: " + a for a in axioms],
            "functions_under_contract": len(fns),
            "functions_sample": fns[:12],
            "contract_kinds": sorted({r["contract"] for r in results if r["status"] == "ok"}),
            "bodies_executed_inline": sorted({i for r in results for i in r.get("inlined", [])})[:400],
            "loop_invariants_used": sorted({i for r in results for i in r.get("invs", [])}),
            "discharged_by_backend": backends, "solver_seconds": round(secs, 1),
            "all_obligations_discharged": proved_all,
            "undecided": undecided[:60], "refuted": [n["obligation"] + " in " + n["function"] for n in named[:40]],
            "bounded_standin": {"note": P.get("bounded", ""), "labelled": "bounded, not counted as proved",
                                "evaluations": evals, "distinct": sum(x["distinct"] for x in native),
                                "checks": sorted({x["check"] for x in native}), "samples": [{"check": x["check"], "case": x["sample"]} for x in native[:6]]},
        },
        "assumptions": P.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 1), "violations": len(lines),
    }
    if P["level"] in ("exploration", "other"):
        ev["coverage"].update({"evaluations": evals, "distinct_nontrivial": sum(x["distinct"] for x in native), "rule": P.get("rule", ""),
                               "samples": [{"check": x["check"], "case": x["sample"]} for x in native[:6]], "explanation": P.get("bounded", "")})
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print(f"{pid}: {dis}/{obl} obligations discharged over {len(fns)} functions, {len(undecided)} undecided, {evals} bounded evaluations, {nfail} failing, {ev['wall_s']} s")
    if rc_dead:
        sys.exit(2)
    sys.exit(1 if lines else 0)


if __name__ == "__main__":
    main()
