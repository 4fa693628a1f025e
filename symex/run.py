"""Command line: run.py <property> [--tier quick|thorough] [--case NAME] [--replay FILE]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap():
    sys.dont_write_bytecode = True
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    sys.path[0:1] = [VERIF]
    import numpy  # noqa: F401  (the package's numpy first)

    sys.path.append(VT)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(VT)


def worker(case, seed, tier, deadline, q, concrete=False):
    import resource

    from . import harness

    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        import random
        import numpy as np

        random.seed(seed)
        np.random.seed(seed)
        r = harness.Runner(case, seed, tier, None, deadline)
        r = r.run_concrete() if concrete else r.run()
    except BaseException as ex:
        import traceback

        r = dict(case=case.id, status="inconclusive", undecided=[
            "worker failed: " + "".join(traceback.format_exception_only(ex)).strip()],
            violations=[], known=[])
        if os.environ.get("QS_DEBUG"):
            traceback.print_exc()
    q.send(r)
    q.close()


def run_cases(cases, seed, tier, jobs, limit, concrete=False):
    ctx = mp.get_context("fork")
    todo = list(cases)
    active = []
    out = {}
    t_end = time.time() + limit
    stop = None  # a quick check ends soon after its first confirmed violation
    while todo or active:
        if stop and time.time() > stop:
            for c in todo + [i[0] for i in active]:
                out[c.id] = dict(case=c.id, status="skipped", violations=[], known=[],
                                 notes=["stopped after a violation"])
            for c, p, a, dl in active:
                p.kill()
                p.join()
            break
        while todo and len(active) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            lim = c.timeout or (240 if tier == "quick" else 3600)
            dl = min(time.time() + lim, t_end)
            p = ctx.Process(target=worker, args=(c, seed, tier, dl, b, concrete))
            p.start()
            b.close()
            active.append((c, p, a, dl))
        time.sleep(0.02)
        for item in list(active):
            c, p, a, dl = item
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(case=c.id, status="inconclusive", violations=[], known=[],
                             lost=True,
                             undecided=["worker died (exit %s)" % p.exitcode])
            elif not p.is_alive():
                if a.poll():
                    continue
                r = dict(case=c.id, status="inconclusive", violations=[], known=[],
                         lost=True,
                             undecided=["worker died (exit %s)" % p.exitcode])
            elif time.time() > dl + 25:
                p.kill()
                r = dict(case=c.id, status="inconclusive", violations=[], known=[],
                         lost=True, undecided=["time limit"])
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                active.remove(item)
                out[c.id] = r
                if r.get("violations") and tier == "quick" and not stop:
                    stop = time.time() + 45
                if os.environ.get("QS_VERBOSE"):
                    print("  %-44s %-13s %6.1fs paths=%s obl=%s/%s q=%s val=%s %s" % (
                        c.id, r["status"], r.get("wall_s", -1), r.get("paths"),
                        r.get("discharged"), r.get("obligations"), r.get("queries"),
                        r.get("validated"), (r.get("undecided") or [""])[0][:3000]
                        + " ".join(r.get("notes", []))[:3000]),
                        flush=True)
    return [out[c.id] for c in cases]


def rerun_concrete(cases, results, seed, tier, jobs):
    """A worker that died or ran out of time still gets concrete runs."""
    lost = [i for i, r in enumerate(results) if r.get("lost")]
    if not lost:
        return
    extra = run_cases([cases[i] for i in lost], seed, tier, jobs, 90, True)
    for i, x in zip(lost, extra):
        results[i]["violations"] = x.get("violations", [])
        if results[i]["violations"]:
            results[i]["status"] = "violated"
        results[i]["validated"] = x.get("validated", 0)


def known_findings():
    """id -> text, for the findings recorded as present."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                body = line[len("known:"):].strip()
                prop, kid, text = body.split(None, 2)
                out[(prop.split("=")[1], kid.split("=")[1])] = text
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="qs_verif_")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(tmp, "numba")
    os.environ["MPLCONFIGDIR"] = tmp
    os.environ.pop("QS_CACHE_TDHO", None)
    cwd = os.getcwd()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    os.chdir(tmp)
    try:
        if a.selftest or not a.prop:
            return selftest()
        return _main(a, tier, seed, t0, tmp)
    finally:
        os.chdir(cwd)
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def _main(a, tier, seed, t0, tmp):
    from . import harness, loader

    importlib.import_module("props.%s" % a.prop.lower())
    cases = [c for c in harness.CASES if c.prop == a.prop]
    if a.replay:
        return replay(a, cases, loader, harness)
    if tier == "quick":
        cases = [c for c in cases if c.tier == "quick"]
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    cases.sort(key=lambda c: "faint" not in c.params)  # cheap, and soon drowned elsewhere
    import quantum_systems_warm  # noqa: F401  (imports heavy libraries once)

    limit = 480 if tier == "quick" else 6 * 3600
    results = run_cases(cases, seed, tier, a.jobs, limit)
    rerun_concrete(cases, results, seed, tier, a.jobs)
    known = known_findings()
    viol = []
    rc = 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for r in results:
        for v in r.get("violations", []):
            viol.append(v)
        for kid, label in r.get("known", []):
            if (a.prop, kid) not in known:
                viol.append(dict(case=r["case"], kind="fail", found_by=label,
                                 info="finding %s is not listed as known" % kid,
                                 params={}, values={}))
    shown = set()
    for r in results:
        for kid, label in r.get("known", []):
            if (a.prop, kid) in known and kid not in shown:
                shown.add(kid)
                print("KNOWN-FINDING: property=%s %s" % (a.prop, known[(a.prop, kid)]))
    for i, v in enumerate(viol[:5]):
        path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (a.prop, i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  case %s: %s" % (v["case"], v["info"]))
        rc = 1
    und = [(r["case"], u) for r in results for u in r.get("undecided", [])]
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    ev = dict(
        property=a.prop, tier=tier, seed=seed, level="model_checking",
        wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=getattr(sys.modules["props.%s" % a.prop.lower()], "ASSUMPTIONS", []),
        coverage=dict(
            states=tot("paths"), transitions=tot("decisions") + tot("queries"),
            traces_validated_against_impl=tot("validated"),
            samples=[dict(case=r["case"], status=r["status"], bounds=r.get("bounds"),
                          params=r.get("params"), paths=r.get("paths"),
                          reachability_witnesses=r.get("witnesses"),
                          obligations=r.get("obligations"), discharged=r.get("discharged"),
                          solver_queries=r.get("queries"), solver_s=r.get("solver_s"),
                          wall_s=r.get("wall_s"), undecided=r.get("undecided"),
                          notes=r.get("notes")) for r in results],
            explanation="states = feasible symbolic paths of the harness through the package's "
                        "source; transitions = branch decisions plus solver queries; each "
                        "obligation is an equality or condition proved for all values on a path",
            obligations=tot("obligations"), discharged=tot("discharged"),
            solver_queries=tot("queries"), solver_s=round(tot("solver_s"), 2),
            functions_encoded=sorted({f for r in results for f in r.get("functions", [])}),
            cases=len(results),
            cases_decided=sum(r["status"] in ("proved", "violated") for r in results),
            cases_inconclusive=[r["case"] for r in results if r["status"] == "inconclusive"],
            cases_skipped=[r["case"] for r in results if r["status"] == "skipped"],
            equalities_confirmed_by_query=tot("confirmed"),
            equalities_by_normal_form_only=tot("by_normal_form"),
            known_findings=sorted(shown),
        ),
    )
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for c, u in und:
        print("INCONCLUSIVE %s: %s" % (c, u))
    print("%s %s: %d cases, %d decided, %d paths, %d/%d obligations, %d queries, %d validated, %.1fs" % (
        a.prop, tier, len(results), ev["coverage"]["cases_decided"], tot("paths"),
        tot("discharged"), tot("obligations"), tot("queries"), tot("validated"),
        time.time() - t0))
    return rc


def selftest():
    """the tools are there, the package loads symbolically, the solver answers"""
    import z3

    from . import core, harness, loader, shims

    e = core.new_engine(timeout_ms=10000)
    pkg = loader.SymPackage()
    qs = pkg.load("quantum_systems")
    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x == 2, x > 0, x * x != 2)
    ok = s.check() == z3.unsat and hasattr(qs, "BasisSet")
    print("selftest", "ok" if ok else "failed", "z3", z3.get_version_string())
    return 0 if ok else 2


def replay(a, cases, loader, harness):
    from fractions import Fraction as F

    v = json.load(open(a.replay))
    c = [c for c in cases if c.id == v["case"]][0]
    vals = {k: F(x) for k, x in v["values"].items()}
    params = dict(c.params)
    params.update(v.get("params", {}))
    st, env, info = harness.run_real(c, params, vals)
    print(st, info)
    if st in ("exc", "fail"):
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    return 0


if __name__ == "__main__":
    pass
