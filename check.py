#!/usr/bin/env python3
"""check.py <property id>: decides one property for /repo's current working tree (see DESIGN.md)."""
import os, sys, subprocess
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
import json, time, shutil, tempfile, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "dv"))
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.setrecursionlimit(100000)
import run as RUN
import harness as H
from props import PROPS

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENGINE_TRUST = [
    "dv engine: symbolic execution of clang 18's AST (dv/front.py, engine.py, ctypes_.py, sym.py) and its loop/call rules",
    "dv/lib.py: axioms for the C++ standard library operations used (containers, algorithms, optional/variant, smart pointers, locks)",
    "clang 18 front end (template instantiation, overload resolution, types)",
    "SMT solvers z3 5.3.2, cvc5 1.1.2, z3 4.8.12 (an obligation counts as discharged when one of them answers unsat)",
]
STD_ASSUME = [
    "memory model: values, with references resolved to the variable or element they denote; no aliasing between distinct parameters; no allocation failure",
    "hash functions of the unordered containers only affect iteration order, which is treated as arbitrary",
    "operations on one object are serialised by its mutex (lock discipline is itself checked: guarded members are touched only while the mutex is held, no relocking, released on return); other threads run only between critical sections",
]


def survey(results):
    obls = [(r, o) for r in results for o in r["obls"]]
    failing = [(r, o) for r, o in obls if o["status"] != "proved"]
    for r in results:
        if not r["error"] and (r["vacuity"] == "unsat" or r["returns"] == 0):
            failing.append((r, dict(name="vacuity: contract satisfiable and some path returns", kind="vacuity", loc=r["fn"], status="failed", backend="none", time=0,
                                    detail="precondition %s, %d returning paths" % (r["vacuity"], r["returns"]))))
    return obls, failing, [r for r in results if r["error"]]


def report(failing, errors):
    for r, o in failing:
        print("UNDISCHARGED %s %s [%s] %s at %s" % (r["short"], o["status"], o["kind"], o["name"], o["loc"]))
    for r in errors:
        print("NOT-IN-REACH %s: %s" % (r["short"], r["error"][:300]))
    sys.stdout.flush()


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    t0 = time.time()
    thorough = TIER == "thorough"
    budget = P.get("budget", 420)
    results = RUN.verify(P["jobs"], timeout=P.get("timeout", 10), deadline=t0 + budget)
    secs = (90 if thorough else 25)
    findings = []
    harness_ev = []
    obls, failing, errors = survey(results)
    report(failing, errors)
    tmp = tempfile.mkdtemp(prefix="verif_hb_")
    replay = None
    try:
        need = list(P.get("standin", []))
        search = bool(failing or errors) or thorough
        need += [h for h in P.get("harness", []) if h not in need]
        if need:
            from concurrent.futures import ThreadPoolExecutor

            def one(h):
                try:
                    exe = H.build(h, tmp)
                except (H.BuildError, subprocess.SubprocessError, OSError) as x:
                    return h, "nobuild", str(x), {}
                st, out, info = H.run(exe, SEED, secs if (search or thorough) else P.get("standin_secs", 8))
                if st == "fail" and "HANG" in out:
                    # a slow machine is not a violation: look again with the machine to ourselves
                    st, out, info = H.run(exe, SEED, secs)
                return h, st, out, info
            with ThreadPoolExecutor(4) as ex:
                for h, st, out, info in ex.map(one, need):
                    harness_ev.append(dict(harness=h, status=st, **info))
                    if st == "fail":
                        findings.append((h, out))
                    elif st == "nobuild":
                        print("HARNESS-NOT-BUILT %s: %s" % (h, out[:400]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if failing and not findings:
        # no failing input: give the open obligations much more solver time before calling them failed
        redo = {(r["unit"], r["short"]) for r, o in failing}
        again = RUN.verify(P["jobs"], timeout=40, inv_timeout=15, deadline=min(time.time() + 300, t0 + 780), only=redo)
        new = {(r["unit"], r["short"]): r for r in again}
        results = [new.get((r["unit"], r["short"]), r) if (r["unit"], r["short"]) in redo else r for r in results]
        obls, failing, errors = survey(results)
        print("second attempt on %d functions:" % len(redo))
        report(failing, errors)
    viol = 0
    rdir = os.path.join(HERE, "replays")
    if findings or failing:
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s.txt" % pid)
        with open(replay, "w") as fh:
            fh.write("property %s: %s\n\n" % (pid, P["title"]))
            for h, out in findings:
                fh.write("failing input found on the real code by harness/%s.cpp (built from /repo's current sources)\n" % h)
                fh.write("rerun: python3 dv/harness.py %s 30 [--seed S --case N as below]\n%s\n\n" % (h, out))
            for r, o in failing:
                fh.write("obligation not discharged: function %s (%s), %s [%s] at %s; status %s; solvers: %s\n" % (r["short"], r["fn"], o["name"], o["kind"], o["loc"], o["status"], o["detail"]))
            for r in results:
                for k in ("first_failed_answer", "model", "first_failed_query"):
                    if r.get(k):
                        fh.write("\n--- %s: %s ---\n%s\n" % (r["short"], k, r[k]))
            for r in errors:
                fh.write("\nnot in the verifier's reach: %s: %s\n%s\n" % (r["short"], r["error"], r.get("tb", "")))
        viol = 1
    discharged = sum(1 for r, o in obls if o["status"] == "proved")
    back = {}
    kinds = {}
    for r, o in obls:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
        if o["status"] == "proved":
            back[o["backend"]] = back.get(o["backend"], 0) + 1
    proof_ok = not errors and not failing
    cov = dict(
        obligations=len(obls), discharged=discharged,
        checker_cmd="python3 check.py %s" % pid,
        trusted_base=ENGINE_TRUST + P.get("trusted", []) + sorted({"assumed library fact: " + a for r in results for a in r["assumed"]}),
        functions_under_contract=[dict(function=r["short"], obligations=len(r["obls"]), discharged=sum(1 for o in r["obls"] if o["status"] == "proved"),
                                       paths=r["paths"], returns=r["returns"], precondition=r["vacuity"], wall_s=r["wall"], error=r["error"],
                                       callee_contracts_used=r["used"], inlined=r["inlined"]) for r in results],
        by_backend=back, by_kind=kinds,
        solver_queries=sum(r["stats"]["queries"] for r in results), solver_s=round(sum(r["stats"]["solver_s"] for r in results), 1),
        undischarged=["%s: %s" % (r["short"], o["name"]) for r, o in failing][:50],
        not_in_reach=["%s: %s" % (r["short"], r["error"][:200]) for r in errors],
        bounded_harness_runs=harness_ev,
    )
    level = P.get("level", "proof")
    if not proof_ok and level == "proof" and not viol:
        level = "exploration"
        cov["explanation"] = "some functions of the changed tree are outside the verifier's reach; the bounded harness stood in for them (not a proof)"
    if harness_ev:
        cov["evaluations"] = sum(h.get("evals", 0) for h in harness_ev)
        cov["distinct_nontrivial"] = sum(h.get("distinct", 0) for h in harness_ev)
        cov["rule"] = "random operation sequences from (seed, case number), checked after every operation against a reference model; distinct = distinct operation traces; bounded, never counted as proved"
        cov["samples"] = [h.get("sample", "") for h in harness_ev if h.get("sample")] or ["none"]
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=STD_ASSUME + P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=viol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d/%d obligations discharged in %d functions, %d not in reach, harness %s, %.1fs" % (
        pid, discharged, len(obls), len(results), len(errors), [(h["harness"], h["status"]) for h in harness_ev], time.time() - t0))
    known = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(known):
        for l in open(known):
            if l.startswith("property=%s " % pid):
                print("KNOWN-FINDING: " + l.strip())
    if findings:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if failing:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        return 1
    if not obls and not harness_ev:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, "none"))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
