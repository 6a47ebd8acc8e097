"""Runs the verifier on a set of (unit, function) contracts, one forked process per function.
verify(jobs) -> list of plain result dictionaries."""
import sys, os, time, json, multiprocessing as mp, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import solve, verify as V


def summarise(unit, K, R, sat):
    obls = []
    for o in R.obls:
        obls.append(dict(name=o.name, kind=o.kind, loc=str(o.loc), status=o.status, backend=o.backend,
                         time=round(o.time, 2), detail=o.detail))
    d = dict(unit=unit.name, fn=K.fn, short=K.short, error=R.error, obls=obls, paths=R.paths,
             returns=getattr(R, "nreturns", R.returns), inlined=sorted(map(str, R.inlined)), assumed=sorted(map(str, R.assumed)),
             used=sorted(map(str, R.used)), loops=[[l[0], l[1], list(map(str, l[2]))] for l in R.loops], wall=round(R.wall, 1), vacuity=sat,
             stats=dict(solve.STATS))
    if R.error:
        d["tb"] = getattr(R, "tb", "")
    return d


def _child(unit, K, timeout, inv_timeout, conn):
    try:
        solve.STATS.update(queries=0, solver_s=0.0)
        solve._tmp[0] = None
        solve._cache.clear()
        R = V.verify_function(unit, K, timeout, inv_timeout=inv_timeout)
        sat = None
        if not R.error:
            sat = V.vacuity(R)
        bad = [o for o in R.obls if o.status != "proved"]
        res = summarise(unit, K, R, sat)
        if bad:
            # verifier output kept for the replay file: the first failing query and the solver's answer
            txt = solve.smt2(bad[0])
            r, dt, out = solve._run1(["z3-new", "-T:10"], txt.replace("(check-sat)", "(check-sat)\n(get-info :reason-unknown)\n"), 10)
            res["first_failed_query"] = txt[:200000]
            res["first_failed_answer"] = out[:4000]
            if bad[0].status == "refuted":
                r, dt, out = solve._run1(["z3-new", "-T:10"], txt + "\n(get-model)\n", 10)
                res["model"] = out[:20000]
        conn.send(res)
    except BaseException as x:
        conn.send(dict(unit=unit.name, fn=K.fn, short=K.short, error="engine: %s: %s" % (type(x).__name__, x), tb=traceback.format_exc(),
                       obls=[], paths=0, returns=0, inlined=[], assumed=[], used=[], loops=[], wall=0, vacuity=None, stats=dict(queries=0, solver_s=0)))
    finally:
        conn.close()
        import shutil
        if solve._tmp[0]:
            shutil.rmtree(solve._tmp[0], ignore_errors=True)
        os._exit(0)


def err(unit, K, msg):
    return dict(unit=unit, fn=K.fn if K else "?", short=K.short if K else unit, error=msg, obls=[], paths=0, returns=0, inlined=[], assumed=[],
                used=[], loops=[], wall=0, vacuity=None, stats=dict(queries=0, solver_s=0))


def verify(jobs, timeout=10, deadline=None, par=8, inv_timeout=4, only=None):
    """jobs: [(unit name, None | [function short names])]"""
    solve.SEM = mp.Semaphore(solve.NPROC)
    solve.DEADLINE[0] = deadline
    results = []
    todo = []
    for uname, fns in jobs:
        try:
            u = V.load_unit(uname)
            u.load()
        except Exception as x:
            results.append(err(uname, None, "front end: %s: %s" % (type(x).__name__, x)))
            results[-1]["tb"] = traceback.format_exc()
            continue
        for K in u.contracts:
            if K.trusted:
                continue
            if fns is not None and K.short not in fns:
                continue
            if only is not None and (u.name, K.short) not in only:
                continue
            todo.append((u, K))
    running = []
    todo.sort(key=lambda x: -getattr(x[1], "weight", 1))
    while todo or running:
        while todo and len(running) < par:
            u, K = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(u, K, timeout, inv_timeout, b))
            p.start()
            b.close()
            running.append((p, a, u, K))
        still = []
        for p, a, u, K in running:
            if a.poll(0.02):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(err(u.name, K, "engine process died"))
                p.join(5)
            elif not p.is_alive():
                results.append(err(u.name, K, "engine process died"))
            elif deadline is not None and time.time() > deadline + 60:
                p.kill()
                results.append(err(u.name, K, "deadline"))
            else:
                still.append((p, a, u, K))
        running = still
    return results


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("unit", nargs="+")
    ap.add_argument("-f", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-t", type=int, default=10)
    a = ap.parse_args()
    t0 = time.time()
    tot = ok = 0
    for r in verify([(u, a.f) for u in a.unit], a.t):
        bad = [o for o in r["obls"] if o["status"] != "proved"]
        tot += len(r["obls"])
        ok += len(r["obls"]) - len(bad)
        print("%-45s %d/%d obligations, %d paths, %d returns, pre:%s %.1fs %s" % (r["short"], len(r["obls"]) - len(bad), len(r["obls"]), r["paths"], r["returns"], r["vacuity"], r["wall"], r["error"] or ""))
        if r["error"] and a.v:
            print(r.get("tb"))
        for o in bad:
            print("    %s [%s] %s @%s (%.1fs %s)" % (o["status"], o["kind"], o["name"], o["loc"], o["time"], o["detail"]))
        if bad or a.v:
            for l in r["loops"]:
                print("    loop %s writes %d dropped %s" % tuple(l))
    print("total %d/%d %.1fs" % (ok, tot, time.time() - t0))
