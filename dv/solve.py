"""Discharging obligations with SMT solvers (z3 5.x, then cvc5, then z3 with other settings)."""
import os, subprocess, tempfile, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed
import z3

NPROC = int(os.environ.get("DV_JOBS", str(min(8, os.cpu_count() or 8))))
_cache = {}
SEM = None            # cross-process limit on concurrent solver processes (set by run.py)
DEADLINE = [None]     # absolute time after which nothing more is tried
STATS = {"queries": 0, "solver_s": 0.0}


def smt2(o, negate=True, hyps=None):
    s = z3.Solver()
    for h in (hyps if hyps is not None else o.hyps):
        s.add(h)
    if negate:
        s.add(z3.Not(o.goal))
    else:
        pass
    return s.to_smt2()


_syms = {}


def syms(e):
    """names of the uninterpreted constants and functions of a formula"""
    r = _syms.get(e.get_id())
    if r is not None and r[0].eq(e):
        return r[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    _syms[e.get_id()] = (e, out)
    return out


def slim(o, depth=3, tol=2.0):
    """the hypotheses related to the goal (fewer hypotheses: a proof from them is a proof)"""
    hs = [(h, syms(h)) for h in o.hyps]
    occ = {}
    for _, ss in hs:
        for x in ss:
            occ[x] = occ.get(x, 0) + 1
    trig = {}
    for i, (h, ss) in enumerate(hs):
        if not ss:
            continue
        m = min(occ[x] for x in ss)
        for x in ss:
            if occ[x] <= tol * m:
                trig.setdefault(x, []).append(i)
    keep, front = set(), set(syms(o.goal))
    seen = set(front)
    for _ in range(depth):
        nxt = set()
        for x in front:
            for i in trig.get(x, ()):
                if i not in keep:
                    keep.add(i)
                    nxt |= hs[i][1]
        front = nxt - seen
        seen |= nxt
        if not front:
            break
    return [h for i, (h, ss) in enumerate(hs) if i in keep or not ss]


def _run(cmd, text, timeout):
    if SEM is not None:
        with SEM:
            return _run1(cmd, text, timeout)
    return _run1(cmd, text, timeout)


def _run1(cmd, text, timeout):
    t0 = time.time()
    if DEADLINE[0] is not None and t0 > DEADLINE[0]:
        return "unknown", 0.0, "deadline"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", dir=tmpdir(), delete=False) as fh:
        fh.write(text)
        fn = fh.name
    try:
        p = subprocess.run(cmd + [fn], capture_output=True, timeout=timeout + 5, text=True)
        out = p.stdout.strip().splitlines()
        r = "unknown"
        for l in out:
            if l in ("sat", "unsat", "unknown", "timeout"):
                r = l
                break
        return r, time.time() - t0, p.stdout
    except subprocess.TimeoutExpired:
        return "unknown", time.time() - t0, "timeout"
    finally:
        os.unlink(fn)


_tmp = [None]


def tmpdir():
    if _tmp[0] is None or not os.path.isdir(_tmp[0]):
        _tmp[0] = tempfile.mkdtemp(prefix="dv_smt_")
        import atexit
        atexit.register(lambda d=_tmp[0]: shutil.rmtree(d, ignore_errors=True))
    return _tmp[0]


def backends(timeout):
    t = max(1, int(timeout))
    return [
        ("z3-5.3.2", ["z3-new", "-T:%d" % max(1, t // 2), "smt.random_seed=1"], t // 2 + 1, ""),
        ("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (t * 1000), "--lang=smt2", "--arrays-exp"], t, "(set-logic ALL)\n"),
        ("z3-5.3.2/ematching", ["z3-new", "-T:%d" % t, "smt.mbqi=false", "smt.auto_config=false"], t, ""),
        ("z3-4.8.12", ["z3", "-T:%d" % t], t, ""),
    ]


def inv_backends(t):
    """for candidate loop invariants (most of the undecided ones are simply not inductive)"""
    return [
        ("z3-5.3.2", ["z3-new", "-T:%d" % t, "smt.random_seed=1"], t, ""),
        ("cvc5-1.1.2", ["cvc5", "--tlimit=%d" % (t * 1000), "--lang=smt2", "--arrays-exp"], t, "(set-logic ALL)\n"),
        ("z3-5.3.2/ematching", ["z3-new", "-T:%d" % t, "smt.mbqi=false", "smt.auto_config=false"], t, ""),
    ]


def decide(text, timeout, first_only=False, cand=False):
    """-> (status, backend, seconds, detail)"""
    key = hashlib.sha1(text.encode()).hexdigest()
    hit = _cache.get(key)
    if hit and (hit[0] == "proved" or hit[4] >= timeout):
        return hit[:4]
    total = 0.0
    last = ""
    refuted = None
    for nm, cmd, t, pre in (inv_backends(timeout) if cand else backends(timeout)):
        r, dt, out = _run(cmd, pre + text, t)
        total += dt
        STATS["queries"] += 1
        STATS["solver_s"] += dt
        if r == "unsat":
            res = ("proved", nm, total, "")
            _cache[key] = res + (timeout,)
            return res
        if r == "sat":
            refuted = nm
            break
        last += "%s: %s; " % (nm, r)
        if first_only:
            break
    res = ("refuted" if refuted else "unknown", refuted or "none", total, last)
    _cache[key] = res + (timeout,)
    return res


DUMP = os.environ.get("DV_DUMP")


def prove_many(obls, timeout=20, first_only=False, cand=False):
    todo = [o for o in obls if o.status is None]
    texts = {}
    for o in todo:
        texts[id(o)] = smt2(o)      # z3 python objects are not thread safe: print sequentially

    def work(o):
        return o, decide(texts[id(o)], timeout, first_only, cand)
    with ThreadPoolExecutor(NPROC) as ex:
        for o, (st, be, dt, det) in ex.map(work, todo):
            o.status, o.backend, o.time, o.detail = st, be, dt, det
            if DUMP and st != "proved":
                fn = os.path.join(DUMP, "".join(c if c.isalnum() else "_" for c in o.kind + "_" + o.name)[:90] + ".smt2")
                open(fn, "w").write(texts[id(o)])
    return obls


def check_sat_many(formsets, timeout=10):
    """satisfiability of hypothesis sets (vacuity checks): list of (name, [formulas]) -> {name: sat|unsat|unknown}"""
    texts = []
    for nm, fs in formsets:
        s = z3.Solver()
        for f in fs:
            s.add(f)
        texts.append((nm, s.to_smt2()))

    def work(x):
        nm, t = x
        r, dt, out = _run(["z3-new", "-T:%d" % timeout], t, timeout)
        STATS["solver_s"] += dt
        STATS["queries"] += 1
        if r not in ("sat", "unsat"):
            r2, dt, out = _run(["cvc5", "--tlimit=%d" % (timeout * 1000), "--lang=smt2", "--finite-model-find", "--arrays-exp"], "(set-logic ALL)\n" + t, timeout)
            STATS["solver_s"] += dt
            STATS["queries"] += 1
            if r2 in ("sat", "unsat"):
                r = r2
        return nm, r
    with ThreadPoolExecutor(NPROC) as ex:
        return dict(ex.map(work, texts))
