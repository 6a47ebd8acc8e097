"""Verifies the contracts of one unit against the code in /repo's working tree."""
import sys, os, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import z3
import front, solve
from front import Program, FrontError, params, body
from sym import *
from ctypes_ import Types, TypeErr
from engine import Engine, Unsupported, CallCtx, Frame, Obl, PathEnd
import engine as _eng

INSTANCE_PATS = None


class Contract:
    """Specification of one function.  Clauses are functions of a context C:
       C.this / C.old   object after / before       C.arg(i)  argument values before
       C.post_arg(i)    (reference) arguments after  C.ret     returned value"""
    fn = None
    short = None
    props = ()
    nparams = None
    ptypes = None
    inv = True          # class invariant assumed on entry and ensured on exit
    trusted = False     # contract of a function whose body is not available / not verified
    allow_throw = False
    opts = {}
    held = ()           # locks the caller must hold
    havocs = ()         # ghost state (roots g:<name>) the function changes

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        if self.short is None:
            self.short = self.fn.split("::")[-2] + "::" + self.fn.split("::")[-1] if "::" in self.fn else self.fn

    def requires(self, C):
        return []

    def ghost(self, C):
        """definitions of ghost values fixed by this call (prophecies): assumed by the function and by its callers"""
        return []

    def ensures(self, C):
        return []

    def modifies(self, C):
        return []

    def modifies_args(self, C):
        return []

    def effect(self, C):
        pass

    def loopcands(self, L):
        return []


class Unit:
    name = "?"
    sources = []
    overrides = {}
    keyproj = {}
    eqproj = {}
    ptr_alias = {}       # unsugared pointee type prefix -> name (a typedef the front end expands in places)
    opts = {}
    externs = {}
    contracts = []
    invariants = {}      # record qualified name -> function(Val, E) -> [(name, formula)]
    axioms = []
    trusted_notes = []
    extra_args = ()

    def load(self):
        self.prog = Program(self.sources, extra=self.extra_args)
        self.types = Types(self.prog, self.overrides, self.keyproj, self.eqproj)
        self.types.ptr_alias = self.ptr_alias
        self.setup()

    def setup(self):
        pass

    def loopcands(self, L):
        return []


class FnResult:
    def __init__(self, K):
        self.K = K
        self.obls = []
        self.error = None
        self.vacuity = None
        self.paths = 0
        self.returns = 0
        self.inlined = set()
        self.assumed = set()
        self.used = set()
        self.loops = []
        self.wall = 0.0


def norm(cl):
    out = []
    for c in cl:
        if c is None:
            continue
        if isinstance(c[1], bool):
            c = (c[0], z3.BoolVal(c[1])) + tuple(c[2:])
        out.append(c)
    return out


def find_fn(unit, K):
    c = unit.prog.funcs.get(K.fn, [])
    if K.nparams is not None:
        c = [f for f in c if len(params(f)) == K.nparams]
    if K.ptypes is not None:
        c = [f for f in c if K.ptypes in f.qt]
    c = [f for f in c if not f.get("isImplicit") and not f.get("explicitlyDefaulted")]
    # prefer instantiations over dependent patterns
    if not c:
        raise FrontError("no definition of %s" % K.fn)
    return c[0]


def verify_function(unit, K, timeout=20, only=None, inv_timeout=4):
    R = FnResult(K)
    t0 = time.time()
    try:
        fn = find_fn(unit, K)
        opts = dict(unit.opts)
        opts.update(K.opts)
        opts["allow_throw"] = K.allow_throw
        opts["inv_timeout"] = max(inv_timeout, opts.get("inv_timeout", 0))
        contracts = {k.fn: wrap_inv(unit, k) for k in unit.contracts if (k.nparams is None or True)}
        contracts.update({(k.fn, k.nparams): wrap_inv(unit, k) for k in unit.contracts if k.nparams is not None})
        if not opts.get("recursive"):
            contracts.pop((K.fn, K.nparams), None)
            if K.nparams is None or not any(k.fn == K.fn and k is not K for k in unit.contracts):
                contracts.pop(K.fn, None)
        for x in opts.get("inline", ()):
            contracts.pop(x, None)
        E = Engine(unit.prog, unit.types, contracts, unit.externs, opts)
        E.unit = unit
        E.K = K
        E.axioms = list(unit.axioms(E) if callable(unit.axioms) else unit.axioms)
        E.loopcands = lambda L: norm(list(K.loopcands(L)) + list(unit.loopcands(L)))
        E.this_root = "this"
        isctor = fn.kind == "CXXConstructorDecl"
        scope = fn.d.get("_scope", "")
        tu = fn.d.get("_tu", 0)
        ismethod = fn.kind in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl") and fn.get("storageClass") != "static"
        # a method declared static in its class
        if ismethod and fn.get("previousDecl"):
            pn = unit.prog.byid.get((tu, fn.get("previousDecl")))
            if pn is not None and pn.get("storageClass") == "static":
                ismethod = False
        recT = unit.types.parse(scope) if ismethod else None
        inv = unit.invariants.get(recT.q) if ismethod and K.inv else None
        st = {}

        def mkctx(post):
            C = CallCtx()
            C.E = E
            C.e = None
            C.unit = unit
            C.old = E.pre_vars.get("this")
            C.this = E.vars.get("this") if post else C.old
            C.arg = lambda i: E.pre_args[i]
            C.vals = E.pre_args
            if post:
                C.post_arg = E.cur_arg
                r = E.result
                if isinstance(r, Loc):
                    r = E.read(r)
                if isinstance(r, (Bundle, NullOpt, NullPtr, InitL, StrLit)) and st.get("rt") is not None:
                    r = E.coerce(r, st["rt"])
                C.ret = r
                C.events = E.events
            return C

        def setup():
            E.this_root = "this"
            fr = Frame(("top",), E.frame_ids, Loc("this") if ismethod else None, None, fn, scope, tu)
            E.callstack = []
            st["fr"] = fr
            E.pre_vars = {}
            E.held = {h: 1 for h in K.held}
            if ismethod and not isctor:
                E.vars["this"] = E.fresh_val(recT, "this")
                E.pre_vars["this"] = E.vars["this"]
            E.pre_args = []
            E.pre_arg_roots = []
            for i, p in enumerate(params(fn)):
                t = p.qt.rstrip()
                T = unit.types.parse(t, scope)
                if isinstance(T, TOpaque) and T.sortname.startswith("X_"):
                    T = unit.types.parse(p.dqt, scope)
                v = E.fresh_val(T, p.name or "arg%d" % i)
                E.pre_args.append(v)
                root = "f%d:%s" % (fr.id, p.id)
                E.root_name[root] = p.name
                if t.endswith("&"):
                    E.vars["a%d" % i] = v
                    E.vars[root] = Ref(Loc("a%d" % i))
                else:
                    E.vars[root] = v
                E.pre_arg_roots.append((root, t))
            rt = E.ret_type(fn)
            st["rt"] = None
            if rt is not None:
                T = unit.types.parse(rt, scope)
                st["rt"] = None if isinstance(T, TUnit) else T
            C = mkctx(False)
            h = getattr(unit, "on_ghosts", None)
            if h:
                h(E, C)
            n0 = len(E.pc)
            if inv is not None and not isctor:
                for nm, fm in norm(inv(C.old, E)):
                    E.assume(fm)
            for x in norm(K.requires(C)) + norm(K.ghost(C)):
                E.assume(x[1])
            R.pre = list(E.pc)
            for g_ in getattr(K, "held", ()):
                E.held[g_] = 1
            h = getattr(unit, "on_setup", None)
            if h:
                h(E, C)

        def run():
            fr = st["fr"]
            if isctor:
                vals = []
                for (root, t), v in zip(E.pre_arg_roots, E.pre_args):
                    vals.append(E.vars[root])
                # parameters are rebound inside run_ctor under its own frame
                r = E.run_ctor(recT, fn, vals, None)
                E.vars["this"] = r
                return
            r = E.run_body(fn, fr)
            from engine import Ret
            raise Ret(r)

        def finish():
            C = mkctx(True)
            E.cur = fn
            R.returns += 1
            if E.held and set(E.held) != set(K.held):
                E.oblige("locks released on return", "lock", z3.BoolVal(False), fn)
            for x in norm(K.ensures(C)):
                E.oblige(x[0], "post", x[1], fn, tag=x[2] if len(x) > 2 else None)
            if inv is not None:
                for nm, fm in norm(inv(C.this, E)):
                    E.oblige("invariant " + nm, "inv", fm, fn)
            if ismethod and not isctor:
                mod = K.modifies(C)
                if "*" not in mod:
                    for n, ft in recT.fields:
                        if n in mod:
                            continue
                        a, b = field(C.this, n), field(C.old, n)
                        if all(x.eq(y) for x, y in zip(a.t, b.t)):
                            continue
                        E.oblige("frame: %s unchanged" % n, "frame", same(a, b), fn)
            ma = K.modifies_args(C)
            for i, (root, t) in enumerate(E.pre_arg_roots):
                if t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and i not in ma:
                    a, b = E.cur_arg(i), E.pre_args[i]
                    if all(x.eq(y) for x, y in zip(a.t, b.t)):
                        continue
                    E.oblige("frame: argument %d unchanged" % i, "frame", same(a, b), fn)

        obls = E.explore(setup, run, finish)
        R.obls = [o for o in obls if only is None or only(o)]
        R.paths, R.nreturns = E.npaths, E.nreturns
        R.inlined, R.assumed, R.used = E.inlined, E.assumed, E.used_contracts
        R.loops = [(r.desc, len(r.writes), sorted(r.dropped)) for r in E.loops.values()]
        R.E = E
        R.fnnode = fn
        solve.prove_many(R.obls, timeout)
        for o in R.obls:
            o.fn = K.short
    except (Unsupported, FrontError, TypeErr, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, z3.Z3Exception, RecursionError) as x:
        R.error = "%s: %s" % (type(x).__name__, x)
        R.tb = traceback.format_exc()
    R.wall = time.time() - t0
    return R


def wrap_inv(unit, K):
    """the contract a caller sees: the class invariant belongs to both sides"""
    q = K.fn.rsplit("::", 1)[0]
    inv = unit.invariants.get(q)
    if inv is None or not K.inv:
        return K
    W = type("W", (), {})()
    W.fn, W.short, W.nparams = K.fn, K.short, K.nparams
    W.ghost = K.ghost
    W.havocs = K.havocs
    W.modifies, W.modifies_args, W.effect = K.modifies, K.modifies_args, K.effect
    W.requires = lambda C: norm([(n, f) for n, f in inv(C.this, C.E)] + list(K.requires(C)))
    W.ensures = lambda C: [(x[0], x[1]) for x in norm([(n, f) for n, f in inv(C.this, C.E)] + list(K.ensures(C)))]
    return W


def vacuity(R, timeout=10):
    """the precondition is satisfiable and some path reaches a return"""
    return solve.check_sat_many([("pre", R.pre)], timeout)["pre"]


def load_unit(name):
    m = importlib.import_module("units." + name)
    return m.unit


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("unit")
    ap.add_argument("fn", nargs="*")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-t", type=int, default=20)
    ap.add_argument("--dump", default="")
    a = ap.parse_args()
    u = load_unit(a.unit)
    t0 = time.time()
    u.load()
    print("loaded %s in %.1fs" % (a.unit, time.time() - t0))
    tot = ok = 0
    for K in u.contracts:
        if K.trusted or (a.fn and not any(x in K.short or (x.endswith("$") and K.short.endswith(x[:-1])) for x in a.fn)):
            continue
        R = verify_function(u, K, a.t)
        if R.error:
            print("%-40s ERROR %s" % (K.short, R.error))
            if a.v:
                print(R.tb)
            continue
        bad = [o for o in R.obls if o.status != "proved"]
        tot += len(R.obls)
        ok += len(R.obls) - len(bad)
        print("%-40s %d/%d obligations, %d paths, %d returns, %.1fs %s" % (K.short, len(R.obls) - len(bad), len(R.obls), R.paths, R.nreturns, R.wall, "pre:" + vacuity(R) if a.v else ""))
        for l in R.loops:
            if a.v or bad:
                print("    loop %s writes %d dropped %s" % l)
        for o in bad:
            print("    %s [%s] %s @%s (%.1fs %s)" % (o.status, o.kind, o.name, o.loc, o.time, o.detail))
            if a.dump and a.dump in o.name:
                open("/tmp/dump.smt2", "w").write(solve.smt2(o))
        if a.v:
            for o in sorted(R.obls, key=lambda o: -o.time)[:3]:
                print("    slow: %.1fs %s %s %s" % (o.time, o.backend, o.kind, o.name))
    print("total %d/%d  %.1fs  queries %d solver %.1fs" % (ok, tot, time.time() - t0, solve.STATS["queries"], solve.STATS["solver_s"]))
