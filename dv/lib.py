"""Trusted axioms for the C++ standard library: containers, optionals, variants, algorithms.

Each operation below is an assumed contract on a library function.
"""
import re
import z3
from sym import *
from ctypes_ import TypeErr, strip_cv, sanitize, split_args
import front
import text


def U():
    from engine import Unsupported
    return Unsupported


U64 = TInt(64, False)


def iv(n):
    return Val(U64, [n if not isinstance(n, int) else z3.IntVal(n)])


def bv(b):
    return Val(TBool(), [b if not isinstance(b, bool) else z3.BoolVal(b)])


def argv(E, a, f, T=None):
    """value of an argument expression (the moved-from source is havocked)"""
    if not isinstance(a, front.N):
        v = a
    else:
        r = E.X(a, f)
        if isinstance(r, Loc):
            E.read_guard(r)
            v = E.load(r)
            if E.is_moved(a):
                v = E.move_out(r, v, a, f)
        else:
            v = r
    if isinstance(v, Ref):
        v = E.read(v.loc)
    if T is not None:
        v = E.coerce(v, T)
    return v


# ------------------------------------------------------------------ pure evaluation
def pure_paths(E, fn):
    """evaluate fn on every path without side effects; -> [(facts, value)]"""
    base = (dict(E.vars), list(E.pc), set(E.pcset), dict(E.held), len(E.events), set(E.memo), dict(E.enums))
    tr, ps, nt, nf = E.trace, E.pos, E.newtraces, E.nofork
    decs0 = E.decs
    seq0 = E.seq
    dirty0 = E.dirty
    E.nofork = 0
    out = []
    pending = [()]
    fresh0 = E.fresh_n
    from engine import PathEnd, Ctl, Unsupported
    try:
        n = 0
        while pending:
            n += 1
            if n > 200:
                raise Unsupported("predicate has too many paths")
            # obligations raised inside are keyed by the outer trace plus the inner one
            inner = list(pending.pop())
            E.trace = list(tr[:ps]) + [("pure", seq0)] + inner
            E.pos = ps + 1
            E.newtraces = []
            E.vars, E.pc, E.pcset = dict(base[0]), list(base[1]), set(base[2])
            E.held, E.memo, E.enums = dict(base[3]), set(base[5]), dict(base[6])
            E.qs = None
            E.decs = []
            try:
                v = fn()
                for k, x in E.vars.items():
                    if k in base[0] and base[0][k] is not x and not k.startswith(("t", "it:", "g:")):
                        o = base[0][k]
                        if isinstance(o, Val) and isinstance(x, Val) and all(p.eq(q) for p, q in zip(o.t, x.t)):
                            continue
                        if k.startswith("f") and isinstance(o, (Ref, Lam)):
                            continue
                        raise Unsupported("predicate with side effects")
                if len(E.events) != base[4]:
                    raise Unsupported("predicate with side effects")
                out.append((list(E.decs), E.pc[len(base[1]):], v))
            except PathEnd:
                pass
            for t in E.newtraces:
                pending.append(tuple(t[ps + 1:]))
    finally:
        E.vars, E.pc, E.pcset = base[0], base[1], base[2]
        E.held, E.memo, E.enums = base[3], base[5], base[6]
        del E.events[base[4]:]
        E.trace, E.pos, E.newtraces, E.nofork = tr, ps, nt, nf
        E.decs = decs0
        E.qs = None
    return out


def inner_consts(ts, n0):
    """constants created after fresh number n0"""
    out, seen, todo = {}, set(), list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            i = nm.rfind("~")
            if i >= 0 and nm[i + 1:].isdigit() and int(nm[i + 1:]) > n0:
                out[nm] = x
        todo.extend(x.children())
    return list(out.values())


def skolem(E, ps, k, n0, terms_of):
    """constants created while evaluating element k become functions of k;
    what was learnt about them holds for every k"""
    if k is None:
        for decs, facts, _ in ps:
            g = z3.And(*decs) if decs else None
            for x in facts:
                E.assume(x if g is None else z3.Implies(g, x))
        return lambda t: t
    ts = [x for d, fa, v in ps for x in list(d) + list(fa) + terms_of(v)]
    k, rng = k
    sub = []
    for c in inner_consts(ts, n0):
        if c.eq(k):
            continue
        E.fresh_n += 1
        fn = z3.Function("%s!of%d" % (c.decl().name().split("~")[0], E.fresh_n), I, c.sort())
        sub.append((c, fn(k)))
    S = (lambda t: z3.substitute(t, *sub)) if sub else (lambda t: t)
    kk = bvar(I)
    for decs, facts, _ in ps:
        dids = {d.get_id() for d in decs}
        guard = [S(x) for x in decs]
        rest = []
        for x in facts:
            if x.get_id() in dids:
                continue
            rest.append(S(x))
        if rest:
            fm = z3.Implies(z3.And(*([rng] + guard)), z3.And(*rest))
            E.assume(z3.ForAll([kk], z3.substitute(fm, (k, kk))))
    return S


def pure_bool(E, fn, k=None):
    n0 = E.fresh_n
    ps = pure_paths(E, lambda: E.truth(fn()))
    if not ps:
        return z3.BoolVal(True)
    S = skolem(E, ps, k, n0, lambda v: [v])
    terms = [S(z3.And(*(d + [v])) if d else v) for d, _, v in ps]
    return z3.Or(*terms) if len(terms) > 1 else terms[0]


def pure_val(E, fn, T=None, k=None):
    n0 = E.fresh_n
    ps = pure_paths(E, fn)
    if not ps:
        raise U()("no feasible path in pure expression")
    ps = [(d, fa, E.coerce(v, T) if T is not None else v) for d, fa, v in ps]
    S = skolem(E, ps, k, n0, lambda v: list(v.t))
    vals = [(S(z3.And(*d)) if d else z3.BoolVal(True), Val(v.T, [S(x) for x in v.t])) for d, _, v in ps]
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        r = ite(c, v, r)
    return r


def elem_at(E, it, i):
    """lvalue of element number i (absolute position) of the iterated container"""
    return E.iter_loc(it.with_pos(i))


def as_pos(E, it):
    if it.kind == "pos":
        return it
    # end() of an associative container
    cv = E.read(it.cloc, check=False)
    en = E.mk_enum(cv)
    if z3.is_true(it.end):
        return Iter(it.cloc, it.T, "pos", pos=en.n, enum=en)
    return Iter(it.cloc, it.T, "pos", pos=z3.If(it.end, en.n, z3.Select(en.idx, it.key)), enum=en)


def quant_pred(E, it, lo, hi, fv, e, f):
    """-> function i -> formula 'pred(element i)', for lo<=i<hi"""
    k = E.fresh(I, "k")

    def go():
        E.assume(z3.And(lo <= k, k < hi))
        el = elem_at(E, it, k)
        # container elements are live while enumerated
        r = E.call_value(fv, [el], e, f)
        return r
    n0 = E.fresh_n
    t = pure_bool(E, go, (k, z3.And(lo <= k, k < hi)))
    strip = z3.And(lo <= k, k < hi)
    return lambda i: z3.substitute(t, (k, i)), k, t


def pred_ok(E, t, k):
    """every constant created while evaluating must be a function of nothing else than k"""
    return True


# ------------------------------------------------------------------ free functions
def free_call(E, nm, args, e, f, r):
    Uns = U()
    A = lambda i: E.ev(args[i], f)
    if nm in ("move", "forward", "as_const", "ref", "cref", "addressof", "launder", "move_if_noexcept"):
        if nm == "move" and len(args) == 3:
            return copy_range(E, args, e, f)
        x = E.X(args[0], f)
        if nm == "addressof":
            return Ptr(E.canon(x))
        return x
    if nm in ("min", "max") and len(args) == 2:
        x, y = A(0), A(1)
        c = x.t[0] <= y.t[0] if nm == "min" else x.t[0] >= y.t[0]
        m = z3.simplify(z3.If(c, x.t[0], E.coerce(y, x.T).t[0]))
        return Val(x.T, [E.named(m) if z3.is_app_of(m, z3.Z3_OP_ITE) else m])
    if nm == "swap":
        l1, l2 = E.lv(args[0], f), E.lv(args[1], f)
        v1, v2 = E.read(l1), E.read(l2)
        E.write(l1, v2)
        E.write(l2, v1)
        from engine import VOID
        return VOID
    if nm == "exchange":
        l1 = E.lv(args[0], f)
        v1 = E.read(l1)
        nv = argv(E, args[1], f)
        E.write(l1, E.coerce(nv, v1.T))
        return v1
    if nm in ("make_pair", "make_tuple", "forward_as_tuple", "tie"):
        if nm in ("tie", "forward_as_tuple"):
            return Bundle([Ref(E.lv(a, f)) if isinstance(E.X(a, f), Loc) else E.ev(a, f) for a in args],
                          ["_%d" % i for i in range(len(args))])
        vs = [argv(E, a, f) for a in args]
        return Bundle(vs, ["first", "second"] if nm == "make_pair" else ["_%d" % i for i in range(len(args))])
    if nm in ("make_optional",):
        T = E.ty(e, f)
        if len(args) == 1:
            return E.coerce(argv(E, args[0], f), T)
        return E.some(T, E.construct_vals(T.t, [argv(E, a, f) for a in args], e, f))
    if nm in ("make_shared", "make_unique"):
        T = E.ty(e, f)
        hook = E.externs.get("make", {}).get(T.sortname)
        if hook:
            return hook(E, T, args, e, f)
        for a in args:
            E.ev(a, f)
        v = E.fresh_val(T, "new")
        E.assume(v.t[0] != E.nullconst(T))
        return v
    if nm in ("dynamic_pointer_cast", "static_pointer_cast"):
        v = A(0)
        return E.coerce(v, E.ty(e, f))
    if nm == "holds_alternative":
        v = E.ev(args[0], f)
        i = alt_index(E, v.T, targ(e), f)
        return bv(v.idx == i)
    if nm in ("get", "get_if"):
        return std_get(E, nm, args, e, f)
    if nm == "visit":
        return std_visit(E, args, e, f)
    if nm in ("begin", "end", "cbegin", "cend", "size", "empty", "data", "rbegin", "rend"):
        loc = E.X(args[0], f)
        if not isinstance(loc, Loc):
            loc = E.temp(loc, e, f)
        E.read_guard(loc)
        return member_call(E, E.canon(loc), E.read(loc), nm, [], e, f)
    if nm in ("next", "prev"):
        it = A(0)
        d = E.ev(args[1], f).t[0] if len(args) > 1 and args[1].kind != "CXXDefaultArgExpr" else z3.IntVal(1)
        it = as_pos(E, it)
        return it.with_pos(simp2(it.pos + d if nm == "next" else it.pos - d))
    if nm == "distance":
        a, b = as_pos(E, A(0)), as_pos(E, A(1))
        return Val(TInt(64, True), [b.pos - a.pos])
    if nm == "advance":
        loc = E.lv(args[0], f)
        it = as_pos(E, E.read(loc))
        E.write(loc, it.with_pos(it.pos + E.ev(args[1], f).t[0]))
        from engine import VOID as _v
        return _v
    if nm in ("back_inserter", "inserter", "front_inserter"):
        return BackIns(E.lv(args[0], f))
    if nm == "make_move_iterator":
        return A(0)
    if nm in ("all_of", "any_of", "none_of", "find_if", "find_if_not", "count_if", "find", "count"):
        a, b = as_pos(E, A(0)), as_pos(E, A(1))
        fv = E.ev(args[2], f)
        if nm in ("find", "count"):
            x = fv
            def pred(i):
                return E.equal(E.read(elem_at(E, a, i), check=False), x)
        else:
            pred, _, _ = quant_pred(E, a, a.pos, b.pos, fv, e, f)
        rng = lambda i: z3.And(a.pos <= i, i < b.pos)
        if nm in ("all_of", "none_of", "any_of"):
            if nm == "any_of":
                w = E.fresh(I, "w")
                res = E.fresh(B, "any")
                E.assume(z3.Implies(res, z3.And(rng(w), pred(w))))
                E.assume(z3.Implies(z3.Not(res), Forall([I], lambda i: z3.Implies(rng(i), z3.Not(pred(i))))))
                return bv(res)
            res = E.fresh(B, "all")
            neg = (lambda t: z3.Not(t)) if nm == "none_of" else (lambda t: t)
            w = E.fresh(I, "w")
            E.assume(z3.Implies(res, Forall([I], lambda i: z3.Implies(rng(i), neg(pred(i))))))
            E.assume(z3.Implies(z3.Not(res), z3.And(rng(w), z3.Not(neg(pred(w))))))
            return bv(res)
        if nm in ("find_if", "find", "find_if_not"):
            neg = (lambda t: z3.Not(t)) if nm == "find_if_not" else (lambda t: t)
            p = E.fresh(I, "found")
            E.assume(z3.And(a.pos <= p, p <= b.pos))
            E.assume(z3.Implies(p < b.pos, neg(pred(p))))
            E.assume(Forall([I], lambda i: z3.Implies(z3.And(a.pos <= i, i < p), z3.Not(neg(pred(i))))))
            return a.with_pos(p)
        c = E.fresh(I, "count")
        E.assume(z3.And(c >= 0, c <= b.pos - a.pos))
        w = E.fresh(I, "w")
        E.assume(z3.Implies(c > 0, z3.And(rng(w), pred(w))))
        E.assume(z3.Implies(c == 0, Forall([I], lambda i: z3.Implies(rng(i), z3.Not(pred(i))))))
        E.assume(z3.Implies(c == b.pos - a.pos, Forall([I], lambda i: z3.Implies(rng(i), pred(i)))))
        return Val(TInt(64, True), [c])
    if nm == "equal" and len(args) == 3:
        a, b, c = as_pos(E, A(0)), as_pos(E, A(1)), as_pos(E, A(2))
        res = E.fresh(B, "eq")
        va, vc = E.read(a.cloc, check=False), E.read(c.cloc, check=False)
        if not isinstance(va.T, TVec) or not isinstance(vc.T, TVec):
            raise Uns("std::equal on this container")
        E.oblige("second range long enough for std::equal", "safety", c.pos + (b.pos - a.pos) <= vc.len, e)
        g = lambda i: z3.Implies(z3.And(0 <= i, i < b.pos - a.pos), veq(va.at(a.pos + i), vc.at(c.pos + i)))
        E.assume(res == Forall([I], g))
        return bv(res)
    if nm in ("for_each",):
        it0, it1 = as_pos(E, A(0)), as_pos(E, A(1))
        fv = E.ev(args[2], f)
        root = "alg%d:%s" % (f.id, e.id)
        E.vars[root] = Val(TInt(64, True), [it0.pos])
        E.root_name[root] = "<pos>"
        E.alg_loop(e, f, root, it0, it1, lambda el: E.call_value(fv, [el], e, f))
        return fv
    if nm in ("copy", "copy_if", "transform", "copy_n"):
        return copy_range(E, args, e, f, nm)
    if nm == "accumulate":
        return accumulate(E, args, e, f)
    if nm in ("sort", "stable_sort", "shuffle", "reverse"):
        it = A(0)
        v = E.read(it.cloc)
        nv = E.fresh_val(v.T, nm)
        E.assume(nv.len == v.len)
        pm = z3.Function("perm_%d" % E.fresh_n, I, I)
        E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < v.len), z3.And(0 <= pm(i), pm(i) < v.len, same(nv.at(i), v.at(pm(i)))))))
        E.write(it.cloc, nv)
        return VOID
    if nm == "fill":
        it = A(0)
        v = E.read(it.cloc)
        el = E.coerce(E.ev(args[2], f), v.T.t)
        E.write(it.cloc, Val(v.T, [v.t[0]] + [z3.K(I, x) for x in el.t]))
        return VOID
    if nm in ("memcpy", "memset", "memcmp", "memmove", "strlen"):
        h = E.externs.get("fn", {}).get("std::" + nm)
        if h:
            return h(E, None, args, e, f)
        return mem_op(E, nm, args, e, f)
    if nm in ("to_string", "stoull", "stoul", "stoi", "stod", "to_underlying", "hton", "htonl", "isxdigit", "abs"):
        v = A(0)
        if isinstance(v, StrLit):
            v = E.coerce(v, TOpaque("Str"))
        T = E.ty(e, f)
        rv = Val(T, [E.uf("std_" + nm, list(v.t), T.leaves()[0])])
        E.wf(rv)
        return rv
    if nm in ("now", "this_thread", "yield", "sleep_for"):
        for a in args:
            E.ev(a, f)
        T = E.ty(e, f)
        return VOID if isinstance(T, TUnit) else E.fresh_val(T, nm)
    if nm in ("duration_cast", "time_point_cast"):
        v = A(0)
        T = E.ty(e, f)
        return E.fresh_val(T, nm)
    if nm in ("max", "min", "lowest", "digits") and not args:
        T = E.ty(e, f)
        if isinstance(T, TInt):
            return Val(T, [z3.IntVal(T.hi if nm == "max" else T.lo)])
    if nm in ("exit", "abort", "terminate", "quick_exit"):
        from engine import PathEnd
        raise PathEnd()
    if nm == "__assert_fail":
        E.oblige("assertion", "assert", z3.BoolVal(False), e)
        from engine import PathEnd
        raise PathEnd()
    if nm in ("__builtin_expect",):
        return A(0)
    h = E.externs.get("free", {}).get(nm)
    if h:
        return h(E, None, args, e, f)
    if nm == "async":
        return std_async(E, args, e, f)
    raise Uns("library function %s at %s" % (nm, e.loc()))


def std_async(E, args, e, f):
    """std::async(std::launch::async, fn, args...): the call is made once; its future is modelled as the value delivered"""
    Uns = U()
    pol = [x for x in args[0].walk() if x.kind == "DeclRefExpr"] + ([args[0]] if args[0].kind == "DeclRefExpr" else [])
    if [x.get("referencedDecl", {}).get("name") for x in pol] not in (["async"], ["async", "async"]):
        raise Uns("std::async without launch::async at %s" % e.loc())
    E.assumed.add("std::async(launch::async, f) runs f exactly once; concurrent calls made this way do not affect each other")
    c = args[1]
    while c.kind in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator", "MaterializeTemporaryExpr"):
        c = c.inner[0]
    r = c.get("referencedDecl", {})
    if r.get("kind") != "CXXMethodDecl":
        return E.call_value(E.ev(args[1], f), args[2:], e, f)
    p = E.ev(args[2], f)
    ms = E.externs.get("method", {})
    if isinstance(p, Val) and isinstance(p.T, TOpaque) and (p.T.sortname, r["name"]) in ms:
        return ms[(p.T.sortname, r["name"])](E, p, args[3:], e, f)
    raise Uns("std::async of %s at %s" % (r.get("name"), e.loc()))


def simp2(t):
    return z3.simplify(t) if not isinstance(t, int) else t


def source_text(e, n=400):
    b = e.d["range"]["begin"]
    off = b.get("offset")
    if off is None:
        b = b.get("spellingLoc", b.get("expansionLoc", {}))
        off = b.get("offset")
    fl = e.file
    return open(fl, "rb").read()[off:off + n].decode("utf8", "replace")


def targ(e):
    """first explicit template argument of a call, from the source text"""
    t = source_text(e)
    i = t.find("<")
    depth = 0
    for j in range(i, len(t)):
        if t[j] == "<":
            depth += 1
        elif t[j] == ">":
            depth -= 1
            if depth == 0:
                return split_args(t[i + 1:j])[0]
    raise U()("template argument")


def alt_index(E, T, s, f):
    try:
        t = E.types.parse(s, f.scope)
    except TypeErr:
        raise U()("alternative " + s)
    for i, x in enumerate(T.ts):
        if x == t:
            return i
    # resolve through the class scopes of the alternatives
    for i, x in enumerate(T.ts):
        if x.name.split("::")[-1] == s.split("::")[-1]:
            return i
    raise U()("alternative %s of %s" % (s, T))


def std_get(E, nm, args, e, f):
    Uns = U()
    if nm == "get_if":
        p = E.ev(args[0], f)
        if not isinstance(p, Ptr):
            raise Uns("get_if")
        v = E.read(p.loc)
        T = E.types.parse(strip_cv(strip_cv(e.dqt).rstrip("*").strip()), f.scope)
        for i, x in enumerate(v.T.ts):
            if x == T:
                return Ptr(p.loc + ("a", i), z3.Not(v.idx == i))
        raise Uns("get_if alternative")
    x = E.X(args[0], f)
    v = E.read(x) if isinstance(x, Loc) else x
    if isinstance(v, Val) and isinstance(v.T, TVar):
        try:
            T = E.ty(e, f)
            idx = [i for i, t in enumerate(v.T.ts) if t == T]
            i = idx[0] if idx else alt_index(E, v.T, targ(e), f)
        except (Uns, IndexError):
            i = alt_index(E, v.T, targ(e), f)
        E.oblige("std::get of the active alternative", "safety", v.idx == i, e)
        return x + ("a", i) if isinstance(x, Loc) else v.alt(i)
    s = targ(e)
    try:
        k = int(s)
    except ValueError:
        raise Uns("std::get<%s>" % s)
    if isinstance(v, Bundle):
        it = v.items[k]
        return it.loc if isinstance(it, Ref) else it
    if isinstance(v.T, TRec):
        n = v.T.fields[k][0]
        return x + ("f", n) if isinstance(x, Loc) else field(v, n)
    raise Uns("std::get")


def std_visit(E, args, e, f):
    Uns = U()
    vis = E.ev(args[0], f)
    x = E.X(args[1], f)
    if not isinstance(x, Loc):
        x = E.temp(x, args[1], f)
    x = E.canon(x)
    v = E.read(x)
    for i, t in enumerate(v.T.ts):
        last = i == len(v.T.ts) - 1
        if last or E.choose(v.idx == i):
            if last:
                E.assume(v.idx == i)
            return call_visitor(E, vis, x + ("a", i), t, e, f)
    raise Uns("visit")


def call_visitor(E, vis, loc, t, e, f):
    Uns = U()
    if isinstance(vis, Overload):
        for lam in vis.lams:
            rec = lam.node.inner[0]
            for c in rec.inner:
                if c.kind == "CXXMethodDecl" and c.name == "operator()":
                    ps = front.params(c)
                    try:
                        if ps and E.types.parse(ps[0].qt, lam.frame.scope) == t:
                            return E.call_lambda(lam, [loc], e, f)
                    except TypeErr:
                        pass
        for lam in vis.lams:
            rec = lam.node.inner[0]
            if any(c.kind == "FunctionTemplateDecl" for c in rec.inner):
                return E.call_lambda(lam, [loc], e, f)
        raise Uns("no visitor for " + t.name)
    if isinstance(vis, Lam):
        rec = vis.node.inner[0]
        for c in rec.inner:
            if c.kind == "FunctionTemplateDecl":
                for m in c.inner:
                    if m.kind == "CXXMethodDecl" and front.body(m) is not None and front.params(m):
                        try:
                            if E.types.parse(front.params(m)[0].qt, vis.frame.scope) == t:
                                return E.call_lambda(vis, [loc], e, f, inst=m)
                        except TypeErr:
                            pass
        return E.call_lambda(vis, [loc], e, f)
    raise Uns("visitor")


def set_union_range(E, sv, a, b):
    """sv ∪ elements of [a,b)"""
    T = sv.T
    a, b = as_pos(E, a), as_pos(E, b)
    src = E.read(a.cloc, check=False) if a.enum.cval is None else a.enum.cval
    ks = keysort(T.k)
    nd = E.fresh(z3.ArraySort(ks, B), "union")
    whole = z3.is_int_value(simp2(a.pos)) and simp2(a.pos).as_long() == 0 and b.pos.eq(b.enum.n)
    if isinstance(T, TSet) and isinstance(src.T, TSet) and whole and not T.extra():
        E.assume(Forall([ks], lambda k: z3.Select(nd, k) == z3.Or(sv.has(k), src.has(k)), lambda k: [z3.Select(nd, k)]))
        E.assume(card(nd) >= card(sv.dom))
        return Val(T, (nd,))
    if isinstance(T, TSet) and isinstance(src.T, TVec):
        w = z3.Function("from_%d" % E.fresh_n, ks, I)
        kt = lambda i: keyterm(T.k, E.coerce(src.at(i), T.k))
        rng = lambda i: z3.And(a.pos <= i, i < b.pos)
        E.assume(Forall([ks], lambda k: z3.Implies(z3.Select(nd, k), z3.Or(sv.has(k), z3.And(rng(w(k)), kt(w(k)) == k))), lambda k: [z3.Select(nd, k)]))
        E.assume(Forall([ks], lambda k: z3.Implies(sv.has(k), z3.Select(nd, k)), lambda k: [z3.Select(nd, k), sv.has(k)]))
        E.assume(Forall([I], lambda i: z3.Implies(rng(i), z3.Select(nd, kt(i)))))
        ex = []
        for j, s in enumerate(T.extra()):
            na = E.fresh(z3.ArraySort(ks, s), "ukey")
            E.assume(Forall([ks], lambda k: z3.Implies(z3.And(z3.Select(nd, k)), z3.Or(z3.And(sv.has(k), z3.Select(na, k) == z3.Select(sv.t[1 + j], k)),
                     z3.And(rng(w(k)), kt(w(k)) == k, z3.Select(na, k) == src.at(w(k)).t[j])))))
            ex.append(na)
        return Val(T, [nd] + ex)
    if isinstance(T, TMap) and isinstance(src.T, TMap) and whole and not T.extra() and src.T.v == T.v:
        E.assume(Forall([ks], lambda k: z3.Select(nd, k) == z3.Or(sv.has(k), src.has(k)), lambda k: [z3.Select(nd, k)]))
        out = [nd]
        for x, y in zip(sv.t[1:], src.t[1:]):
            na = E.fresh(x.sort(), "uval")
            E.assume(Forall([ks], lambda k: z3.Select(na, k) == z3.If(sv.has(k), z3.Select(x, k), z3.Select(y, k)), lambda k: [z3.Select(na, k)]))
            out.append(na)
        return Val(T, out)
    raise U()("range insertion %s <- %s" % (T, src.T))


def vec_from_range(E, T, a, b):
    return vec_append_range(E, default(T), a, b)


def vec_append_range(E, v, a, b, fn=None):
    """v ++ [fn(x) for x in [a,b)]"""
    a, b = as_pos(E, a), as_pos(E, b)
    src = a.enum.cval if not isinstance(a.T, TVec) else E.read(a.cloc, check=False)
    T = v.T
    nl = simp2(v.len + (b.pos - a.pos))
    arrs = [E.fresh(z3.ArraySort(I, s), "cat") for s in T.t.leaves()]
    r = Val(T, [nl] + arrs)
    zero = z3.is_int_value(simp2(v.len)) and simp2(v.len).as_long() == 0
    if not zero:
        E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < v.len), same(r.at(i), v.at(i))), lambda i: [z3.Select(arrs[0], i)]))

    def el(i):
        if isinstance(src.T, TVec):
            p = i if not a.rev else a.enum.n - 1 - i
            x = src.at(p)
        else:
            k = z3.Select(a.enum.ord, i)
            if isinstance(src.T, TSet):
                x = src.keyobj(k)
            else:
                x = E.coerce(Bundle([src.keyobj(k), src.at(k)]), T.t)
        return fn(x) if fn else E.coerce(x, T.t)
    E.assume(Forall([I], lambda i: z3.Implies(z3.And(v.len <= i, i < nl), same(r.at(i), el(i - v.len + a.pos))), lambda i: [z3.Select(arrs[0], i)]))
    # the same facts, triggered by the source element (where did it go?)
    if not zero and len(v.t) > 1:
        E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < v.len), z3.Select(arrs[0], i) == z3.Select(v.t[1], i)), lambda i: [z3.Select(v.t[1], i)]))
    if len(src.t) > 1 and isinstance(src.T, TVec) and not a.rev and len(arrs):
        E.assume(Forall([I], lambda i: z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.Select(arrs[0], simp2(i - a.pos + v.len)) == el(i).t[0]), lambda i: [z3.Select(src.t[1], i)]))
    elif a.enum is not None and a.enum.ord is not None and len(arrs):
        E.assume(Forall([I], lambda i: z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.Select(arrs[0], simp2(i - a.pos + v.len)) == el(i).t[0]), lambda i: [z3.Select(a.enum.ord, i)]))
    return r


def copy_range(E, args, e, f, nm="copy"):
    Uns = U()
    a = as_pos(E, E.ev(args[0], f))
    b = as_pos(E, E.ev(args[1], f))
    out = E.ev(args[2], f)
    fv = E.ev(args[3], f) if len(args) > 3 else None
    if nm in ("copy", "move") or (nm == "transform" and fv is not None):
        if isinstance(out, BackIns):
            dst = E.read(out.loc)
            if isinstance(dst.T, TVec):
                fn = None
                if nm == "transform":
                    k = E.fresh(I, "k")
                    def go():
                        E.assume(z3.And(a.pos <= k, k < b.pos))
                        x = elem_at(E, a, k)
                        r = E.call_value(fv, [x], e, f)
                        if isinstance(r, Loc):
                            r = E.read(r)
                        return E.coerce(r, dst.T.t)
                    t = pure_val(E, go, dst.T.t, (k, z3.And(a.pos <= k, k < b.pos)))
                    r = vec_append_range(E, dst, a, b)if False else None
                    nl = simp2(dst.len + (b.pos - a.pos))
                    arrs = [E.fresh(z3.ArraySort(I, s), "map") for s in dst.T.t.leaves()]
                    rv = Val(dst.T, [nl] + arrs)
                    E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < dst.len), same(rv.at(i), dst.at(i)))))
                    E.assume(Forall([I], lambda i: z3.Implies(z3.And(dst.len <= i, i < nl), same(rv.at(i), Val(dst.T.t, [z3.substitute(x, (k, i - dst.len + a.pos)) for x in t.t])))))
                    E.write(out.loc, rv)
                else:
                    E.write(out.loc, vec_append_range(E, dst, a, b))
                return out
            if isinstance(dst.T, (TSet, TMap)) and nm == "copy":
                E.write(out.loc, set_union_range(E, dst, a, b))
                return out
        if isinstance(out, Iter) and isinstance(out.T, TVec):
            dst = E.read(out.cloc)
            src = E.read(a.cloc)
            cnt = b.pos - a.pos
            E.oblige("copy stays within the destination", "safety", z3.And(out.pos >= 0, out.pos + cnt <= dst.len), e)
            arrs = [E.fresh(z3.ArraySort(I, s), "cpy") for s in dst.T.t.leaves()]
            rv = Val(dst.T, [dst.len] + arrs)
            E.assume(Forall([I], lambda i: same(rv.at(i), ite(z3.And(out.pos <= i, i < out.pos + cnt), E.coerce(src.at(i - out.pos + a.pos), dst.T.t), dst.at(i))), lambda i: [z3.Select(arrs[0], i)]))
            E.write(out.cloc, rv)
            return out.with_pos(out.pos + cnt)
    if nm == "copy_if" and isinstance(out, BackIns):
        dst = E.read(out.loc)
        pred, k, t = quant_pred(E, a, a.pos, b.pos, fv, e, f)
        if isinstance(dst.T, TSet):
            src = a.enum.cval if not isinstance(a.T, TVec) else E.read(a.cloc)
            ks = keysort(dst.T.k)
            nd = E.fresh(z3.ArraySort(ks, B), "cif")
            w = z3.Function("cif_%d" % E.fresh_n, ks, I)
            if isinstance(src.T, TSet):
                kt = lambda i: z3.Select(a.enum.ord, i)
            else:
                kt = lambda i: keyterm(dst.T.k, src.at(i))
            rng = lambda i: z3.And(a.pos <= i, i < b.pos)
            E.assume(Forall([ks], lambda q: z3.Implies(z3.Select(nd, q), z3.Or(dst.has(q), z3.And(rng(w(q)), kt(w(q)) == q, pred(w(q)))))))
            E.assume(Forall([ks], lambda q: z3.Implies(dst.has(q), z3.Select(nd, q))))
            E.assume(Forall([I], lambda i: z3.Implies(z3.And(rng(i), pred(i)), z3.Select(nd, kt(i)))))
            E.write(out.loc, Val(dst.T, [nd]))
            return out
        if isinstance(dst.T, TVec):
            src = a.enum.cval if not isinstance(a.T, TVec) else E.read(a.cloc)
            def sel(i):
                if isinstance(src.T, TVec):
                    return E.coerce(src.at(i), dst.T.t)
                if isinstance(src.T, TSet):
                    return src.keyobj(z3.Select(a.enum.ord, i))
                kk = z3.Select(a.enum.ord, i)
                return E.coerce(Bundle([src.keyobj(kk), src.at(kk)]), dst.T.t)
            nv = E.fresh_val(dst.T, "cif")
            m = z3.Function("cifm_%d" % E.fresh_n, I, I)      # dst index -> src index (increasing)
            w = z3.Function("cifw_%d" % E.fresh_n, I, I)      # src index -> dst index
            E.assume(z3.And(nv.len >= dst.len, nv.len <= dst.len + (b.pos - a.pos)))
            E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < dst.len), same(nv.at(i), dst.at(i)))))
            E.assume(Forall([I], lambda i: z3.Implies(z3.And(dst.len <= i, i < nv.len), z3.And(a.pos <= m(i), m(i) < b.pos, pred(m(i)), w(m(i)) == i, same(nv.at(i), sel(m(i))))), lambda i: [m(i)]))
            E.assume(Forall([I], lambda i: z3.Implies(z3.And(dst.len <= i, i < nv.len), m(i) >= a.pos), lambda i: [z3.Select(nv.t[1], i)]))
            E.assume(Forall([I], lambda i: z3.Implies(z3.And(a.pos <= i, i < b.pos, pred(i)), z3.And(dst.len <= w(i), w(i) < nv.len, m(w(i)) == i)),
                            lambda i: [w(i), z3.Select(a.enum.ord, i) if a.enum.ord is not None else z3.Select(src.t[1], i)]))
            E.write(out.loc, nv)
            return out
    raise Uns("algorithm %s at %s" % (nm, e.loc()))


def accumulate(E, args, e, f):
    Uns = U()
    a = as_pos(E, E.ev(args[0], f))
    b = as_pos(E, E.ev(args[1], f))
    init = E.ev(args[2], f)
    T = E.ty(e, f)
    init = E.coerce(init, T)
    if len(args) > 3:
        fv = E.ev(args[3], f)
        step = lambda acc, el: E.call_value(fv, [acc, el], e, f)
    elif isinstance(T, TInt):
        def step(acc, el):
            x = E.coerce(E.read(el), T)
            return Val(T, [E.arith_wrap(acc.t[0] + x.t[0], T)])
    else:
        raise Uns("accumulate")
    root = "alg%d:%s" % (f.id, e.id)
    acc = "acc%d:%s" % (f.id, e.id)
    E.vars[root] = Val(TInt(64, True), [a.pos])
    E.vars[acc] = init
    E.root_name[root] = "<pos>"
    E.root_name[acc] = "<acc>"

    def bodyfn(el):
        r = step(E.vars[acc], el)
        if isinstance(r, Loc):
            r = E.read(r)
        E.set_root(acc, E.coerce(r, T))
    E.alg_loop(e, f, root, a, b, bodyfn)
    return E.vars[acc]


def mem_op(E, nm, args, e, f):
    Uns = U()
    if nm in ("memcpy", "memmove"):
        od = opaque_dest(E, args[0], f)
        if od is not None:
            s = E.ev(args[1], f)
            n = E.ev(args[2], f).t[0]
            sn = od[1].T.sortname
            if not (isinstance(s, Iter) and isinstance(s.T, TVec)):
                raise Uns("memcpy into %s from %s" % (sn, s))
            src = E.read(s.cloc)
            E.oblige("memcpy fills the whole object", "safety", n == (32 if sn == "Hash" else 64), e)
            E.oblige("memcpy source in bounds", "safety", z3.And(s.pos >= 0, s.pos + n <= src.len), e)
            E.write(od[0], Val(od[1].T, [E.uf("bytes_to_" + sn, [src.t[1], s.pos], usort(sn))]))
            return VOID
        d = E.ev(args[0], f)
        s = E.ev(args[1], f)
        n = E.ev(args[2], f).t[0]
        if isinstance(d, Iter) and isinstance(d.T, TVec):
            dst = E.read(d.cloc)
            E.oblige("memcpy destination in bounds", "safety", z3.And(d.pos >= 0, d.pos + n <= dst.len), e)
            arrs = [E.fresh(z3.ArraySort(I, x), "mem") for x in dst.T.t.leaves()]
            rv = Val(dst.T, [dst.len] + arrs)
            if isinstance(s, Iter) and isinstance(s.T, TVec):
                src = E.read(s.cloc)
                E.oblige("memcpy source in bounds", "safety", z3.And(s.pos >= 0, s.pos + n <= src.len), e)
                get = lambda i: E.coerce(src.at(i - d.pos + s.pos), dst.T.t)
            else:
                bo = bytes_of(E, s, e, f)
                get = lambda i: Val(dst.T.t, [bo(i - d.pos)])
            E.assume(Forall([I], lambda i: same(rv.at(i), ite(z3.And(d.pos <= i, i < d.pos + n), get(i), dst.at(i))), lambda i: [z3.Select(arrs[0], i)]))
            E.write(d.cloc, rv)
            return d
    raise Uns("%s at %s" % (nm, e.loc()))


def opaque_dest(E, a, f):
    """x.data() of a fixed-size byte array modelled as one value: its location"""
    while a.kind in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXStaticCastExpr"):
        a = a.inner[0]
    if a.kind == "CXXMemberCallExpr" and len(a.inner) == 1:
        m = a.inner[0]
        if m.kind == "MemberExpr" and m.d.get("name") in ("data", "begin") and not m.get("isArrow"):
            try:
                T = E.ty(m.inner[0], f)
            except TypeErr:
                return None
            if isinstance(T, TOpaque) and T.sortname in ("Hash", "Sig"):
                l = E.lv(m.inner[0], f)
                v = E.read(l)
                return l, v
    return None


def bytes_of(E, p, e, f):
    h = E.externs.get("bytes_of")
    if h:
        return h(E, p, e, f)
    raise U()("raw bytes of %s" % p)


# ------------------------------------------------------------------ members
def at_most_one_arg(args):
    return [a for a in args if not (a.kind == "CXXDefaultArgExpr" and not a.inner)]


def member_call(E, obj, cur, nm, args, e, f):
    Uns = U()
    args = at_most_one_arg(args) if args and isinstance(args[0], front.N) else args
    if isinstance(cur, Iter):
        raise Uns("method on iterator")
    if isinstance(cur, NodeH):
        return node_method(E, obj, cur, nm, args, e, f)
    if isinstance(cur, Bundle):
        if nm == "swap":
            raise Uns("bundle swap")
        raise Uns("method %s on bundle" % nm)
    if not isinstance(cur, Val):
        raise Uns("method %s on %s" % (nm, type(cur).__name__))
    T = cur.T
    if isinstance(T, TVec) and T.kind == "string":
        r = text.string_method(E, obj, cur, nm, args, e, f)
        if r is not None:
            return r
    if T is text.STREAM:
        return text.stream_method(E, obj, cur, nm, args, e, f)
    if isinstance(T, TVec):
        return vec_method(E, obj, cur, nm, args, e, f)
    if isinstance(T, TSet):
        return set_method(E, obj, cur, nm, args, e, f)
    if isinstance(T, TMap):
        return map_method(E, obj, cur, nm, args, e, f)
    if isinstance(T, TOpt):
        return opt_method(E, obj, cur, nm, args, e, f)
    if isinstance(T, TVar):
        return var_method(E, obj, cur, nm, args, e, f)
    if isinstance(T, (TInt, TBool, TEnum)):
        if nm in ("load",) or nm.startswith("operator"):
            return cur
        if nm == "store":
            E.write(obj, E.coerce(E.ev(args[0], f), T))
            return VOID
        if nm == "exchange":
            E.write(obj, E.coerce(E.ev(args[0], f), T))
            return cur
        if nm in ("fetch_add", "fetch_sub"):
            d = E.ev(args[0], f).t[0]
            E.write(obj, Val(T, [E.arith_wrap(cur.t[0] + d if nm == "fetch_add" else cur.t[0] - d, T)]))
            return cur
        if nm == "count" or nm == "time_since_epoch":
            return Val(TInt(64, True), [cur.t[0]])
    if isinstance(T, TUnit):
        return VOID
    if isinstance(T, TRec) and nm == "swap":
        l2 = E.lv(args[0], f)
        v2 = E.read(l2)
        E.write(obj, v2)
        E.write(l2, cur)
        return VOID
    raise Uns("method %s on %s at %s" % (nm, T, e.loc()))


def pq_push(E, v, x):
    """a priority queue is kept as the sequence of its elements by descending priority; the new one goes to any place that keeps it so"""
    T = v.T
    if not isinstance(T.t, TInt):
        raise U()("priority queue of %s" % T.t)
    before = (lambda a, b: a >= b) if T.kind == "pq<" else (lambda a, b: a <= b)
    p, r, a = E.fresh(I, "place"), E.fresh(z3.ArraySort(I, I), "pq"), v.t[1]
    E.vars["g:pq_place"] = iv(p)
    E.assume(z3.And(0 <= p, p <= v.len))
    E.assume(Forall([I], lambda i: z3.Select(r, i) == z3.If(i < p, z3.Select(a, i), z3.If(i == p, x.z, z3.Select(a, i - 1))), lambda i: [z3.Select(r, i)]))
    E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < p), before(z3.Select(a, i), x.z)), lambda i: [z3.Select(a, i)]))
    E.assume(Forall([I], lambda i: z3.Implies(z3.And(p <= i, i < v.len), before(x.z, z3.Select(a, i))), lambda i: [z3.Select(a, i)]))
    return Val(T, [simp2(v.len + 1), r])


def list_remove(E, v, x):
    """std::list::remove: what is left are the elements different from x, in order; spelt out for the case of exactly one equal element"""
    n, T = v.len, v.T
    eq = lambda i: veq(v.at(i), x)
    r = E.fresh_val(T, "removed")
    j = E.fresh(I, "at")
    E.fresh_n += 1
    src = z3.Function("src!%d" % E.fresh_n, I, I)
    inr = lambda i: z3.And(0 <= i, i < n)
    E.assume(z3.And(0 <= r.len, r.len <= n))
    E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < r.len), z3.And(inr(src(i)), z3.Not(eq(src(i))), veq(r.at(i), v.at(src(i)))))))
    E.assume(Forall([I, I], lambda i, k: z3.Implies(z3.And(0 <= i, i < k, k < r.len), src(i) < src(k)), pats=lambda i, k: [z3.MultiPattern(src(i), src(k))]))
    some = z3.And(inr(j), eq(j))
    E.assume(z3.Or(some, z3.And(j == n, Forall([I], lambda i: z3.Implies(inr(i), z3.Not(eq(i)))))))
    # exactly one: the elements behind it move up
    dup = E.fresh(I, "again")
    one = [r.len == n - 1]
    for a, b in zip(v.t[1:], r.t[1:]):
        one.append(b == E.uf("without_" + sanitize(str(a.sort().range())), [a, j], a.sort()))
    E.assume(z3.Implies(some, z3.Or(z3.And(inr(dup), dup != j, eq(dup)), z3.And(*one))))
    for a in v.t[1:]:
        w = E.uf("without_" + sanitize(str(a.sort().range())), [a, j], a.sort())
        E.assume(Forall([I], lambda i, a=a, w=w: z3.Select(w, i) == z3.If(i < j, z3.Select(a, i), z3.Select(a, i + 1)), lambda i, w=w: [z3.Select(w, i)]))
        E.assume(Forall([I], lambda i, a=a, w=w: z3.If(i < j, z3.Select(w, i) == z3.Select(a, i), z3.Implies(i > j, z3.Select(w, i - 1) == z3.Select(a, i))), lambda i, a=a: [z3.Select(a, i)]))
    E.assume(z3.Implies(j == n, veq(r, v)))
    return r


def vec_method(E, obj, v, nm, args, e, f):
    Uns = U()
    T = v.T
    if nm in ("size", "length"):
        E.len_fact(v)
        return iv(v.len)
    if nm == "empty":
        E.len_fact(v)
        return bv(v.len == 0)
    if nm == "max_size":
        return iv(1 << 62)
    if nm in ("begin", "cbegin", "data", "c_str"):
        return Iter(obj, T, "pos", pos=z3.IntVal(0), enum=E.mk_enum(v))
    if nm in ("end", "cend"):
        en = E.mk_enum(v)
        return Iter(obj, T, "pos", pos=en.n, enum=en)
    if nm in ("rbegin", "crbegin", "rend", "crend"):
        en = E.mk_enum(v)
        return Iter(obj, T, "pos", pos=z3.IntVal(0) if "begin" in nm else en.n, enum=en, rev=True)
    if nm in ("push_back", "push", "emplace_back", "emplace"):
        if nm in ("emplace_back", "emplace"):
            vals = [argv(E, a, f) for a in args]
            x = E.construct_vals(T.t, vals, e, f) if not (len(vals) == 1 and isinstance(vals[0], (Lam,))) else E.coerce(vals[0], T.t)
            if not isinstance(x, Val) or x.T != T.t:
                x = E.coerce(x, T.t)
        else:
            x = argv(E, args[0], f, T.t)
        v = E.read(obj)
        if T.kind.startswith("pq"):
            E.write(obj, pq_push(E, v, x))
            return VOID
        E.write(obj, vec_push(v, x))
        if nm == "emplace_back":
            return obj + ("i", v.len)
        return VOID
    if nm in ("back", "front", "top"):
        E.oblige("%s() of a non-empty container" % nm, "safety", v.len > 0, e)
        return obj + ("i", simp2(v.len - 1) if nm in ("back",) else z3.IntVal(0))
    if nm == "pop_back":
        E.oblige("pop_back() of a non-empty container", "safety", v.len > 0, e)
        E.write(obj, Val(T, (simp2(v.len - 1),) + v.t[1:]))
        return VOID
    if nm == "remove":
        x = argv(E, args[0], f, T.t)
        E.write(obj, list_remove(E, v, x))
        return iv(v.len - E.read(obj).len)
    if nm in ("pop_front", "pop"):
        E.oblige("%s() of a non-empty container" % nm, "safety", v.len > 0, e)
        arrs = [E.uf("without_" + sanitize(str(a.sort().range())), [a, z3.IntVal(0)], a.sort()) for a in v.t[1:]]
        for a, b in zip(arrs, v.t[1:]):
            E.assume(Forall([I], lambda i, a=a, b=b: z3.Select(a, i) == z3.Select(b, i + 1), lambda i, a=a: [z3.Select(a, i)]))
            E.assume(Forall([I], lambda i, a=a, b=b: z3.Select(a, i - 1) == z3.Select(b, i), lambda i, b=b: [z3.Select(b, i)]))
        E.write(obj, Val(T, [simp2(v.len - 1)] + arrs))
        return VOID
    if nm in ("at", "operator[]"):
        i = E.ev(args[0], f)
        v = E.read(obj)
        E.check_index(v, i.t[0])
        return obj + ("i", i.t[0])
    if nm == "clear":
        E.write(obj, Val(T, (z3.IntVal(0),) + v.t[1:]))
        return VOID
    if nm in ("reserve", "shrink_to_fit"):
        for a in args:
            E.ev(a, f)
        return VOID
    if nm == "capacity":
        return E.fresh_val(U64, "cap")
    if nm == "resize":
        n = E.ev(args[0], f).t[0]
        fill = E.coerce(E.ev(args[1], f), T.t) if len(args) > 1 else default(T.t)
        arrs = []
        for a, x in zip(v.t[1:], fill.t):
            na = E.fresh(a.sort(), "rsz")
            E.assume(Forall([I], lambda i, na=na, a=a, x=x: z3.Select(na, i) == z3.If(i < v.len, z3.Select(a, i), x), lambda i, na=na: [z3.Select(na, i)]))
            arrs.append(na)
        E.write(obj, Val(T, [n] + arrs))
        return VOID
    if nm == "insert":
        it = E.ev(args[0], f)
        rest = [E.ev(a, f) for a in args[1:]]
        v = E.read(obj)
        if isinstance(it, Iter) and it.kind == "pos" and not it.rev:
            atend = E.valid(it.pos == v.len)
            if len(rest) == 2 and isinstance(rest[0], Iter) and atend:
                E.write(obj, vec_append_range(E, v, rest[0], rest[1]))
                return it
            if len(rest) == 1 and not isinstance(rest[0], InitL):
                x = E.coerce(rest[0], T.t)
                if atend:
                    E.write(obj, vec_push(v, x))
                else:
                    E.oblige("insert position in range", "safety", z3.And(0 <= it.pos, it.pos <= v.len), e)
                    arrs = []
                    for a, y in zip(v.t[1:], x.t):
                        na = E.fresh(a.sort(), "ins")
                        E.assume(Forall([I], lambda i, na=na, a=a, y=y: z3.Select(na, i) == z3.If(i < it.pos, z3.Select(a, i), z3.If(i == it.pos, y, z3.Select(a, i - 1))), lambda i, na=na: [z3.Select(na, i)]))
                        arrs.append(na)
                    E.write(obj, Val(T, [simp2(v.len + 1)] + arrs))
                return it
        raise Uns("vector insert at " + e.loc())
    if nm == "erase":
        it = E.ev(args[0], f)
        v = E.read(obj)
        if len(args) == 1:
            hi = it.pos + 1
        else:
            it2 = E.ev(args[1], f)
            hi = it2.pos
        E.oblige("erase position in range", "safety", z3.And(0 <= it.pos, it.pos < v.len if len(args) == 1 else it.pos <= hi, hi <= v.len), e)
        w = hi - it.pos
        arrs = []
        for a in v.t[1:]:
            na = E.fresh(a.sort(), "ers")
            E.assume(Forall([I], lambda i, na=na, a=a: z3.Select(na, i) == z3.If(i < it.pos, z3.Select(a, i), z3.Select(a, i + w)), lambda i, na=na: [z3.Select(na, i)]))
            arrs.append(na)
        nv = Val(T, [simp2(v.len - w)] + arrs)
        E.write(obj, nv)
        return Iter(obj, T, "pos", pos=it.pos, enum=E.mk_enum(nv))
    if nm == "swap":
        l2 = E.lv(args[0], f)
        v2 = E.read(l2)
        E.write(obj, v2)
        E.write(l2, v)
        return VOID
    if nm == "assign":
        vs = [E.ev(a, f) for a in args]
        if isinstance(vs[0], Iter):
            E.write(obj, vec_from_range(E, T, vs[0], vs[1]))
        else:
            el = E.coerce(vs[1], T.t)
            E.write(obj, Val(T, [vs[0].t[0]] + [z3.K(I, x) for x in el.t]))
        return VOID
    if nm == "fill":
        el = E.coerce(E.ev(args[0], f), T.t)
        E.write(obj, Val(T, [v.t[0]] + [z3.K(I, x) for x in el.t]))
        return VOID
    raise Uns("vector method %s at %s" % (nm, e.loc()))


def key_arg(E, T, a, f):
    v = argv(E, a, f) if isinstance(a, front.N) else a
    k = E.coerce(v, T.k)
    return keyterm(T.k, k), k


def put(E, obj, cur, k, kobj, val):
    nv = map_put(cur, k, val, kobj if cur.T.extra() else None)
    E.card_store(cur.t[0], nv.t[0], k, True)
    E.write(obj, nv)


def dele(E, obj, cur, k):
    nv = map_del(cur, k)
    E.card_store(cur.t[0], nv.t[0], k, False)
    E.write(obj, nv)


def put_if_absent(E, obj, k, kobj, val):
    """emplace/insert semantics; returns 'inserted' term"""
    cur = E.read(obj)
    had = z3.simplify(cur.has(k))
    if not z3.is_true(had) and E.valid(had):
        had = z3.BoolVal(True)
    elif not z3.is_false(had) and E.valid(z3.Not(had)):
        had = z3.BoolVal(False)
    if z3.is_false(had):
        put(E, obj, cur, k, kobj, val)
    elif not z3.is_true(had):
        if isinstance(cur.T, TMap):
            e = len(cur.T.extra())
            nd = z3.Store(cur.t[0], k, z3.BoolVal(True))
            t = [nd]
            for j in range(e):
                t.append(z3.Store(cur.t[1 + j], k, z3.If(had, z3.Select(cur.t[1 + j], k), kobj.t[j])))
            for a, x in zip(cur.t[1 + e:], val.t):
                t.append(z3.Store(a, k, z3.If(had, z3.Select(a, k), x)))
            nv = Val(cur.T, t)
        else:
            nd = z3.Store(cur.t[0], k, z3.BoolVal(True))
            t = [nd]
            for j, a in enumerate(cur.t[1:]):
                t.append(z3.Store(a, k, z3.If(had, z3.Select(a, k), kobj.t[j])))
            nv = Val(cur.T, t)
        E.card_store(cur.t[0], nd, k, True)
        E.write(obj, nv)
    return z3.simplify(z3.Not(had))


def lookup(E, obj, cur, k):
    return Iter(obj, cur.T, "key", key=k, end=z3.simplify(z3.Not(cur.has(k))))


def assoc_common(E, obj, cur, nm, args, e, f):
    Uns = U()
    T = cur.T
    if nm == "size":
        return iv(E.size_facts(cur))
    if nm == "empty":
        return bv(E.size_facts(cur) == 0)
    if nm in ("begin", "cbegin"):
        en = E.mk_enum(cur)
        E.size_facts(cur)
        first = E.first_key(cur)
        E.assume(z3.Implies(en.n > 0, z3.Select(en.ord, 0) == first))
        return Iter(obj, T, "pos", pos=z3.IntVal(0), enum=en)
    if nm in ("end", "cend"):
        return Iter(obj, T, "key", key=None, end=z3.BoolVal(True))
    if nm in ("count", "contains"):
        k, _ = key_arg(E, T, args[0], f)
        h = E.read(obj).has(k)
        return bv(h) if nm == "contains" else iv(z3.If(h, z3.IntVal(1), z3.IntVal(0)))
    if nm == "find":
        k, _ = key_arg(E, T, args[0], f)
        return lookup(E, obj, E.read(obj), k)
    if nm == "clear":
        nv = Val(T, [z3.K(keysort(T.k), z3.BoolVal(False))] + list(cur.t[1:]))
        E.assume(card(nv.t[0]) == 0)
        E.write(obj, nv)
        return VOID
    if nm == "erase":
        a = stored_iter(E, obj, T, E.ev(args[0], f), e)
        cur = E.read(obj)
        if isinstance(a, Iter):
            if len(args) == 2:
                raise Uns("range erase")
            if not z3.is_false(z3.simplify(E.iter_is_end(a))):
                E.oblige("erase of a valid iterator", "safety", z3.Not(E.iter_is_end(a)), e)
            k = E.iter_key(a)
            E.check_dom(cur, k)
            dele(E, obj, cur, k)
            return a if False else EraseRet(obj, T, k, a)
        k = keyterm(T.k, E.coerce(a, T.k))
        had = cur.has(k)
        dele(E, obj, cur, k)
        return iv(z3.If(had, z3.IntVal(1), z3.IntVal(0)))
    if nm in ("reserve", "rehash", "max_load_factor"):
        for a in args:
            E.ev(a, f)
        return VOID
    if nm == "extract":
        a = stored_iter(E, obj, T, E.ev(args[0], f), e)
        cur = E.read(obj)
        if isinstance(a, Iter):
            E.oblige("extract of a valid iterator", "safety", z3.Not(E.iter_is_end(a)), e)
            k = E.iter_key(a)
        else:
            k = keyterm(T.k, E.coerce(a, T.k))
        had = cur.has(k)
        n = NodeH(T, had, k, cur.keyobj(k) if not T.extra() or True else None, cur.at(k) if isinstance(T, TMap) else None)
        dele(E, obj, cur, k)
        return n
    if nm == "swap":
        l2 = E.lv(args[0], f)
        v2 = E.read(l2)
        E.write(obj, v2)
        E.write(l2, cur)
        return VOID
    if nm == "merge":
        l2 = E.lv(args[0], f)
        v2 = E.read(l2)
        en = E.mk_enum(v2)
        a = Iter(l2, v2.T, "pos", pos=z3.IntVal(0), enum=en)
        nv = set_union_range(E, cur, a, a.with_pos(en.n))
        E.write(obj, nv)
        rest = E.fresh_val(v2.T, "merged")
        E.assume(Forall([keysort(T.k)], lambda k: rest.has(k) == z3.And(v2.has(k), cur.has(k))))
        E.write(l2, rest)
        return VOID
    return None


def stored_iter(E, obj, T, a, e):
    """an iterator read back from a container: it must point to an element of this container"""
    if isinstance(a, Val) and isinstance(a.T, TIterK):
        from engine import iter_home
        sh, ix = iter_home(obj)
        E.oblige("stored iterator points into this container", "safety", z3.And(a.t[1] == sh, a.t[2] == ix, z3.Not(a.t[3])), e)
        return Iter(obj, T, "key", key=a.t[0], end=z3.BoolVal(False))
    return a


class EraseRet(Iter):
    """iterator returned by erase(it): usable only where the loop rule understands it"""

    def __init__(self, cloc, T, erased, src):
        Iter.__init__(self, cloc, T, "key", key=erased, end=z3.BoolVal(False))
        self.src = src


def set_method(E, obj, cur, nm, args, e, f):
    Uns = U()
    T = cur.T
    r = assoc_common(E, obj, cur, nm, args, e, f)
    if r is not None:
        return r
    if nm in ("insert", "emplace"):
        if nm == "insert" and len(args) == 2:
            a, b = E.ev(args[0], f), E.ev(args[1], f)
            if isinstance(b, Iter):
                E.write(obj, set_union_range(E, E.read(obj), a, b))
                return VOID
            args = args[1:]
        if nm == "emplace" and len(args) > 1:
            x = E.construct_vals(T.k, [argv(E, a, f) for a in args], e, f)
        else:
            x = argv(E, args[0], f)
        if isinstance(x, InitL):
            for y in x.items:
                yv = E.coerce(y, T.k)
                put_if_absent(E, obj, keyterm(T.k, yv), yv, None)
            return VOID
        if isinstance(x, NodeH):
            if E.choose(x.has):
                ins = put_if_absent(E, obj, x.key, x.keyobj, None)
                return Bundle([Iter(obj, T, "key", key=x.key, end=z3.BoolVal(False)), bv(ins)], ("position", "inserted"))
            return Bundle([Iter(obj, T, "key", key=None, end=z3.BoolVal(True)), bv(False)], ("position", "inserted"))
        x = E.coerce(x, T.k)
        k = keyterm(T.k, x)
        ins = put_if_absent(E, obj, k, x, None)
        return Bundle([Iter(obj, T, "key", key=k, end=z3.BoolVal(False)), bv(ins)])
    if nm in ("lower_bound", "upper_bound"):
        raise Uns("ordered lookup")
    if nm == "rbegin":
        raise Uns("reverse iteration")
    raise Uns("set method %s at %s" % (nm, e.loc()))


def map_method(E, obj, cur, nm, args, e, f):
    Uns = U()
    T = cur.T
    r = assoc_common(E, obj, cur, nm, args, e, f)
    if r is not None:
        return r
    if nm in ("operator[]",):
        k, ko = key_arg(E, T, args[0], f)
        cur = E.read(obj)
        if not E.valid(cur.has(k)):
            put_if_absent(E, obj, k, ko, E.default_rec(T.v) if isinstance(T.v, TRec) and T.v.node is not None else (E.construct_vals(T.v, []) if not isinstance(T.v, TVec) else default(T.v)))
        return obj + ("m", k)
    if nm == "at":
        k, ko = key_arg(E, T, args[0], f)
        E.oblige("map::at of a present key", "safety", E.read(obj).has(k), e)
        return obj + ("m", k)
    if nm in ("emplace", "try_emplace", "insert", "insert_or_assign", "emplace_hint"):
        if nm == "emplace_hint":
            args = args[1:]
        if nm == "insert" and len(args) == 2:
            a, b = E.ev(args[0], f), E.ev(args[1], f)
            if isinstance(b, Iter):
                E.write(obj, set_union_range(E, E.read(obj), a, b))
                return VOID
        if nm == "insert" or (nm == "emplace" and len(args) == 1):
            p = argv(E, args[0], f)
            if isinstance(p, NodeH):
                if E.choose(p.has):
                    ins = put_if_absent(E, obj, p.key, p.keyobj, p.val)
                    return Bundle([Iter(obj, T, "key", key=p.key, end=z3.BoolVal(False)), bv(ins)], ("position", "inserted"))
                return Bundle([Iter(obj, T, "key", key=None, end=z3.BoolVal(True)), bv(False)], ("position", "inserted"))
            ispair = lambda x: (isinstance(x, (Bundle, InitL)) and len(x.items) == 2) or (isinstance(x, Val) and isinstance(x.T, TRec) and x.T.q.startswith("pair<"))
            if isinstance(p, InitL) and p.items and all(ispair(x) for x in p.items) and (len(p.items) != 2 or "initializer_list" in args[0].qt):
                # insert({{k, v}, ...})
                for x in p.items:
                    kk, vv = (field(x, "first"), field(x, "second")) if isinstance(x, Val) else [E.read(y.loc) if isinstance(y, Ref) else y for y in x.items]
                    kk, vv = E.coerce(kk, T.k), E.coerce(vv, T.v)
                    put_if_absent(E, obj, keyterm(T.k, kk), kk, vv)
                return VOID
            if isinstance(p, (Bundle, InitL)):
                kk, vv = p.items
            elif isinstance(p, Val):
                kk, vv = field(p, "first"), field(p, "second")
            else:
                raise Uns("map insert")
            if isinstance(kk, Ref):
                kk = E.read(kk.loc)
            if isinstance(vv, Ref):
                vv = E.read(vv.loc)
            kk = E.coerce(kk, T.k)
            vv = E.coerce(vv, T.v)
        else:
            ks = argv(E, args[0], f)
            if isinstance(ks, Val) and ks.T.name == "rec tag":
                # piecewise_construct
                kb, vb = E.ev(args[1], f), E.ev(args[2], f)
                def unb(b):
                    its = b.items if isinstance(b, Bundle) else []
                    return [E.read(x.loc) if isinstance(x, Ref) else x for x in its]
                kk = E.construct_vals(T.k, unb(kb), e, f)
                vv = E.construct_vals(T.v, unb(vb), e, f)
            else:
                kk = E.coerce(ks, T.k)
                vals = [argv(E, a, f) for a in args[1:]]
                if len(vals) == 1 and not isinstance(T.v, TRec):
                    vv = E.coerce(vals[0], T.v) if not (isinstance(T.v, (TVec,)) and isinstance(vals[0], Val) and isinstance(vals[0].T, TInt)) else E.construct_vals(T.v, vals, e, f)
                else:
                    vv = E.construct_vals(T.v, vals, e, f)
                vv = E.coerce(vv, T.v)
        k = keyterm(T.k, kk)
        if nm == "insert_or_assign":
            c0 = E.read(obj)
            had = c0.has(k)
            put(E, obj, c0, k, kk, vv)
            return Bundle([Iter(obj, T, "key", key=k, end=z3.BoolVal(False)), bv(z3.Not(had))])
        ins = put_if_absent(E, obj, k, kk, vv)
        return Bundle([Iter(obj, T, "key", key=k, end=z3.BoolVal(False)), bv(ins)])
    raise Uns("map method %s at %s" % (nm, e.loc()))


def node_method(E, obj, n, nm, args, e, f):
    Uns = U()
    if nm == "empty":
        return bv(z3.Not(n.has))
    if nm == "operator bool":
        return bv(n.has)
    if nm in ("value", "mapped", "key"):
        E.oblige("use of a non-empty node handle", "safety", n.has, e)
        if nm == "mapped":
            if n.root is None:
                n.root = "nh:%s" % (abs(hash(str(obj))))
                E.vars[n.root] = n.val
            return Loc(n.root)
        return n.keyobj
    raise Uns("node handle method " + nm)


def opt_method(E, obj, v, nm, args, e, f):
    Uns = U()
    if nm in ("has_value", "operator bool"):
        return bv(v.t[0])
    if nm in ("value", "operator*", "operator->"):
        E.oblige("value() of an engaged optional", "safety", v.t[0], e)
        return obj + ("o",)
    if nm == "value_or":
        d = E.coerce(E.ev(args[0], f), v.T.t)
        return ite(v.t[0], v.val, d)
    if nm == "reset":
        E.write(obj, E.none(v.T))
        return VOID
    if nm == "emplace":
        vals = [argv(E, a, f) for a in args]
        x = E.construct_vals(v.T.t, vals, e, f)
        E.write(obj, E.some(v.T, x))
        return obj + ("o",)
    if nm == "swap":
        l2 = E.lv(args[0], f)
        v2 = E.read(l2)
        E.write(obj, v2)
        E.write(l2, v)
        return VOID
    raise Uns("optional method " + nm)


def var_method(E, obj, v, nm, args, e, f):
    Uns = U()
    if nm == "index":
        return iv(v.idx)
    if nm == "emplace":
        T = None
        s = source_text(e, 800)
        m = re.search(r"emplace\s*<", s)
        if not m:
            raise Uns("variant emplace")
        i = m.end() - 1
        depth = 0
        for j in range(i, len(s)):
            if s[j] == "<":
                depth += 1
            elif s[j] == ">":
                depth -= 1
                if depth == 0:
                    break
        a = alt_index(E, v.T, s[i + 1:j], f)
        x = E.construct_vals(v.T.ts[a], [argv(E, y, f) for y in args], e, f)
        E.write(obj, E.inject(v.T, x, a))
        return obj + ("a", a)
    raise Uns("variant method " + nm)


def opaque_method(E, p, loc, nm, args, e, f, q):
    """methods of objects whose class is not modelled: pure observers become uninterpreted functions"""
    s = p.T.sortname
    if s in ("Buf", "Str", "Hash", "Sig"):
        if nm in ("size", "length"):
            t = E.uf("len_" + s, [p.t[0]], I)
            E.assume(z3.And(t >= 0, t <= (1 << 62)))
            if s in ("Hash", "Sig"):
                E.assume(t == (32 if s == "Hash" else 64))
            return iv(t)
        if nm == "empty":
            return bv(E.uf("len_" + s, [p.t[0]], I) == 0)
        if nm in ("c_str", "to_string", "str"):
            return p if s == "Str" else Val(TOpaque("Str"), [E.uf("tostr_" + s, [p.t[0]], usort("Str"))])
        if nm == "clear" and loc is not None:
            nv = E.fresh_val(p.T, "cleared")
            E.assume(E.uf("len_" + s, [nv.t[0]], I) == 0)
            E.write(loc, nv)
            return VOID
        if nm in ("append", "extend", "push_back", "reserve", "resize") and loc is not None:
            for a in args:
                E.ev(a, f)
            E.write(loc, E.fresh_val(p.T, nm))
            return VOID
        if nm in ("begin", "end", "data", "c_ptr", "data_at") and s in ("Buf", "Hash", "Str", "Sig"):
            T = TOpaque("Ptr_" + s)
            vs = [E.ev(a, f).t[0] for a in args]
            return Val(T, [E.uf("%s_%s_%d" % (nm, s, len(vs)), [p.t[0]] + vs, usort("Ptr_" + s))])
    if s.startswith("X_std__mutex") or s.startswith("X_std__shared_mutex") or "mutex" in s:
        if nm in ("lock", "lock_shared"):
            E.acquire(E.lock_name(loc), e)
            return VOID
        if nm in ("unlock", "unlock_shared"):
            E.release(E.lock_name(loc))
            return VOID
    if "condition_variable" in s:
        if nm in ("notify_all", "notify_one"):
            E.events.append((nm, loc, []))
            return VOID
    return None


# ------------------------------------------------------------------ operators
def operator_call(E, nm, args, e, f):
    Uns = U()
    op = nm.replace("operator", "")
    if op in ("<<", ">>", "!", " bool") and "stream" in args[0].dqt + args[0].qt:
        r, x0 = text.stream_op(E, op, args, e, f)
        if r is not None:
            return r
    if op in ("==", "!="):
        x, y = E.ev(args[0], f), E.ev(args[1], f)
        c = E.equal(x, y)
        return bv(c if op == "==" else z3.Not(c))
    if op in ("*", "->") and len(args) == 1:
        x = E.X(args[0], f)
        v = E.read(x) if isinstance(x, Loc) else x
        if isinstance(v, Ref):
            x = v.loc
            v = E.read(x)
        if isinstance(v, Iter):
            if op == "->":
                loc = E.iter_loc(v)
                inner = E.vars.get(loc.root) if not loc.path else None
                return Ptr(loc) if not isinstance(inner, Bundle) else Ptr(loc)
            return E.iter_loc(v)
        if isinstance(v, Ptr):
            return E.deref(v, e, f) if op == "*" else v
        if isinstance(v, Val) and isinstance(v.T, TOpt):
            E.oblige("dereference of an engaged optional", "safety", v.t[0], e)
            if not isinstance(x, Loc):
                x = E.temp(x, args[0], f)
            return Ptr(E.canon(x) + ("o",)) if op == "->" else x + ("o",)
        if isinstance(v, Val) and isinstance(v.T, TOpaque):
            if v.T.sortname.startswith("P_"):
                if op == "*":
                    return E.deref(v, e, f)
                return v
        raise Uns("operator%s on %s" % (op, v))
    if op == "[]":
        x = E.X(args[0], f)
        if not isinstance(x, Loc):
            if isinstance(x, Iter):
                return E.iter_loc(x.with_pos(simp2(x.pos + E.ev(args[1], f).t[0])))
            x = E.temp(x, e, f)
        x = E.canon(x)
        E.read_guard(x)
        cur = E.read(x)
        if isinstance(cur, Iter):
            return E.iter_loc(cur.with_pos(simp2(cur.pos + E.ev(args[1], f).t[0])))
        if isinstance(cur, Val) and isinstance(cur.T, TOpaque):
            i = E.ev(args[1], f).t[0]
            T = E.ty(e, f)
            r = Val(T, [E.uf("elem_" + cur.T.sortname, [cur.t[0], i], I)])
            E.wf(r)
            return r
        return member_call(E, x, cur, "operator[]", args[1:], e, f)
    if op in ("++", "--"):
        loc = E.lv(args[0], f)
        v = E.read(loc)
        d = 1 if op == "++" else -1
        if isinstance(v, Iter):
            if v.kind == "key":
                v = as_pos(E, v)
            nv = v.with_pos(simp2(v.pos + d))
        else:
            if not isinstance(v.T, TInt):
                raise U()("%s on %s at %s" % (op, v.T, e.loc()))
            nv = Val(v.T, [E.arith_wrap(v.t[0] + d, v.T)])
        E.write(loc, nv)
        return v if len(args) > 1 else loc
    if op in ("+", "-", "<", ">", "<=", ">=") and len(args) == 2:
        x, y = E.ev(args[0], f), E.ev(args[1], f)
        if isinstance(x, Ref):
            x = E.read(x.loc)
        if isinstance(y, Ref):
            y = E.read(y.loc)
        if isinstance(x, Iter) or isinstance(y, Iter):
            return E.iter_arith(op, x, y)
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Val) and isinstance(a.T, TOpaque) and a.T.sortname == "Str" or isinstance(a, StrLit):
                S = TOpaque("Str")
                def sv(v):
                    if isinstance(v, StrLit):
                        return E.coerce(v, S).t[0]
                    if isinstance(v, Val) and v.T == S:
                        return v.t[0]
                    return E.uf("str_of_" + sanitize(v.T.name), [v.t[0]], usort("Str"))
                if op == "+":
                    return Val(S, [E.uf("strcat", [sv(x), sv(y)], usort("Str"))])
                return bv(E.uf("str" + {"<": "lt", ">": "gt", "<=": "le", ">=": "ge"}[op], [sv(x), sv(y)], B))
        if isinstance(x, Val) and isinstance(y, Val) and isinstance(x.T, TInt) and isinstance(y.T, TInt):
            T = TInt(64, True)
            if op in ("<", ">", "<=", ">="):
                return E.int_op(op, x, y, e, f)
            return Val(T, [x.t[0] + y.t[0] if op == "+" else x.t[0] - y.t[0]])
        if isinstance(x, Val) and isinstance(y, Val) and x.T == y.T and isinstance(x.T, TOpaque):
            return bv(E.uf("ord%s_%s" % (sanitize(op) + str(ord(op[0])), x.T.sortname), [x.t[0], y.t[0]], B))
        if op in ("<", "<=", ">", ">=") and isinstance(x, Val) and isinstance(x.T, TOpt) and isinstance(y, Val) and not isinstance(y.T, TOpt):
            return E.binop(op, x, y, e, f)
        raise Uns("operator %s on %s, %s" % (op, x, y))
    if op in ("+=", "-="):
        loc = E.lv(args[0], f)
        v = E.read(loc)
        y = E.ev(args[1], f)
        if isinstance(v, Iter):
            E.write(loc, E.iter_arith(op[0], as_pos(E, v), y))
            return loc
        if isinstance(v, Val) and isinstance(v.T, TInt):
            E.write(loc, Val(v.T, [E.arith_wrap(v.t[0] + y.t[0] if op == "+=" else v.t[0] - y.t[0], v.T)]))
            return loc
        if isinstance(v, Val) and isinstance(v.T, TOpaque):
            E.write(loc, E.fresh_val(v.T, "app"))
            return loc
    if op == "<<":
        # stream output
        x = E.X(args[0], f)
        try:
            E.ev(args[1], f)
        except Uns:
            pass
        xv = E.read(x) if isinstance(x, Loc) else x
        if isinstance(xv, Val) and isinstance(xv.T, TOpaque):
            return x
        return x
    if op == "!":
        return bv(z3.Not(E.truth(E.ev(args[0], f))))
    if op == " bool":
        return bv(E.truth(E.ev(args[0], f)))
    if op == "=":
        return E.assign(args[0], args[1], e, f)
    raise Uns("library operator %s at %s" % (nm, e.loc()))
