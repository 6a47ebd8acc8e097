"""Verification-condition generator over the clang AST (symbolic execution, path by path,
loops cut by invariants, calls replaced by contracts when one is given and inlined otherwise).
"""
import re, os, sys, time, hashlib
import z3
from sym import *
import front
from front import N, params, body
from ctypes_ import Types, TypeErr, sanitize, strip_cv, template, split_args, INTS

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path is finished (infeasible, cut at a loop head, noreturn call)"""


class NeedFork(Exception):
    pass


class Ctl(Exception):
    pass


class Ret(Ctl):
    def __init__(self, v):
        self.v = v


class Brk(Ctl):
    pass


class Cont(Ctl):
    pass


class Thrown(Ctl):
    def __init__(self, v, node):
        self.v = v
        self.node = node


class Frame:
    def __init__(self, chain, ids, this, parent, fn, scope, tu, caps=None, capnames=None):
        self.chain = chain
        self.id = ids.setdefault(chain, len(ids))
        self.this = this
        self.parent = parent
        self.fn = fn
        self.scope = scope
        self.tu = tu
        self.caps = caps or {}
        self.capnames = capnames or {}
        self.decls = {}
        self.rets = None


class Obl:
    __slots__ = ("name", "kind", "hyps", "goal", "loc", "tag", "status", "backend", "time", "detail", "trivial", "fn")

    def __init__(self, name, kind, hyps, goal, loc, tag=None):
        self.name, self.kind, self.hyps, self.goal, self.loc, self.tag = name, kind, hyps, goal, loc, tag
        self.status = None
        self.backend = None
        self.time = 0.0
        self.detail = ""
        self.trivial = False


class LoopRec:
    def __init__(self):
        self.writes = set()
        self.dropped = set()
        self.cands = {}
        self.desc = ""


def has_quant(e, _c={}):
    k = e.get_id()
    r = _c.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    todo, seen, res = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    _c[k] = (e, res)
    return res


def simp(c):
    if z3.is_true(c) or z3.is_false(c):
        return c
    return z3.simplify(c)


class LoopCtx:
    """what a loop-invariant candidate sees"""

    def __init__(self, E, rec, entry_vars, pos, n, cont, entry_cont, frame):
        self.E, self.rec, self.entry_vars = E, rec, entry_vars
        self.pos, self.n = pos, n
        self.enum = cont
        self.seq = entry_cont
        self.frame = frame

    # values now / at loop entry / at function entry
    def val(self, loc):
        return self.E.read(loc)

    @property
    def this(self):
        if self.E.this_root not in self.E.vars and self.frame.this is not None:
            return self.E.read(self.frame.this)      # inside a constructor
        return self.E.vars[self.E.this_root]

    @property
    def old(self):
        return self.E.pre_vars[self.E.this_root]

    @property
    def at_entry(self):
        return self.entry_vars[self.E.this_root]

    def arg(self, i):
        return self.E.pre_args[i]

    def cur_arg(self, i):
        return self.E.cur_arg(i)

    def nm(self, root):
        """name of a local variable; of several with one name, the latest goes unprimed"""
        n = self.E.root_name.get(root, root)
        later = False
        k = 0
        for r in self.entry_vars:
            if r == root:
                later = True
            elif later and r.startswith("f") and self.E.root_name.get(r, r) == n:
                k += 1
        return n + "'" * k

    def locals(self, T=None):
        """(name, value now, value at loop entry) of local variables visible at this loop"""
        out = []
        for root, v in self.entry_vars.items():
            if not root.startswith("f"):
                continue
            if isinstance(v, Val) and root in self.E.vars and isinstance(self.E.vars[root], Val):
                if T is None or v.T == T or (isinstance(T, type) and isinstance(v.T, T)):
                    out.append((self.nm(root), self.E.vars[root], v))
        return out

    def refs(self, T=None):
        """(name, value now) of what local references denote"""
        out = []
        for root, v in self.entry_vars.items():
            if root.startswith("f") and isinstance(v, Ref):
                try:
                    w = self.E.read(v.loc, check=False)
                except Exception:
                    continue
                if isinstance(w, Val) and (T is None or w.T == T or (isinstance(T, type) and isinstance(w.T, T))):
                    out.append((self.nm(root), w))
        return out

    def modified_locals(self, T=None):
        w = {r for r, _ in self.rec.writes}
        out = []
        for root, v in self.entry_vars.items():
            if root in w and root.startswith("f") and isinstance(v, Val) and isinstance(self.E.vars.get(root), Val):
                if T is None or v.T == T or (isinstance(T, type) and isinstance(v.T, T)):
                    out.append((self.nm(root), self.E.vars[root], v))
        return out

    def visited(self, k):
        e = self.enum
        return z3.And(z3.Select(e.cval.dom, k), z3.Select(e.idx, k) < self.pos)


class CallCtx:
    """what a contract clause sees"""
    pass


def iter_home(loc):
    """(access path shape, vector index) naming the container a stored iterator points into"""
    shape, ix = loc.root, z3.IntVal(0)
    for st in loc.path:
        if st[0] == "i":
            ix = st[1]
            shape += "[]"
        elif st[0] == "f":
            shape += "." + st[1]
        else:
            raise Unsupported("stored iterator into nested container")
    return z3.IntVal(abs(hash(shape)) % (1 << 40)), ix


class Engine:
    def __init__(self, prog, types, contracts=None, externs=None, opts=None):
        self.prog = prog
        self.types = types
        self.contracts = contracts or {}
        self.externs = externs or {}
        self.opts = opts or {}
        self.frame_ids = {}
        self.axioms = []
        self.assumed = set()      # names of trusted/assumed library facts used
        self.inlined = set()
        self.used_contracts = set()
        self.guards = self.opts.get("guards", {})
        self.stats = dict(paths=0, quick=0, quick_s=0.0)
        self.maxpaths = self.opts.get("maxpaths", 4000)
        self.fn_consts = {}
        self.loopcands = None

    # ================================================================ exploring
    def explore(self, setup, run, finish):
        """Explore all paths of one function; returns the list of obligations."""
        self.loops = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Unsupported("loop analysis does not stabilise")
            self.obls = {}
            self.dirty = False
            self.loop_obls = {}
            self.npaths = 0
            self.nreturns = 0
            pending = [()]
            while pending:
                self.trace = list(pending.pop())
                self.pos = 0
                self.newtraces = []
                self._reset_path()
                self.npaths += 1
                self.stats["paths"] += 1
                if self.npaths > self.maxpaths:
                    raise Unsupported("more than %d paths" % self.maxpaths)
                try:
                    setup()
                    try:
                        run()
                        self.result = VOID
                    except Ret as r:
                        self.result = r.v
                    except Thrown as t:
                        if not self.opts.get("allow_throw"):
                            self.oblige("uncaught exception", "safety", z3.BoolVal(False), t.node)
                        raise PathEnd()
                    except (Brk, Cont):
                        raise Unsupported("stray break/continue")
                    self.nreturns += 1
                    finish()
                except PathEnd:
                    pass
                pending.extend(self.newtraces)
            if self.dirty:
                continue
            # Houdini: discard candidate invariants that are not inductive
            failed = self.check_candidates()
            if not failed:
                break
        return list(self.obls.values())

    def check_candidates(self):
        from solve import prove_many
        obs = [o for o in self.obls.values() if o.kind in ("inv-base", "inv-step")]
        prove_many(obs, timeout=self.opts.get("inv_timeout", 4), cand=True)
        failed = False
        for o in obs:
            if o.status != "proved":
                ctx, cname = o.tag
                self.loops[ctx].dropped.add(cname)
                failed = True
        return failed

    def _reset_path(self):
        self.vars = {}
        self.pc = []
        self.pcset = set()
        self.decs = []
        self.fresh_n = 0
        self.seq = 0
        self.held = {}
        self.events = []
        self.loopstack = []
        self.nofork = 0
        self.memo = set()
        self.addr_only = None
        self.enums = {}
        self.qs = None
        self.qs_n = 0
        self.root_name = {}
        self.declared = {}
        self.callstack = []
        self.fnmap = {}
        self.ghost_log = []
        self.ninst = {}
        for a in self.axioms:
            self.assume(a)

    def fresh(self, sort, hint="v"):
        self.fresh_n += 1
        return z3.Const("%s~%d" % (hint, self.fresh_n), sort)

    def fresh_val(self, T, hint="v"):
        v = Val(T, [self.fresh(s, "%s" % hint) for s in T.leaves()])
        self.wf(v)
        return v

    def wf(self, v, depth=0):
        """ground well-formedness facts of a fresh value"""
        T = v.T
        if isinstance(T, TInt):
            if not z3.is_int_value(v.t[0]):
                self.assume(z3.And(v.t[0] >= T.lo, v.t[0] <= T.hi))
        elif isinstance(T, TEnum):
            if T.vals and not z3.is_int_value(v.t[0]):
                # an enumerator is any value of the underlying type; the named ones are what the code stores
                lo, hi = min(T.vals.values()), max(T.vals.values())
                if T.q in self.opts.get("closed_enums", ()) or self.opts.get("closed_all_enums"):
                    self.assume(z3.And(v.t[0] >= lo, v.t[0] <= hi))
                else:
                    self.assume(z3.And(v.t[0] >= 0, v.t[0] <= 255) if hi <= 255 else v.t[0] >= 0)
        elif isinstance(T, TVec):
            if T.fixed is not None:
                self.assume(v.t[0] == T.fixed)
            else:
                self.assume(z3.And(v.t[0] >= 0, v.t[0] <= (1 << 62)))
        elif isinstance(T, TRec):
            for n, _ in T.fields:
                self.wf(field(v, n), depth + 1)
        elif isinstance(T, TOpt):
            self.wf(v.val, depth + 1)
        elif isinstance(T, TVar):
            self.assume(z3.And(v.t[0] >= 0, v.t[0] < len(T.ts)))
            for i in range(len(T.ts)):
                self.wf(v.alt(i), depth + 1)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        if f.get_id() in self.pcset:
            return
        self.pcset.add(f.get_id())
        self.pc.append(f)

    def _quick(self, extra, timeout=400):
        t0 = time.time()
        if self.qs is None:
            self.qs = z3.Solver()
            self.qs.set("timeout", timeout)
            self.qs_n = 0
        while self.qs_n < len(self.pc):
            f = self.pc[self.qs_n]
            if not has_quant(f):
                self.qs.add(f)
            self.qs_n += 1
        self.qs.push()
        self.qs.add(extra)
        r = self.qs.check()
        self.qs.pop()
        self.stats["quick"] += 1
        self.stats["quick_s"] += time.time() - t0
        return r

    def valid(self, f):
        """quick (quantifier-free) entailment check; False = don't know"""
        f = simp(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        key = ("valid", f.get_id(), len(self.pc))
        return self._quick(z3.Not(f)) == z3.unsat

    def choose(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.pcset:
            return True
        nc = simp(z3.Not(c))
        if nc.get_id() in self.pcset:
            return False
        if self.nofork:
            if self.valid(c):
                return True
            if self.valid(nc):
                return False
            raise NeedFork()
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
        else:
            ft = self._quick(c) != z3.unsat
            ff = self._quick(nc) != z3.unsat
            if not ft and not ff:
                raise PathEnd()
            if ft:
                d = True
                if ff:
                    self.newtraces.append(tuple(self.trace[:self.pos]) + (False,))
            else:
                d = False
            self.trace.append(d)
            self.pos += 1
        self.assume(c if d else nc)
        self.decs.append(c if d else nc)
        return d

    def oblige(self, name, kind, goal, node=None, tag=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        key = (tuple(self.trace[:self.pos]), self.seq, name)
        self.seq += 1
        loc = node.loc() if isinstance(node, N) else (node or "")
        if key in self.obls:
            return
        # the same formula under the same path condition needs one proof only
        o = Obl(name, kind, list(self.pc), goal, loc, tag)
        if z3.is_true(simp(goal)) or goal.get_id() in self.pcset:
            o.status = "proved"
            o.backend = "simplifier"
            o.trivial = True
        self.obls[key] = o

    # ================================================================ store
    def root_val(self, root):
        if root not in self.vars:
            raise Unsupported("unbound variable " + root)
        return self.vars[root]

    def step(self, v, s, loc=None, check=True):
        k = s[0]
        if isinstance(v, Bundle):
            if k == "f":
                return v.items[v.names.index(s[1])]
            raise Unsupported("step %s into bundle" % (s,))
        if isinstance(v, Meta):
            raise Unsupported("step %s into %s" % (s, type(v).__name__))
        if k == "f":
            return field(v, s[1])
        if k == "i":
            if check:
                self.check_index(v, s[1])
            return v.at(s[1])
        if k == "m":
            if check:
                self.check_dom(v, s[1])
            return v.at(s[1])
        if k == "k":
            return v.keyobj(s[1])
        if k == "o":
            return v.val
        if k == "a":
            return v.alt(s[1])
        raise Unsupported("step " + str(s))

    def check_index(self, v, i):
        m = ("ix", v.t[0].get_id(), i.get_id() if hasattr(i, "get_id") else i)
        if m in self.memo:
            return
        if self.addr_only is not None and self.addr_only is self.cur:
            # &v[i]: only the address is taken; one past the last element is allowed
            self.assumed.add("taking the address one past the last element of a vector is allowed")
            self.oblige("index in bounds", "safety", z3.And(0 <= i, i <= v.t[0]), self.cur)
            return
        self.memo.add(m)
        self.keep = getattr(self, "keep", [])
        self.keep.append((v, i))
        self.oblige("index in bounds", "safety", z3.And(0 <= i, i < v.t[0]), self.cur)

    def in_store(self, dom, k):
        while dom.decl().kind() == z3.Z3_OP_STORE:
            a, i, b = dom.children()
            if i.eq(k):
                return z3.is_true(b)
            return None
        return None

    def check_dom(self, v, k):
        dom = v.t[0]
        m = ("dm", dom.get_id(), k.get_id())
        if m in self.memo:
            return
        self.memo.add(m)
        self.keep = getattr(self, "keep", [])
        self.keep.append((dom, k))
        if self.in_store(dom, k):
            return
        self.oblige("reference to a live map element", "safety", z3.Select(dom, k), self.cur)

    def read(self, loc, check=True):
        if not isinstance(loc, Loc):
            return loc
        v = self.root_val(loc.root)
        if isinstance(v, Ref):
            return self.read(Loc(v.loc.root, v.loc.path + loc.path), check)
        for j, s in enumerate(loc.path):
            v = self.step(v, s, loc, check)
            if isinstance(v, (Ref,)):
                return self.read(Loc(v.loc.root, v.loc.path + loc.path[j + 1:]), check)
        return v

    def canon(self, loc):
        """resolve reference roots"""
        v = self.vars.get(loc.root)
        if isinstance(v, Ref):
            return self.canon(Loc(v.loc.root, v.loc.path + loc.path))
        if isinstance(v, Bundle) and loc.path and loc.path[0][0] == "f":
            it = v.items[v.names.index(loc.path[0][1])]
            if isinstance(it, Ref):
                return self.canon(Loc(it.loc.root, it.loc.path + loc.path[1:]))
        return loc

    def set_root(self, root, nv):
        """assignment to a root; records which leaves changed for the loops being analysed"""
        old = self.vars.get(root)
        self.vars[root] = nv
        for rec, roots, entry in self.loopstack:
            if root in roots:
                if isinstance(nv, Val) and isinstance(old, Val) and len(nv.t) == len(old.t):
                    for j, (a, b) in enumerate(zip(old.t, nv.t)):
                        if not a.eq(b) and (root, j) not in rec.writes:
                            rec.writes.add((root, j))
                            self.dirty = True
                elif nv is not old and (root, "meta") not in rec.writes:
                    rec.writes.add((root, "meta"))
                    self.dirty = True

    def write(self, loc, nv, check=True):
        loc = self.canon(loc)
        self.check_guard(loc)
        if not loc.path:
            self.set_root(loc.root, nv)
            return
        base = self.root_val(loc.root)
        if isinstance(base, Bundle):
            if len(loc.path) == 1:
                items = list(base.items)
                items[base.names.index(loc.path[0][1])] = nv
                self.set_root(loc.root, Bundle(items, base.names))
                return
            raise Unsupported("deep write into bundle")
        self.set_root(loc.root, self._upd(base, loc.path, nv, check))

    def _upd(self, v, path, nv, check=True):
        if not path:
            return self.coerce(nv, v.T)
        s = path[0]
        sub = self.step(v, s, None, check)
        nsub = self._upd(sub, path[1:], nv, check)
        k = s[0]
        if k == "f":
            return set_field(v, s[1], nsub)
        if k == "i":
            return vec_set(v, s[1], nsub)
        if k == "m":
            return map_setval(v, s[1], nsub)
        if k == "o":
            return Val(v.T, (v.t[0],) + nsub.t)
        if k == "a":
            o = v.T.off(s[1])
            return Val(v.T, v.t[:o] + nsub.t + v.t[o + nsub.T.n():])
        raise Unsupported("write through " + str(s))

    def check_guard(self, loc):
        """lock discipline: guarded fields are touched only while their mutex is held"""
        if not self.guards or loc.root != self.this_root or not loc.path:
            return
        f = loc.path[0][1] if loc.path[0][0] == "f" else None
        g = self.guards.get(f)
        if not g:
            return
        if not self.held.get(g):
            m = ("guard", f, self.cur.id if self.cur is not None else 0, tuple(self.trace[:self.pos]))
            if m not in self.memo:
                self.memo.add(m)
                self.oblige("%s accessed without holding %s" % (f, g), "lock", z3.BoolVal(False), self.cur)

    def read_guard(self, loc):
        loc = self.canon(loc)
        self.check_guard(loc)

    # ================================================================ conversion
    def coerce(self, v, T):
        """implicit conversion of a value to type T"""
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(T, TIterK) and isinstance(v, Iter):
            sh, ix = iter_home(v.cloc)
            end = self.iter_is_end(v)
            return Val(T, [self.iter_key(v) if not z3.is_true(end) else self.fresh(keysort(T.k), "k"), sh, ix, end])
        if isinstance(v, Val) and isinstance(v.T, TIterK) and isinstance(T, TOpaque) and "iterator" in T.sortname:
            return v
        if isinstance(v, Val):
            if v.T == T:
                return Val(T, v.t)
            if isinstance(T, TOpt):
                if isinstance(v.T, TOpt) and isinstance(T.t, TVar) and any(t == v.T for t in T.t.ts):
                    return self.some(T, v)     # optional<variant<.., optional<U>>> from optional<U>: the value constructor is chosen
                if isinstance(v.T, TOpt):
                    inner = self.coerce(v.val, T.t)
                    return Val(T, (v.t[0],) + inner.t)
                return self.some(T, v)
            if isinstance(T, TVar) and (not isinstance(v.T, TVar) or any(t == v.T for t in T.ts)):
                return self.inject(T, v)
            if isinstance(T, TInt) and isinstance(v.T, (TInt, TEnum)):
                return Val(T, [self.wrap(v.t[0], T, v.T)])
            if isinstance(T, TInt) and isinstance(v.T, TBool):
                return Val(T, [z3.If(v.t[0], z3.IntVal(1), z3.IntVal(0))])
            if isinstance(T, TEnum) and isinstance(v.T, (TInt, TEnum)):
                return Val(T, v.t)
            if isinstance(T, TBool):
                return Val(T, [self.truth(v)])
            if isinstance(T, TRec) and isinstance(v.T, TRec):
                if len(T.fields) == len(v.T.fields):
                    r = []
                    for (fn, ft), (gn, gt) in zip(T.fields, v.T.fields):
                        r += self.coerce(field(v, gn), ft).t
                    return Val(T, r)
                if all(any(n == m for m, _ in v.T.fields) for n, _ in T.fields):
                    r = []   # derived to base slice
                    for fn, ft in T.fields:
                        r += field(v, fn).t
                    return Val(T, r)
            if isinstance(T, TVec) and isinstance(v.T, TVec):
                if T.t == v.T.t:
                    return Val(T, v.t)
            if isinstance(T, TOpaque) and isinstance(v.T, TOpaque):
                if T.sortname.startswith("P_") and v.T.sortname.startswith("P_"):
                    return Val(T, [self.uf("cast_%s_%s" % (v.T.sortname, T.sortname), [v.t[0]], T.leaves()[0])])
                if v.t[0].sort() == T.leaves()[0]:
                    return Val(T, v.t)
                return Val(T, [self.uf("conv_%s_%s" % (v.T.sortname, T.sortname), [v.t[0]], T.leaves()[0])])
            if isinstance(T, TMap) and isinstance(v.T, TMap) and len(T.leaves()) == len(v.t):
                return Val(T, v.t)
            if isinstance(T, TRec) and len(T.fields) == 0:
                return Val(T, [])
            if isinstance(T, TRec) and T.node is not None:
                c = self.find_ctor_for(T, [v])
                if c is not None:
                    return self.construct_rec(T, [v], self.cur)
            raise Unsupported("conversion %s -> %s" % (v.T, T))
        if isinstance(v, NullOpt):
            if isinstance(T, TOpt):
                return self.none(T)
            if isinstance(T, TRec) and not T.fields:
                return v
        if isinstance(v, NullPtr) or (isinstance(v, NullOpt)):
            if isinstance(T, TOpaque):
                return Val(T, [self.nullconst(T)])
            if isinstance(T, TOpt):
                return self.none(T)
        if isinstance(v, Bundle):
            if isinstance(T, TRec):
                r = []
                for it, (fn, ft) in zip(v.items, T.fields):
                    if isinstance(it, Ref):
                        it = self.read(it.loc)
                    r += self.coerce(it, ft).t
                return Val(T, r)
            if isinstance(T, TOpt):
                return self.some(T, self.coerce(v, T.t))
            if isinstance(T, TVar):
                return self.inject(T, v)
        if isinstance(v, Iter) and isinstance(T, TOpaque) and T.sortname.startswith("X_"):
            return v
        if isinstance(v, InitL):
            return self.init_list(T, v.items)
        if isinstance(v, (Lam, FnRef, Overload)) and isinstance(T, TOpaque):
            return self.fn_value(v, T)
        if isinstance(v, (Lam, FnRef, Overload)) and isinstance(T, TOpt):
            return self.some(T, self.fn_value(v, T.t))
        if isinstance(v, StrLit):
            if isinstance(T, TOpaque):
                return Val(T, [self.strconst(v.s)])
            if isinstance(T, TOpt):
                return self.some(T, self.coerce(v, T.t))
            if isinstance(T, TVar):
                return self.inject(T, v)
            if isinstance(T, TVec):
                r = default(T)
                bs = v.s
                r = Val(T, [z3.IntVal(len(bs)), r.t[1]])
                for i, ch in enumerate(bs):
                    r = vec_set(r, z3.IntVal(i), Val(T.t, [z3.IntVal(ord(ch))]))
                return r
        if isinstance(v, Ptr) and isinstance(T, TOpaque):
            return Val(T, [self.ptrconst(v, T)])
        if isinstance(v, Ref):
            return self.coerce(self.read(v.loc), T)
        raise Unsupported("conversion of %s to %s" % (type(v).__name__, T))

    def ptrconst(self, p, T):
        c = z3.Const("addr_" + re.sub(r"\W", "_", str(p.loc)), T.leaves()[0])
        self.fnmap[("ptr", c.get_id())] = (p, c)
        return c

    def strconst(self, s):
        nm = "str_" + hashlib.sha1(s.encode()).hexdigest()[:10]
        return z3.Const(nm, usort("Str"))

    def nullconst(self, T):
        return z3.Const("null_" + T.sortname, T.leaves()[0])

    def fn_value(self, v, T):
        if getattr(v, "term", None) is None:
            v.term = self.fresh(usort("Fn") if not isinstance(T, TOpaque) else T.leaves()[0], "closure")
        self.fnmap[v.term.get_id()] = (v, v.term)
        return Val(T, [v.term])

    def none(self, T):
        return Val(T, [z3.BoolVal(False)] + [dflt_term(s) for s in T.t.leaves()])

    def some(self, T, v):
        return Val(T, (z3.BoolVal(True),) + self.coerce(v, T.t).t)

    def inject(self, T, v, alt=None):
        if alt is None:
            cands = [i for i, t in enumerate(T.ts) if isinstance(v, Val) and t == v.T]
            if not cands:
                for i, t in enumerate(T.ts):
                    try:
                        self.coerce(v, t)
                        if isinstance(v, Val) and isinstance(v.T, TInt) and isinstance(t, (TBool, TEnum)):
                            continue
                        cands.append(i)
                    except Unsupported:
                        pass
            if not cands:
                raise Unsupported("no alternative of %s for %s" % (T, v))
            alt = cands[0]
        w = self.coerce(v, T.ts[alt])
        r = [z3.IntVal(alt)]
        for i, t in enumerate(T.ts):
            r += w.t if i == alt else [dflt_term(s) for s in t.leaves()]
        return Val(T, r)

    def uf(self, name, args, rs):
        f = z3.Function(name, *([a.sort() for a in args] + [rs]))
        return f(*args)

    def wrap(self, t, T, ST=None):
        """reduce an unbounded integer to the C++ type"""
        if z3.is_int_value(t):
            n = t.as_long()
            n &= (1 << T.bits) - 1
            if T.signed and n >> (T.bits - 1):
                n -= 1 << T.bits
            return z3.IntVal(n)
        if isinstance(ST, TEnum):
            return t
        if ST is not None and ST.lo >= T.lo and ST.hi <= T.hi:
            return t
        if self.valid(z3.And(t >= T.lo, t <= T.hi)):
            return t
        m = t % (1 << T.bits)
        if T.signed:
            m = z3.If(m > T.hi, m - (1 << T.bits), m)
        return self.named(m)

    def truth(self, v):
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(v, Val):
            T = v.T
            if isinstance(T, TBool):
                return v.t[0]
            if isinstance(T, TInt):
                return v.t[0] != 0
            if isinstance(T, TOpt):
                return v.t[0]
            if isinstance(T, TOpaque):
                return v.t[0] != self.nullconst(T)
            if isinstance(T, TRec) and T.q == "std::stringstream":
                return v.ok.z
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        if isinstance(v, NullPtr):
            return z3.BoolVal(False)
        if isinstance(v, (Lam, FnRef)):
            return z3.BoolVal(True)
        raise Unsupported("truth value of %s" % (v,))

    # ================================================================ types
    def ty(self, e, frame):
        s = e.dqt if e.dqt else e.qt
        try:
            return self.types.parse(s, frame.scope)
        except TypeErr as x:
            raise Unsupported("type %s: %s" % (s, x))

    def ty_decl(self, d, frame):
        for s in (d.qt, d.dqt):
            try:
                t = self.types.parse(s, frame.scope)
                if not (isinstance(t, TOpaque) and t.sortname.startswith("X_")):
                    return t
            except TypeErr:
                continue
        return self.types.parse(d.dqt, frame.scope)

    # ================================================================ expressions
    cur = None

    def X(self, e, f):
        """evaluate: returns Loc | Val | Meta"""
        prev = self.cur
        if e.line:
            self.cur = e
        m = getattr(self, "x_" + e.kind, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (e.kind, e.loc()))
        r = m(e, f)
        self.cur = prev if prev is not None else self.cur
        return r

    def ev(self, e, f):
        r = self.X(e, f)
        if isinstance(r, Loc):
            self.read_guard(r)
            r = self.read(r)
        return r

    def lv(self, e, f):
        r = self.X(e, f)
        if isinstance(r, Loc):
            return self.canon(r)
        return self.temp(r, e, f)

    def temp(self, v, e, f):
        root = "t%d:%s" % (f.id, e.id if isinstance(e, N) else e)
        self.vars[root] = v
        for rec, roots, entry in self.loopstack:
            roots.discard(root)
        return Loc(root)

    def load(self, loc):
        v = self.read(loc)
        if isinstance(v, Val) and isinstance(v.T, (TInt, TEnum)) and len(v.t) == 1:
            t = v.t[0]
            if not z3.is_int_value(t) and ("rg", t.get_id()) not in self.memo:
                self.memo.add(("rg", t.get_id()))
                self.keep = getattr(self, "keep", [])
                self.keep.append(t)
                self.wf(v)
        elif isinstance(v, Val) and isinstance(v.T, TVec):
            self.len_fact(v)
        return v

    def len_fact(self, v):
        t = v.t[0]
        if not z3.is_int_value(t) and ("ln", t.get_id()) not in self.memo:
            self.memo.add(("ln", t.get_id()))
            self.keep = getattr(self, "keep", [])
            self.keep.append(t)
            self.assume(z3.And(t >= 0, t <= (1 << 62)))

    # ---- wrappers
    def _thru(self, e, f):
        return self.X(e.inner[0], f)

    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = _thru
    x_ConstantExpr = x_SubstNonTypeTemplateParmExpr = x_FullExpr = x_OpaqueValueExpr = _thru

    def x_CXXDefaultInitExpr(self, e, f):
        if e.inner:
            return self._thru(e, f)
        raise Unsupported("default member initialiser")

    def x_CXXDefaultArgExpr(self, e, f):
        if e.inner:
            return self._thru(e, f)
        return self.fresh_val(self.ty(e, f), "default_argument")     # any value

    def x_PredefinedExpr(self, e, f):
        return StrLit("?")

    def x_SourceLocExpr(self, e, f):
        return StrLit("?")

    def x_StringLiteral(self, e, f):
        s = e.get("value", '""')
        try:
            import ast as pyast
            s = pyast.literal_eval(s)
        except Exception:
            s = s.strip('"')
        return StrLit(s)

    def x_IntegerLiteral(self, e, f):
        return Val(self.ty(e, f), [z3.IntVal(int(e.get("value")))])

    def x_CharacterLiteral(self, e, f):
        return Val(self.ty(e, f), [z3.IntVal(int(e.get("value")))])

    def x_FloatingLiteral(self, e, f):
        return Val(TOpaque("Real_double"), [z3.Const("flt_" + re.sub(r"\W", "_", str(e.get("value"))), usort("Real_double"))])

    def x_CXXBoolLiteralExpr(self, e, f):
        return Val(TBool(), [z3.BoolVal(bool(e.get("value")))])

    def x_CXXNullPtrLiteralExpr(self, e, f):
        return NullPtr()

    def x_GNUNullExpr(self, e, f):
        return NullPtr()

    def x_ImplicitValueInitExpr(self, e, f):
        return default(self.ty(e, f))

    def x_CXXScalarValueInitExpr(self, e, f):
        return default(self.ty(e, f))

    def x_CXXThisExpr(self, e, f):
        fr = f
        while fr is not None and fr.this is None:
            fr = fr.parent
        if fr is None:
            raise Unsupported("no this")
        return Ptr(fr.this)

    def x_UnaryExprOrTypeTraitExpr(self, e, f):
        nm = e.get("name")
        if nm == "sizeof":
            at = e.get("argType")
            if at:
                T = self.types.parse(at.get("desugaredQualType", at["qualType"]), f.scope)
            else:
                T = self.ty(e.inner[0], f)
            return Val(TInt(64, False), [z3.IntVal(self.sizeof(T))])
        raise Unsupported("type trait")

    def sizeof(self, T):
        if isinstance(T, TInt):
            return T.bits // 8
        if isinstance(T, TBool):
            return 1
        if isinstance(T, TEnum):
            n = self.prog.enums.get(T.q)
            if n is not None and n.get("fixedUnderlyingType"):
                u = n.get("fixedUnderlyingType")
                t = self.types.parse(u.get("desugaredQualType", u["qualType"]), "")
                return self.sizeof(t)
            return 4
        if isinstance(T, TVec) and T.fixed is not None:
            return T.fixed * self.sizeof(T.t)
        if isinstance(T, TOpaque) and T.sortname in ("Hash", "Sig"):
            return 32 if T.sortname == "Hash" else 64
        raise Unsupported("sizeof " + str(T))

    # ---- names
    def lookup(self, did, name, f):
        fr = f
        while fr is not None:
            if did in fr.caps:
                return fr.caps[did]
            r = "f%d:%s" % (fr.id, did)
            if r in self.vars:
                return r
            if name in fr.capnames:
                return fr.capnames[name]
            fr = fr.parent
        return None

    def x_DeclRefExpr(self, e, f):
        r = e.get("referencedDecl")
        k = r.get("kind")
        did = r.get("id")
        if k == "EnumConstantDecl":
            T = self.ty(e, f)
            if (f.tu, did) in self.prog.enumconst:
                return Val(T, [z3.IntVal(self.prog.enumconst[(f.tu, did)])])
            if isinstance(T, TEnum) and r.get("name") in T.vals:
                return Val(T, [z3.IntVal(T.vals[r["name"]])])
            raise Unsupported("enum constant " + str(r.get("name")))
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return FnRef(e)
        root = self.lookup(did, r.get("name"), f)
        if root is not None:
            v = self.vars[root]
            if isinstance(v, Ref):
                return v.loc
            return Loc(root)
        if k == "BindingDecl":
            raise Unsupported("unbound binding " + str(r.get("name")))
        if k in ("VarDecl", "ParmVarDecl"):
            return self.global_var(e, r, f)
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        raise Unsupported("reference to " + str(k))

    def global_var(self, e, r, f):
        nm = r.get("name")
        root = "g:" + str(r.get("id"))
        if root in self.vars:
            return Loc(root)
        if nm == "nullopt":
            return NullOpt()
        if nm in ("piecewise_construct", "in_place", "ignore"):
            return Val(TRec("tag", []), [])
        node = self.prog.byid.get((f.tu, r.get("id")))
        if nm in self.externs.get("vars", {}):
            v = self.externs["vars"][nm](self)
            self.vars[root] = v
            return Loc(root)
        if node is None or not node.inner:
            for q, n in self.prog.vars.items():
                if q.split("::")[-1] == nm and n.inner and n.qt == e.qt.replace("const ", "", 0):
                    node = n
                    break
        T = self.ty(e, f)
        if node is not None and node.inner and ("const" in node.qt or node.get("constexpr")):
            gf = Frame(("global", nm), self.frame_ids, None, None, node, node.d.get("_scope", f.scope), node.d.get("_tu", f.tu))
            v = self.coerce(self.ev(node.inner[-1], gf), T)
            self.vars[root] = v
            return Loc(root)
        if nm == "npos" and isinstance(T, TInt):
            return Val(T, [z3.IntVal(2 ** 64 - 1)])
        v = Val(T, [z3.Const("global_%s_%d" % (nm, i), s) for i, s in enumerate(T.leaves())])
        self.vars[root] = v
        return Loc(root)

    def x_MemberExpr(self, e, f):
        base = e.inner[0]
        nm = e.name
        if "bound member" in e.qt:
            return self.bound(e, f)
        if e.get("isArrow"):
            p = self.ev(base, f)
            loc = self.deref(p, e, f)
        else:
            loc = self.X(base, f)
            if isinstance(loc, (Bundle,)):
                it = loc.items[loc.names.index(nm)]
                return it.loc if isinstance(it, Ref) else it
            if isinstance(loc, Val):
                return field(loc, nm)
        if isinstance(loc, Loc):
            cur = None
            try:
                cur = self.read(loc, check=False)
            except Unsupported:
                pass
            if isinstance(cur, Bundle):
                it = cur.items[cur.names.index(nm)]
                return it.loc if isinstance(it, Ref) else (it if not isinstance(it, Val) else Loc(loc.root, loc.path + (("f", nm),)))
            if isinstance(cur, Val) and isinstance(cur.T, TRec) and not cur.T.has(nm):
                node = self.prog.byid.get((f.tu, e.get("referencedMemberDecl")))
                if node is not None and node.kind == "VarDecl":
                    gf = Frame(("global", nm), self.frame_ids, None, None, node, f.scope, f.tu)
                    return self.coerce(self.ev(node.inner[-1], gf), self.ty(e, f))
                raise Unsupported("no field %s in %s" % (nm, cur.T))
            if isinstance(cur, Val) and isinstance(cur.T, TOpaque):
                return self.opaque_field(loc, cur, nm, e, f)
            r = loc + ("f", nm)
            self.read_guard(r)
            return r
        if isinstance(loc, Val) and isinstance(loc.T, TRec):
            return field(loc, nm)
        raise Unsupported("member %s of %s" % (nm, type(loc).__name__))

    def opaque_field(self, loc, cur, nm, e, f):
        T = self.ty(e, f)
        ts = [self.uf("fld_%s_%s_%d" % (cur.T.sortname, nm, i), [cur.t[0]], s) for i, s in enumerate(T.leaves())]
        v = Val(T, ts)
        return v

    def deref(self, p, e, f):
        if isinstance(p, Ptr):
            if not z3.is_false(p.null):
                self.oblige("null dereference", "safety", z3.Not(p.null), e)
            return p.loc
        if isinstance(p, Iter):
            return self.iter_loc(p)
        if isinstance(p, Loc):
            v = self.read(p)
            return self.deref(v, e, f)
        if isinstance(p, Val):
            if isinstance(p.T, TOpaque):
                k = ("ptr", p.t[0].get_id())
                if k in self.fnmap:
                    return self.fnmap[k][0].loc
                # object behind an unmodelled pointer: a heap root named by the pointer term
                hook = self.externs.get("heap", {}).get(p.T.sortname)
                if hook:
                    return hook(self, p)
                return p
        raise Unsupported("dereference of %s" % (p,))

    # ---- iterators
    def mk_enum(self, cval):
        T = cval.T
        if isinstance(T, TVec):
            self.len_fact(cval)
            return Enum(T, cval, cval.t[0])
        dom = cval.t[0]
        key = ("enum", dom.get_id())
        if key in self.enums:
            return self.enums[key][0]
        ks = keysort(T.k)
        o = self.fresh(z3.ArraySort(I, ks), "ord")
        ix = self.fresh(z3.ArraySort(ks, I), "idx")
        n = card(dom)
        self.assume(n >= 0)
        self.assume(n <= (1 << 62))
        self.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, z3.Select(o, i)), z3.Select(ix, z3.Select(o, i)) == i)),
                           lambda i: [z3.Select(o, i)]))
        self.assume(Forall([ks], lambda k: z3.Implies(z3.Select(dom, k), z3.And(0 <= z3.Select(ix, k), z3.Select(ix, k) < n, z3.Select(o, z3.Select(ix, k)) == k)),
                           lambda k: [z3.Select(dom, k), z3.Select(ix, k)]))
        if T.ordered and ks == I:
            self.assume(Forall([I, I], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Select(o, i) < z3.Select(o, j)),
                               lambda i, j: [[z3.Select(o, i), z3.Select(o, j)]]))
        # emptiness <=> no element
        self.assume(Forall([ks], lambda k: z3.Implies(n == 0, z3.Not(z3.Select(dom, k))), lambda k: [z3.Select(dom, k)]))
        en = Enum(T, cval, n, o, ix)
        self.enums[key] = (en, dom)
        return en

    def size_facts(self, cval):
        """relate card(dom) to membership"""
        dom = cval.t[0]
        key = ("card", dom.get_id())
        if key in self.memo:
            return card(dom)
        self.memo.add(key)
        self.keep = getattr(self, "keep", [])
        self.keep.append(dom)
        ks = keysort(cval.T.k)
        n = card(dom)
        first = z3.Function("first_%s" % sanitize(str(dom.sort())), dom.sort(), ks)(dom)
        if cval.T.ordered and ks == I:
            pass
        self.assume(z3.And(n >= 0, n <= (1 << 62)))
        self.assume(z3.Implies(n > 0, z3.Select(dom, first)))
        self.assume(Forall([ks], lambda k: z3.Implies(n == 0, z3.Not(z3.Select(dom, k))), lambda k: [z3.Select(dom, k)]))
        self.assume(Forall([ks], lambda k: z3.Implies(z3.And(n == 1, z3.Select(dom, k)), k == first), lambda k: [z3.Select(dom, k)]))
        # more than one element: there is one different from `first`
        second = z3.Function("second_%s" % sanitize(str(dom.sort())), dom.sort(), ks)(dom)
        self.assume(z3.Implies(n > 1, z3.And(z3.Select(dom, second), second != first)))
        if cval.T.ordered and ks == I:
            self.assume(Forall([ks], lambda k: z3.Implies(z3.Select(dom, k), first <= k), lambda k: [z3.Select(dom, k)]))
        return n

    def first_key(self, cval):
        dom = cval.t[0]
        ks = keysort(cval.T.k)
        self.size_facts(cval)
        return z3.Function("first_%s" % sanitize(str(dom.sort())), dom.sort(), ks)(dom)

    def card_store(self, olddom, newdom, k, added):
        """size of a set after inserting/removing one key"""
        had = z3.Select(olddom, k)
        o, n = card(olddom), card(newdom)
        self.assume(z3.And(o >= 0, n >= 0))
        if added:
            self.assume(n == z3.If(had, o, o + 1))
        else:
            self.assume(n == z3.If(had, o - 1, o))

    def iter_loc(self, it):
        """lvalue designated by an iterator"""
        if it.kind == "key":
            if not z3.is_false(it.end):
                self.oblige("dereference of end iterator", "safety", z3.Not(it.end), self.cur)
            k = it.key
        else:
            m = ("itpos", it.pos.get_id(), it.enum.n.get_id())
            if m not in self.memo:
                self.memo.add(m)
                self.keep = getattr(self, "keep", [])
                self.keep.append((it.pos, it.enum.n))
                self.oblige("iterator in range", "safety", z3.And(0 <= it.pos, it.pos < it.enum.n), self.cur)
            if isinstance(it.T, TVec):
                p = it.pos if not it.rev else it.enum.n - 1 - it.pos
                return it.cloc + ("i", p)
            k = z3.Select(it.enum.ord, it.pos if not it.rev else it.enum.n - 1 - it.pos)
        if isinstance(it.T, TSet):
            cv = self.read(it.cloc)
            self.check_dom(cv, k)
            return it.cloc + ("k", k)
        # map: pair-like bundle
        cv = self.read(it.cloc)
        self.check_dom(cv, k)
        b = Bundle([Ref(it.cloc + ("k", k)), Ref(it.cloc + ("m", k))])
        root = "it:%s" % (abs(hash((str(it.cloc), k.get_id()))))
        self.vars[root] = b
        return Loc(root)

    def iter_is_end(self, it):
        if it.kind == "key":
            return it.end
        return it.pos == it.enum.n

    def iter_eq(self, a, b):
        def is_endish(x):
            return x.kind == "key" and z3.is_true(x.end)
        if is_endish(b):
            return self.iter_is_end(a)
        if is_endish(a):
            return self.iter_is_end(b)
        if a.kind == "pos" and b.kind == "pos":
            return a.pos == b.pos
        ka, kb = self.iter_key(a), self.iter_key(b)
        return z3.Or(z3.And(self.iter_is_end(a), self.iter_is_end(b)),
                     z3.And(z3.Not(self.iter_is_end(a)), z3.Not(self.iter_is_end(b)), ka == kb))

    def iter_key(self, it):
        if it.kind == "key":
            return it.key
        return z3.Select(it.enum.ord, it.pos)

    # ---- casts
    def x_ImplicitCastExpr(self, e, f):
        return self.cast(e, f)

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr
    x_CXXReinterpretCastExpr = x_ImplicitCastExpr
    x_BuiltinBitCastExpr = x_ImplicitCastExpr

    def x_CXXDynamicCastExpr(self, e, f):
        return self.X(e.inner[0], f)

    def cast(self, e, f):
        ck = e.get("castKind")
        c = e.inner[0]
        if ck == "LValueToRValue":
            r = self.X(c, f)
            if isinstance(r, Loc):
                self.read_guard(r)
                return self.load(r)
            return r
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay",
                  "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr", "BaseToDerived",
                  "LValueBitCast", "Dynamic"):
            return self.X(c, f)
        if ck == "IntegralCast":
            v = self.ev(c, f)
            T = self.ty(e, f)
            if isinstance(v, Val):
                if isinstance(v.T, TOpaque):
                    return Val(T, [self.uf("toint_" + v.T.sortname, [v.t[0]], I)])
                return self.coerce(v, T)
            raise Unsupported("integral cast of %s" % v)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return Val(TBool(), [self.truth(self.ev(c, f))])
        if ck == "BooleanToSignedIntegral":
            return self.coerce(self.ev(c, f), self.ty(e, f))
        if ck == "ArrayToPointerDecay":
            r = self.X(c, f)
            if isinstance(r, StrLit):
                return r
            if isinstance(r, Loc):
                cv = self.read(r)
                return Iter(r, cv.T, "pos", pos=z3.IntVal(0), enum=self.mk_enum(cv))
            raise Unsupported("array decay")
        if ck == "NullToPointer":
            return NullPtr()
        if ck == "ToVoid":
            self.X(c, f)
            return VOID
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            v = self.ev(c, f)
            T = self.ty(e, f)
            r = Val(T, [self.uf("num_%s_%s" % (sanitize(v.T.name), sanitize(T.name)), [v.t[0]], T.leaves()[0])])
            self.wf(r)
            return r
        if ck == "BitCast":
            return self.X(c, f)
        if ck in ("IntegralToPointer", "PointerToIntegral"):
            return self.ev(c, f)
        raise Unsupported("cast %s at %s" % (ck, e.loc()))

    # ---- operators
    def x_UnaryOperator(self, e, f):
        op = e.get("opcode")
        c = e.inner[0]
        if op == "!":
            return Val(TBool(), [z3.Not(self.truth(self.ev(c, f)))])
        if op in ("++", "--"):
            loc = self.lv(c, f)
            v = self.load(loc)
            if isinstance(v, Iter):
                nv = v.with_pos(v.pos + (1 if op == "++" else -1))
            else:
                d = 1 if op == "++" else -1
                nv = Val(v.T, [self.arith_wrap(v.t[0] + d, v.T)])
            self.write(loc, nv)
            return v if e.get("isPostfix") else loc
        if op == "*":
            p = self.ev(c, f)
            return self.deref(p, e, f)
        if op == "&":
            a = c
            while a.kind == "ParenExpr":
                a = a.inner[0]
            self.addr_only = a
            r = self.X(c, f)
            self.addr_only = None
            if isinstance(r, Loc):
                r = self.canon(r)
                if r.path and r.path[-1][0] == "i":
                    base = Loc(r.root, r.path[:-1])
                    cv = self.read(base)
                    return Iter(base, cv.T, "pos", pos=r.path[-1][1], enum=self.mk_enum(cv))
                return Ptr(r)
            if isinstance(r, FnRef):
                return r
            return Ptr(self.temp(r, e, f))
        if op == "-":
            v = self.ev(c, f)
            return Val(v.T, [self.arith_wrap(-v.t[0], v.T)])
        if op == "+":
            return self.ev(c, f)
        if op == "~":
            v = self.ev(c, f)
            if v.T.signed:
                return Val(v.T, [-v.t[0] - 1])
            return Val(v.T, [v.T.hi - v.t[0]])
        if op == "__extension__":
            return self.X(c, f)
        raise Unsupported("unary " + op)

    def arith_wrap(self, t, T):
        t = simp(t) if not z3.is_int_value(t) else t
        if z3.is_int_value(t):
            return self.wrap(t, T)
        if T.signed:
            self.assumed.add("signed machine arithmetic treated as mathematical (no signed overflow)")
            return t
        if self.valid(z3.And(t >= 0, t <= T.hi)):
            return t
        M = 1 << T.bits
        if z3.is_add(t) or z3.is_sub(t):
            # the sum/difference of two in-range values is off by at most one modulus
            if self.valid(z3.And(t > -M, t < 2 * M)):
                return self.named(z3.If(t < 0, t + M, z3.If(t > T.hi, t - M, t)))
        return self.named(t % M)

    def named(self, t):
        """a name for a compound integer term, so that later formulas stay small"""
        n = self.fresh(I, "n")
        self.assume(n == t)
        return n

    def x_BinaryOperator(self, e, f):
        op = e.get("opcode")
        a, b = e.inner
        if op == "=":
            loc = self.lv(a, f)
            v = self.ev(b, f)
            cur = self.read(loc, check=False)
            if isinstance(cur, Val):
                v = self.coerce(v, cur.T)
            self.write(loc, v)
            return loc
        if op in ("&&", "||"):
            return self.shortcut(op, a, b, f)
        if op == ",":
            self.X(a, f)
            return self.X(b, f)
        x = self.ev(a, f)
        y = self.ev(b, f)
        return self.binop(op, x, y, e, f)

    def shortcut(self, op, a, b, f):
        x = simp(self.truth(self.ev(a, f)))
        if z3.is_true(x) or z3.is_false(x):
            if (op == "&&") == z3.is_true(x):
                return Val(TBool(), [self.truth(self.ev(b, f))])
            return Val(TBool(), [x])
        guard = x if op == "&&" else simp(z3.Not(x))
        r = self.speculate(guard, lambda: self.truth(self.ev(b, f)))
        if r is not None:
            y = r
            return Val(TBool(), [z3.And(x, y) if op == "&&" else z3.Or(x, y)])
        if self.choose(guard):
            return Val(TBool(), [self.truth(self.ev(b, f))])
        return Val(TBool(), [z3.BoolVal(op != "&&")])

    def speculate(self, guard, fn):
        """evaluate fn under an extra assumption; only if it is pure and does not fork"""
        saved = (dict(self.vars), list(self.pc), set(self.pcset), dict(self.held), len(self.events),
                 self.seq, set(self.memo), dict(self.enums), self.dirty)
        n0 = len(self.pc)
        okeys = set(self.obls)
        self.nofork += 1
        qs, self.qs = self.qs, None
        try:
            self.assume(guard)
            try:
                r = fn()
                ok = True
            except (NeedFork, PathEnd, Ctl):
                ok = False
            if ok:
                for k, v in self.vars.items():
                    if k in saved[0] and saved[0][k] is not v and not k.startswith(("t", "it:", "g:")):
                        o = saved[0][k]
                        if not (isinstance(o, Val) and isinstance(v, Val) and len(o.t) == len(v.t) and all(p.eq(q) for p, q in zip(o.t, v.t))):
                            ok = False
                            break
                if len(self.events) != saved[4]:
                    ok = False
        finally:
            self.nofork -= 1
        facts = self.pc[n0:]
        if not ok:
            (self.vars, self.pc, self.pcset, self.held, ne, self.seq, self.memo, self.enums, self.dirty) = saved
            del self.events[ne:]
            for k in set(self.obls) - okeys:
                del self.obls[k]
            self.qs = None
            return None
        # keep facts learnt under the guard, guarded
        self.pc = saved[1]
        self.pcset = saved[2]
        self.memo = saved[6]
        self.enums = saved[7]
        self.held = saved[3]
        for q in facts:
            if q.eq(guard) or (z3.is_and(guard) and any(q.eq(c) for c in guard.children())):
                continue
            self.assume(z3.Implies(guard, q))
        self.qs = None
        return r

    def binop(self, op, x, y, e, f):
        if isinstance(x, Loc):
            x = self.read(x)
        if isinstance(y, Loc):
            y = self.read(y)
        if isinstance(x, (Ptr, NullPtr)) or isinstance(y, (Ptr, NullPtr)):
            if op in ("==", "!="):
                if isinstance(x, NullPtr):
                    x, y = y, x
                if isinstance(y, NullPtr):
                    c = z3.Not(self.truth(x))
                    return Val(TBool(), [c if op == "==" else z3.Not(c)])
        if isinstance(x, Iter) or isinstance(y, Iter):
            return self.iter_arith(op, x, y)
        if isinstance(x, Val) and isinstance(y, Val) and isinstance(x.T, (TInt, TEnum, TBool)) and isinstance(y.T, (TInt, TEnum, TBool)):
            return self.int_op(op, x, y, e, f)
        if op in ("==", "!="):
            c = self.equal(x, y)
            return Val(TBool(), [c if op == "==" else z3.Not(c)])
        if op in ("<", "<=", ">", ">=") and isinstance(x, Val) and isinstance(x.T, TOpt) and isinstance(y, Val) and not isinstance(y.T, TOpt):
            # an empty optional is below every value
            c = self.binop(op, x.val, y, e, f).t[0]
            return Val(TBool(), [z3.If(x.has(), c, z3.BoolVal(op[0] == "<"))])
        if isinstance(x, Val) and isinstance(x.T, TOpaque) and x.T.sortname.startswith("Real"):
            rt = self.ty(e, f)
            return Val(rt, [self.uf("flop_" + sanitize(op) + str(ord(op[0])), [x.t[0], self.coerce(y, x.T).t[0]], rt.leaves()[0])])
        raise Unsupported("operator %s on %s, %s" % (op, x, y))

    def equal(self, x, y):
        if isinstance(x, Loc):
            x = self.read(x)
        if isinstance(y, Loc):
            y = self.read(y)
        if isinstance(x, Ref):
            x = self.read(x.loc)
        if isinstance(y, Ref):
            y = self.read(y.loc)
        if isinstance(x, NullOpt):
            x, y = y, x
        if isinstance(y, NullOpt):
            return z3.Not(x.t[0])
        if isinstance(y, NullPtr):
            return z3.Not(self.truth(x))
        if isinstance(x, NullPtr):
            return z3.Not(self.truth(y))
        if isinstance(x, Iter) and isinstance(y, Iter):
            return self.iter_eq(x, y)
        if isinstance(x, Bundle) and isinstance(y, Bundle):
            return z3.And(*[self.equal(a, b) for a, b in zip(x.items, y.items)])
        if isinstance(x, Bundle) and isinstance(y, Val):
            x = self.coerce(x, y.T)
        if isinstance(y, Bundle) and isinstance(x, Val):
            y = self.coerce(y, x.T)
        if isinstance(x, StrLit) and isinstance(y, Val):
            x = self.coerce(x, y.T)
        if isinstance(y, StrLit) and isinstance(x, Val):
            y = self.coerce(y, x.T)
        if isinstance(x, Val) and isinstance(y, Val):
            if x.T != y.T:
                if isinstance(x.T, TOpt) and not isinstance(y.T, TOpt):
                    return z3.And(x.t[0], self.equal(x.val, y))
                if isinstance(y.T, TOpt) and not isinstance(x.T, TOpt):
                    return z3.And(y.t[0], self.equal(x, y.val))
                y = self.coerce(y, x.T)
            hook = self.externs.get("eq", {}).get(x.T.name)
            if hook:
                return hook(self, x, y)
            return veq(x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return z3.BoolVal(str(x.loc) == str(y.loc))
        raise Unsupported("equality of %s and %s" % (x, y))

    def iter_arith(self, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter):
            if op == "-":
                return Val(TInt(64, True), [x.pos - y.pos])
            if op in ("==", "!="):
                c = self.iter_eq(x, y)
                return Val(TBool(), [c if op == "==" else z3.Not(c)])
            if op in ("<", ">", "<=", ">="):
                a, b = x.pos, y.pos
                return Val(TBool(), [{"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]])
        if isinstance(x, Iter) and isinstance(y, Val):
            if op == "+":
                return x.with_pos(x.pos + y.t[0])
            if op == "-":
                return x.with_pos(x.pos - y.t[0])
        if isinstance(y, Iter) and isinstance(x, Val) and op == "+":
            return y.with_pos(y.pos + x.t[0])
        if op in ("==", "!=") and (isinstance(x, NullPtr) or isinstance(y, NullPtr)):
            return Val(TBool(), [z3.BoolVal(op == "!=")])
        raise Unsupported("iterator arithmetic " + op)

    def int_op(self, op, x, y, e, f):
        def num(v):
            return z3.If(v.t[0], z3.IntVal(1), z3.IntVal(0)) if isinstance(v.T, TBool) else v.t[0]
        if op in ("==", "!="):
            if isinstance(x.T, TBool) and isinstance(y.T, TBool):
                c = x.t[0] == y.t[0]
            else:
                c = num(x) == num(y)
            return Val(TBool(), [c if op == "==" else z3.Not(c)])
        a, b = num(x), num(y)
        if op in ("<", ">", "<=", ">="):
            return Val(TBool(), [{"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]])
        T = self.ty(e, f)
        if isinstance(T, TBool) and op in ("&", "|", "^"):
            p, q = self.truth(x), self.truth(y)
            return Val(T, [{"&": z3.And(p, q), "|": z3.Or(p, q), "^": z3.Xor(p, q)}[op]])
        if not isinstance(T, TInt):
            if isinstance(x.T, TInt):
                T = x.T
            else:
                raise Unsupported("int op type %s" % T)
        return Val(T, [self.int_arith(op, a, b, T, e)])

    def int_arith(self, op, a, b, T, e):
        if op == "+":
            return self.arith_wrap(a + b, T)
        if op == "-":
            return self.arith_wrap(a - b, T)
        if op == "*":
            if z3.is_int_value(simp(a)) or z3.is_int_value(simp(b)):
                return self.arith_wrap(a * b, T)
            mul = self.externs.get("mul")
            t = mul(self, a, b) if mul and not T.signed else a * b
            if T.signed or self.valid(z3.And(t >= 0, t <= T.hi)):
                return t
            return t % (1 << T.bits)
        if op in ("/", "%"):
            self.oblige("division by zero", "safety", b != 0, e)
            if op == "/" and not T.signed and self.externs.get("div") and not z3.is_int_value(simp(b)):
                return self.externs["div"](self, a, b)
            if T.signed:
                if self.valid(z3.And(a >= 0, b > 0)):
                    return a / b if op == "/" else a % b
                q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
                q = z3.If((a >= 0) == (b >= 0), q, -q)
                return q if op == "/" else a - q * b
            return a / b if op == "/" else a % b
        sb = simp(b)
        if op in ("<<", ">>") and z3.is_int_value(sb):
            k = sb.as_long()
            if op == ">>":
                return a / (1 << k)
            t = a * (1 << k)
            return self.arith_wrap(t, T) if not T.signed else t
        if op == "&":
            sa = simp(a)
            if z3.is_int_value(sa):
                sa, sb = sb, sa
                a, b = b, a
            if z3.is_int_value(sb) and (sb.as_long() & (sb.as_long() + 1)) == 0:
                return a % (sb.as_long() + 1)
        if op in ("&", "|", "^", "<<", ">>"):
            W = T.bits
            x, y = z3.Int2BV(a, W), z3.Int2BV(b, W)
            r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": z3.LShR(x, y)}[op]
            if T.signed:
                return z3.BV2Int(r, True)
            return z3.BV2Int(r, False)
        raise Unsupported("integer operator " + op)

    def x_CompoundAssignOperator(self, e, f):
        op = e.get("opcode")[:-1]
        loc = self.lv(e.inner[0], f)
        y = self.ev(e.inner[1], f)
        v = self.load(loc)
        if isinstance(v, Iter):
            nv = self.iter_arith(op, v, y)
        else:
            cl = e.get("computeLHSType")
            CT = self.types.parse(cl.get("desugaredQualType", cl["qualType"]), f.scope) if cl else v.T
            if isinstance(v.T, TBool):
                p, q = self.truth(v), self.truth(y)
                nv = Val(v.T, [{"&": z3.And(p, q), "|": z3.Or(p, q), "^": z3.Xor(p, q)}[op]])
            elif not isinstance(CT, TInt):
                nv = Val(v.T, [self.uf("flop_%s" % ord(op[0]), [v.t[0], self.coerce(y, v.T).t[0]], v.T.leaves()[0])])
            else:
                a = self.coerce(v, CT).t[0]
                b = self.coerce(y, CT).t[0] if op not in ("<<", ">>") else y.t[0]
                nv = self.coerce(Val(CT, [self.int_arith(op, a, b, CT, e)]), v.T)
        self.write(loc, nv)
        return loc

    def x_ConditionalOperator(self, e, f):
        c, a, b = e.inner
        ct = simp(self.truth(self.ev(c, f)))
        # assert(): cond ? (void)0 : __assert_fail(...)
        if any(x.get("referencedDecl", {}).get("name") == "__assert_fail" for x in b.walk() if x.kind == "DeclRefExpr"):
            self.oblige("assert(%s)" % self.assert_text(b), "assert", ct, e)
            self.assume(ct)
            return VOID
        if z3.is_true(ct):
            return self.X(a, f)
        if z3.is_false(ct):
            return self.X(b, f)
        isl = e.get("valueCategory") == "lvalue"
        if not isl and "void" != e.qt:
            x = self.speculate(ct, lambda: self.ev(a, f))
            if x is not None and isinstance(x, Val):
                y = self.speculate(simp(z3.Not(ct)), lambda: self.ev(b, f))
                if y is not None and isinstance(y, Val) and x.T == y.T:
                    return ite(ct, x, y)
        if self.choose(ct):
            return self.X(a, f)
        return self.X(b, f)

    def assert_text(self, b):
        for x in b.walk():
            if x.kind == "StringLiteral":
                return x.get("value", "").strip('"')
        return "?"

    def x_ArraySubscriptExpr(self, e, f):
        p = self.ev(e.inner[0], f)
        i = self.ev(e.inner[1], f)
        if isinstance(p, Iter):
            return self.iter_loc(p.with_pos(simp(p.pos + i.t[0])))
        raise Unsupported("subscript of %s" % p)

    def x_LambdaExpr(self, e, f):
        rec = e.inner[0]
        fields = [c for c in rec.inner if c.kind == "FieldDecl"]
        inits = [c for c in e.inner[1:] if c.kind not in ("CompoundStmt",)]
        caps, capnames = {}, {}
        names = self.capture_names(e)
        for i, (fd, ini) in enumerate(zip(fields, inits)):
            nm, kind = names[i] if i < len(names) else (None, "implicit")
            byref = fd.qt.rstrip().endswith("&")
            if ini.kind == "CXXThisExpr":
                continue
            root = "c%d:%s:%d" % (f.id, e.id, i)
            # the captured variable's declaration, for simple captures
            did = None
            core = ini
            while core.kind in ("ImplicitCastExpr", "CXXConstructExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and core.inner:
                core = core.inner[0]
            if kind != "init" and core.kind == "DeclRefExpr":
                did = core.get("referencedDecl")["id"]
            if byref:
                v = Ref(self.lv(ini, f))
            else:
                v = self.ev(ini, f)
                if isinstance(v, Ref):
                    v = self.read(v.loc)
                try:
                    T = self.ty_decl(fd, f)
                    if isinstance(v, (InitL, StrLit, NullOpt, NullPtr)):
                        v = self.coerce(v, T)
                except Unsupported:
                    pass
            self.vars[root] = v
            if did is not None:
                caps[did] = root
            if kind == "init" and nm:
                capnames[nm] = root
        return Lam(e, f, (caps, capnames))

    def capture_names(self, e):
        """explicit capture list from the source text, in order"""
        b = e.d["range"]["begin"]
        off = b.get("offset")
        if off is None:
            b = b.get("expansionLoc", b.get("spellingLoc", {}))
            off = b.get("offset")
        try:
            txt = open(e.file, "rb").read()[off:off + 4000].decode("utf8", "replace")
        except Exception:
            return []
        if not txt.startswith("["):
            return []
        depth, j = 0, 0
        for j, ch in enumerate(txt):
            if ch in "[({<":
                depth += 1 if ch != "<" else 0
            elif ch in "])}":
                depth -= 1
                if depth == 0:
                    break
        inner = re.sub(r"//[^\n]*|/\*.*?\*/", "", txt[1:j], flags=re.S)
        out = []
        for c in split_args(inner):
            c = c.strip()
            if c in ("&", "=", ""):
                continue
            if c in ("this", "*this"):
                out.append((c, "this"))
                continue
            m = re.match(r"^(&?)\s*([A-Za-z_]\w*)\s*(=|\{|\()?", c)
            if m and m.group(3):
                out.append((m.group(2), "init"))
            elif m:
                out.append((m.group(2), "plain"))
        return out

    def x_InitListExpr(self, e, f):
        if "overloaded<" in e.qt.split("(")[0]:
            return Overload([self.ev(c, f) for c in e.inner])
        T = None
        try:
            T = self.ty(e, f)
        except Unsupported:
            pass
        if T is None:
            return InitL([self.X(c, f) for c in e.inner])
        if isinstance(T, (TInt, TBool, TEnum, TOpaque)) or (isinstance(T, TOpt) and len(e.inner) <= 1):
            if not e.inner or (isinstance(T, TOpaque) and not T.sortname.startswith("P_") and not e.inner[0].inner and e.inner[0].kind in ("InitListExpr", "ImplicitValueInitExpr")):
                return default(T)
            return self.coerce(self.ev(e.inner[0], f), T)
        if isinstance(T, TRec):
            if e.get("array_filler"):
                raise Unsupported("array filler")
            r = []
            kids = [c for c in e.inner]
            # aggregate initialisation; base classes come first
            fields = list(T.fields)
            nb = 0
            if T.node is not None and T.node.get("bases"):
                for bdesc in T.node.get("bases"):
                    bs = bdesc["type"].get("desugaredQualType", bdesc["type"]["qualType"])
                    bT = self.types.parse(bs, T.q)
                    if isinstance(bT, TRec) and nb < len(kids):
                        bv = self.coerce(self.ev(kids[nb], f), bT)
                        r += bv.t
                        fields = fields[len(bT.fields):]
                        nb += 1
            for (n, ft), c in zip(fields, kids[nb:]):
                if c.kind == "CXXDefaultInitExpr" and not c.inner:
                    r += self.member_init(T, n, ft).t
                    continue
                v = self.ev(c, f)
                r += self.coerce(v, ft).t
            for (n, ft) in fields[len(kids) - nb:]:
                r += default(ft).t
            return Val(T, r)
        if isinstance(T, TVec):
            v = default(T)
            if T.fixed is not None and len(e.inner) == 1 and e.inner[0].kind in ("InitListExpr", "ImplicitValueInitExpr") and e.inner[0].dqt.rstrip().endswith("]"):
                e = e.inner[0]      # the array inside a std::array
            if T.fixed is None:
                v = Val(T, [z3.IntVal(len(e.inner))] + list(v.t[1:]))
            for i, c in enumerate(e.inner):
                v = vec_set(v, z3.IntVal(i), self.coerce(self.ev(c, f), T.t))
            return v
        items = [self.ev(c, f) for c in e.inner]
        return self.init_list(T, items)

    def x_CXXStdInitializerListExpr(self, e, f):
        c = e.inner[0]
        while c.kind in ("MaterializeTemporaryExpr", "ExprWithCleanups", "ImplicitCastExpr"):
            c = c.inner[0]
        return InitL([self.ev(x, f) for x in c.inner])

    def init_list(self, T, items):
        if isinstance(T, TVec):
            v = default(T)
            v = Val(T, [z3.IntVal(len(items))] + list(v.t[1:]))
            for i, x in enumerate(items):
                v = vec_set(v, z3.IntVal(i), self.coerce(x, T.t))
            return v
        if isinstance(T, TSet):
            v = default(T)
            for x in items:
                x = self.coerce(x, T.k)
                nv = map_put(v, keyterm(T.k, x), None, x if T.extra() else None)
                self.card_store(v.t[0], nv.t[0], keyterm(T.k, x), True)
                v = nv
            return v
        if isinstance(T, TMap):
            v = default(T)
            for x in items:
                if isinstance(x, InitL):
                    k, w = x.items
                elif isinstance(x, Bundle):
                    k, w = x.items
                else:
                    k, w = field(x, "first"), field(x, "second")
                k = self.coerce(k, T.k)
                v = map_put(v, keyterm(T.k, k), self.coerce(w, T.v), k if T.extra() else None)
            return v
        if isinstance(T, TRec):
            r = []
            for (n, ft), x in zip(T.fields, items):
                r += self.coerce(x, ft).t
            for (n, ft) in T.fields[len(items):]:
                r += default(ft).t
            return Val(T, r)
        if isinstance(T, TOpt):
            if not items:
                return self.none(T)
            if len(items) == 1:
                return self.coerce(items[0], T)
            return self.some(T, self.init_list(T.t, items))
        if isinstance(T, TVar):
            if len(items) == 1:
                return self.coerce(items[0], T)
        if len(items) == 1:
            return self.coerce(items[0], T)
        if not items:
            return default(T)
        raise Unsupported("initialiser list for %s" % T)

    # ---- construction
    def x_CXXTemporaryObjectExpr(self, e, f):
        return self.x_CXXConstructExpr(e, f)

    def x_CXXConstructExpr(self, e, f):
        try:
            T = self.ty(e, f)
        except Unsupported:
            T = None
        ct = e.get("ctorType", {}).get("qualType", "")
        args = [a for a in e.inner if a.kind != "CXXDefaultArgExpr" or a.inner]
        s = e.dqt
        lk = self.lock_ctor(s, args, e, f)
        if lk is not None:
            return lk
        if T is None:
            raise Unsupported("construct " + s)
        if len(args) == 1 and e.inner and (e.get("elidable") or self.is_copy_move(ct, T, f)):
            r = self.X(args[0], f)
            if isinstance(r, Loc):
                self.read_guard(r)
                v = self.read(r)
                if "&&" in ct:
                    v = self.move_out(r, v, args[0], f)
            else:
                v = r
            if isinstance(v, (Lam, Iter, Ptr, Overload, NodeH, FnRef)):
                return v
            if isinstance(v, Bundle) and not isinstance(T, TRec):
                return v
            return self.coerce(v, T)
        return self.construct(T, [a for a in args], e, f)

    def is_copy_move(self, ct, T, f):
        m = re.match(r"^void \((.*)\)( noexcept.*)?$", ct)
        if not m:
            return False
        ps = split_args(m.group(1))
        if len(ps) != 1:
            return False
        p = strip_cv(ps[0])
        try:
            return self.types.parse(p, f.scope) == T and ps[0].rstrip().endswith("&")
        except (TypeErr, Unsupported):
            return False

    def move_out(self, loc, v, argexpr, f):
        """value moved from an lvalue: the source keeps an unspecified value"""
        loc = self.canon(loc)
        if loc.root.startswith("t") and not loc.path:
            return v
        if not isinstance(v, Val):
            return v
        if not self.is_moved(argexpr):
            return v
        self.havoc_moved(loc, v.T)
        return v

    def is_moved(self, e):
        for x in [e] + list(e.inner):
            k = x
            while k.kind in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ParenExpr", "CXXStaticCastExpr"):
                if k.kind == "CXXStaticCastExpr" and "&&" in k.qt:
                    return True
                if not k.inner:
                    break
                k = k.inner[0]
            if k.kind == "CallExpr":
                for d in k.inner[0].walk():
                    if d.kind == "DeclRefExpr" and d.get("referencedDecl", {}).get("name") in ("move", "forward"):
                        return True
            if k.kind == "CXXOperatorCallExpr" and k.get("valueCategory") == "xvalue":
                return True
            break
        return False

    def havoc_moved(self, loc, T):
        nv = self.moved_from(self.read(loc, check=False))
        if nv is not None:
            self.write(loc, nv, check=False)

    def moved_from(self, v):
        T = v.T
        if isinstance(T, (TInt, TBool, TEnum, TUnit)):
            return v
        if isinstance(T, TOpaque):
            if T.sortname in ("Hash",) or T.sortname.startswith("Real"):
                return v
            if T.sortname.startswith("P_"):
                return Val(T, [self.nullconst(T)])
            return self.fresh_val(T, "moved")
        if isinstance(T, TVec):
            if T.fixed is not None:
                return v
            return self.fresh_val(T, "moved")
        if isinstance(T, (TSet, TMap)):
            return self.fresh_val(T, "moved")
        if isinstance(T, TRec):
            r = []
            for n, ft in T.fields:
                r += self.moved_from(field(v, n)).t
            return Val(T, r)
        if isinstance(T, TOpt):
            return Val(T, (v.t[0],) + self.moved_from(v.val).t)
        if isinstance(T, TVar):
            r = [v.t[0]]
            for i in range(len(T.ts)):
                r += self.moved_from(v.alt(i)).t
            return Val(T, r)
        return v

    def lock_ctor(self, s, args, e, f):
        n, a = template(strip_cv(s))
        b = n.split("::")[-1]
        if b in ("unique_lock", "shared_lock", "lock_guard", "scoped_lock"):
            names = []
            deferred = False
            for x in args:
                try:
                    r = self.X(x, f)
                except Unsupported:
                    deferred = deferred or any(d.get("referencedDecl", {}).get("name") in ("defer_lock",) for d in x.walk())
                    continue
                if isinstance(r, Loc):
                    r = self.canon(r)
                    if any(d.get("referencedDecl", {}).get("name") in ("defer_lock",) for d in x.walk()):
                        deferred = True
                        continue
                    names.append(self.lock_name(r))
            if not deferred:
                for nm in names:
                    self.acquire(nm, e, shared=(b == "shared_lock"))
            return Val(TRec("lock:" + ",".join(names), []), [])
        return None

    def lock_name(self, loc):
        return ".".join([("this" if loc.root == getattr(self, "this_root", None) else loc.root)] + [str(s[1]) if s[0] == "f" else "[]" for s in loc.path])

    def is_recursive(self, nm, short):
        """the mutex is declared as a recursive one"""
        th = self.vars.get("this")
        node = th.T.node if isinstance(th, Val) and isinstance(th.T, TRec) and nm == "this." + short else None
        return node is not None and any(c.kind == "FieldDecl" and c.name == short and "recursive_" in c.qt for c in node.inner)

    def acquire(self, nm, e, shared=False):
        short = nm.split(".")[-1]
        if self.held.get(short) and not self.is_recursive(nm, short):
            self.oblige("relocking %s already held by this thread" % short, "lock", z3.BoolVal(False), e)
        self.held[short] = self.held.get(short, 0) + 1
        self.on_acquire(short)

    def on_acquire(self, short):
        h = self.externs.get("on_acquire")
        if h:
            h(self, short)

    def release(self, nm):
        short = nm.split(".")[-1]
        if self.held.get(short):
            if self.held[short] == 1:
                self.on_release(short)
            self.held[short] -= 1
            if not self.held[short]:
                del self.held[short]

    def on_release(self, short):
        h = self.externs.get("on_release")
        if h:
            h(self, short)

    def construct(self, T, args, e, f):
        """T(args...) with argument expressions"""
        vals = []
        for a in args:
            r = self.X(a, f)
            if isinstance(r, Loc):
                if isinstance(T, TRec) and T.node is not None:
                    vals.append(r)
                    continue
                if self.is_moved(a):
                    v = self.read(r)
                    self.move_out(r, v, a, f)
                    vals.append(v)
                    continue
                self.read_guard(r)
                r = self.load(r)
            vals.append(r)
        return self.construct_vals(T, vals, e, f)

    def construct_vals(self, T, vals, e=None, f=None):
        def rd(v):
            if isinstance(v, Loc):
                return self.read(v)
            if isinstance(v, Ref):
                return self.read(v.loc)
            return v
        if isinstance(T, TRec):
            ext = self.externs.get("ctor", {}).get(T.q)
            if ext:
                return ext(self, T, vals)
            if len(vals) == 1:
                v = rd(vals[0])
                if isinstance(v, Val) and v.T == T:
                    return v
            if T.q.startswith(("pair<", "tuple<")):
                if len(vals) == 0:
                    return default(T)
                if len(vals) == 1:
                    return self.coerce(rd(vals[0]), T)
                return self.coerce(Bundle([rd(v) for v in vals], [n for n, _ in T.fields]), T)
            return self.construct_rec(T, vals, e)
        vals = [rd(v) for v in vals]
        if isinstance(T, TVec):
            if not vals:
                return default(T)
            v0 = vals[0]
            if isinstance(v0, InitL):
                return self.init_list(T, v0.items)
            if isinstance(v0, StrLit):
                return self.coerce(v0, T)
            if isinstance(v0, Iter) and len(vals) >= 2:
                return self.vec_from_range(T, v0, vals[1])
            if isinstance(v0, Val) and isinstance(v0.T, TInt) and len(vals) <= 2:
                el = self.coerce(vals[1], T.t) if len(vals) == 2 else default(T.t)
                return Val(T, [v0.t[0]] + [z3.K(I, x) for x in el.t])
            return self.coerce(v0, T)
        if isinstance(T, (TSet, TMap)):
            if not vals or (isinstance(vals[0], Val) and isinstance(vals[0].T, TInt)):
                v = default(T)
                self.assume(card(v.t[0]) == 0)
                return v
            if isinstance(vals[0], InitL):
                return self.init_list(T, vals[0].items)
            if isinstance(vals[0], Iter):
                import lib
                return lib.set_union_range(self, default(T), vals[0], vals[1])
            return self.coerce(vals[0], T)
        if isinstance(T, TOpt):
            if not vals:
                return self.none(T)
            if len(vals) == 1:
                return self.coerce(vals[0], T)
            return self.some(T, self.construct_vals(T.t, vals[1:], e, f))
        if isinstance(T, TVar):
            if not vals:
                return self.inject(T, default(T.ts[0]), 0)
            return self.coerce(vals[0], T)
        if isinstance(T, TOpaque):
            ext = self.externs.get("ctor", {}).get(T.sortname)
            if ext:
                return ext(self, T, vals)
            if not vals:
                return default(T) if not T.sortname.startswith("P_") else Val(T, [self.nullconst(T)])
            if len(vals) == 1:
                return self.coerce(vals[0], T)
            hv = [v for v in vals if isinstance(v, Val)]
            if len(hv) == len(vals):
                ts = [t for v in hv for t in v.t]
                return Val(T, [self.uf("mk_%s_%d" % (T.sortname, len(ts)), ts, T.leaves()[0])])
            return self.fresh_val(T, "obj")
        if isinstance(T, (TInt, TBool, TEnum)):
            if not vals:
                return default(T)
            return self.coerce(vals[0], T)
        if isinstance(T, TUnit):
            return VOID
        raise Unsupported("construct %s" % T)

    def ctors(self, T):
        """constructor definitions of a record"""
        out = []
        for q, fs in self.prog.funcs.items():
            pass
        base = template(T.q)[0].split("::")[-1]
        for q in (T.q + "::" + base,):
            out += self.prog.funcs.get(q, [])
        if not out:
            # template specialisations: the constructor may be named name<args>
            pre = T.q + "::" + base
            for q, fs in self.prog.funcs.items():
                if q.startswith(pre + "<"):
                    out += fs
        return [c for c in out if c.kind == "CXXConstructorDecl"]

    def find_ctor_for(self, T, vals):
        """pick the constructor definition applicable to the argument values"""
        best = None
        for c in self.ctors(T):
            ps = params(c)
            if c.get("explicitlyDefaulted") or c.get("isImplicit"):
                continue
            if len(ps) < len(vals) or any(not p.inner for p in ps[len(vals):]):
                continue
            score = 0
            ok = True
            for p, v in zip(ps, vals):
                if isinstance(v, Loc):
                    v = self.read(v, check=False)
                if isinstance(v, Ref):
                    v = self.read(v.loc, check=False)
                try:
                    pt = self.types.parse(p.qt, T.q)
                except TypeErr:
                    ok = False
                    break
                if isinstance(v, Val):
                    if v.T == pt:
                        score += 2
                    else:
                        if pt == T:
                            ok = False
                            break
                        try:
                            self.coerce(v, pt)
                        except (Unsupported, RecursionError):
                            ok = False
                            break
                else:
                    try:
                        self.coerce(v, pt)
                    except Unsupported:
                        ok = False
                        break
            if ok and (best is None or score > best[0]):
                best = (score, c)
        return best[1] if best else None

    def construct_rec(self, T, vals, e):
        c = self.find_ctor_for(T, vals) if T.node is not None else None
        if c is None:
            if not vals:
                return self.default_rec(T)
            if T.node is not None and len(vals) <= len(T.fields):
                r = []
                for (n, ft), v in zip(T.fields, vals):
                    r += self.coerce(v if not isinstance(v, Ref) else self.read(v.loc), ft).t
                for (n, ft) in T.fields[len(vals):]:
                    r += default(ft).t
                return Val(T, r)
            raise Unsupported("no constructor of %s for %d args" % (T.q, len(vals)))
        return self.run_ctor(T, c, vals, e)

    def default_rec(self, T):
        """default construction honouring default member initialisers"""
        r = []
        inits = {}
        if T.node is not None:
            for c in T.node.inner:
                if c.kind == "FieldDecl" and c.get("hasInClassInitializer") and c.inner:
                    inits[c.name] = c
        for n, ft in T.fields:
            if n in inits:
                r += self.member_init(T, n, ft, inits[n]).t
            elif isinstance(ft, TRec) and ft.node is not None:
                c = self.find_ctor_for(ft, [])
                r += (self.run_ctor(ft, c, [], None) if c is not None else self.default_rec(ft)).t
            elif isinstance(ft, TOpaque) and ft.sortname.startswith("P_"):
                r += (self.nullconst(ft),)
            else:
                r += default(ft).t
        return Val(T, r)

    def member_init(self, T, n, ft, node=None):
        """the default member initialiser of field n"""
        if node is None and T.node is not None:
            node = next((c for c in T.node.inner if c.kind == "FieldDecl" and c.name == n and c.get("hasInClassInitializer") and c.inner), None)
        if node is None:
            raise Unsupported("default member initialiser of %s::%s" % (T.q, n))
        fr = Frame(("dmi", T.q, n), self.frame_ids, None, None, T.node, T.q, T.node.d.get("_tu", 0))
        return self.coerce(self.ev(node.inner[-1], fr), ft)

    def run_ctor(self, T, c, vals, e):
        chain = (self.callstack[-1].chain if self.callstack else ()) + ((e.id if isinstance(e, N) else "ctor:" + T.q),)
        root = "obj:%s:%s" % (T.q, abs(hash(chain)))
        fr = Frame(chain, self.frame_ids, Loc(root), None, c, T.q, c.d.get("_tu", 0))
        # constructor initialisers override default member initialisers
        v = self.default_rec_noinit(T)
        self.vars[root] = v
        self.bind_params(c, vals, fr, e)
        inits = [x for x in c.inner if x.kind == "CXXCtorInitializer"]
        done = set()
        self.callstack.append(fr)
        try:
            for x in inits:
                ai = x.get("anyInit")
                if ai:
                    fn = ai.get("name")
                    done.add(fn)
                    ini = x.inner[0]
                    if ini.kind == "CXXDefaultInitExpr" and not ini.inner:
                        val = self.member_init(T, fn, T.ft(fn))
                    else:
                        val = self.ev(ini, fr)
                    self.write(Loc(root, (("f", fn),)), self.coerce(val, T.ft(fn)), check=False)
                elif x.get("baseInit"):
                    bt = x.get("baseInit")
                    bT = self.types.parse(bt.get("desugaredQualType", bt["qualType"]), T.q)
                    if isinstance(bT, TRec) and bT.fields:
                        bv = self.coerce(self.ev(x.inner[0], fr), bT)
                        for n, _ in bT.fields:
                            self.write(Loc(root, (("f", n),)), field(bv, n), check=False)
            b = body(c)
            if b is not None:
                try:
                    self.S(b, fr)
                except Ret:
                    pass
        finally:
            self.callstack.pop()
        return self.vars[root]

    def default_rec_noinit(self, T):
        try:
            return self.default_rec(T)
        except Unsupported:
            return self.fresh_val(T, "uninitialised")   # whatever the constructor does not set is unknown

    # ---- calls
    def callee_name(self, ref, f):
        """qualified name and node of a function referred to by a DeclRefExpr"""
        r = ref.get("referencedDecl")
        node = self.prog.byid.get((f.tu, r.get("id")))
        q = node.d.get("_q") if node is not None else None
        return q or r.get("name"), node, r

    def definition(self, node):
        if node is None:
            return None
        if body(node) is not None:
            return node
        m = node.get("mangledName")
        if m and m in self.prog.mangled:
            return self.prog.mangled[m]
        return None

    def x_CallExpr(self, e, f):
        callee = e.inner[0]
        c = callee
        while c.kind in ("ImplicitCastExpr", "ParenExpr"):
            c = c.inner[0]
        args = e.inner[1:]
        if c.kind == "DeclRefExpr":
            q, node, r = self.callee_name(c, f)
            if r.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                return self.call_named(q, node, None, args, e, f, r)
            fv = self.ev(c, f)
            return self.call_value(fv, args, e, f)
        if c.kind in ("UnresolvedLookupExpr", "UnresolvedMemberExpr", "CXXDependentScopeMemberExpr"):
            raise Unsupported("dependent call at " + e.loc())
        if c.kind == "MemberExpr":
            return self.x_CXXMemberCallExpr(e, f)
        fv = self.ev(c, f)
        return self.call_value(fv, args, e, f)

    def call_named(self, q, node, this, args, e, f, r):
        nm = r.get("name") if r else q.split("::")[-1]
        ext = self.externs.get("fn", {})
        if q in ext:
            return ext[q](self, this, args, e, f)
        d = self.definition(node)
        if node is not None and q in self.contracts:
            n = d or node
            np = len(params(n))
            K = self.contracts.get((q, np)) or self.contracts[q]
            if K.nparams in (None, np):
                return self.apply_contract(K, n, this, args, e, f)
        if node is not None and d is None and node.get("explicitlyDefaulted"):
            pass
        if d is not None and q and q.startswith("cbdc"):
            return self.inline(d, this, args, e, f)
        if node is not None and q and q.startswith("cbdc"):
            raise Unsupported("no body, contract or trusted spec for %s at %s" % (q, e.loc()))
        import lib
        return lib.free_call(self, nm, args, e, f, r)

    def bind_params(self, fn, args, fr, e, argf=None):
        """bind parameters to argument expressions (N) or values"""
        ps = params(fn)
        for i, p in enumerate(ps):
            root = "f%d:%s" % (fr.id, p.id)
            self.root_name[root] = p.name
            t = p.qt.rstrip()
            isref = t.endswith("&")
            if i < len(args):
                a = args[i]
                if isinstance(a, N):
                    if a.kind == "CXXDefaultArgExpr" and not a.inner:
                        dft = self.definition_default(fn, i)
                        v = self.ev(dft, fr) if dft is not None else default(self.types.parse(t, fr.scope))
                    elif isref:
                        r = self.X(a, argf)
                        if isinstance(r, Loc):
                            self.read_guard(r) if t.startswith("const") else None
                            v = Ref(self.canon(r))
                        else:
                            v = r
                    else:
                        v = self.ev(a, argf)
                else:
                    v = a
                    if isref and isinstance(v, Loc):
                        v = Ref(self.canon(v))
                    elif isinstance(v, Loc):
                        v = self.read(v)
                    elif isinstance(v, Ref) and not isref:
                        v = self.read(v.loc)
            elif p.inner:
                v = self.ev(p.inner[-1], fr)
            else:
                dft = self.definition_default(fn, i)
                if dft is None:
                    raise Unsupported("missing argument %d of %s" % (i, fn.name))
                v = self.ev(dft, fr)
            if not isinstance(v, (Ref,)):
                try:
                    T = self.types.parse(t, fr.scope)
                except TypeErr:
                    T = None
                if T is not None and not isinstance(v, (Lam, Overload, Iter, NodeH, FnRef, Ptr, Bundle)) and not (isinstance(T, TOpaque) and T.sortname.startswith("X_")):
                    v = self.coerce(v, T)
                elif isinstance(v, (Lam, FnRef)) and isinstance(T, TOpaque) and T.sortname == "Fn":
                    v = self.fn_value(v, T)
                elif isinstance(v, Bundle) and T is not None and not (isinstance(T, TOpaque)) and not any(isinstance(x, (Iter, Lam, Ptr)) for x in v.items):
                    v = self.coerce(v, T)
            self.vars[root] = v
            for rec, roots, entry in self.loopstack:
                roots.discard(root)

    def definition_default(self, fn, i):
        m = fn.get("mangledName")
        for n in self.prog.byid.values():
            if n.kind in front.FUNC_KINDS and n.get("mangledName") == m and n is not fn:
                ps = params(n)
                if i < len(ps) and ps[i].inner:
                    return ps[i].inner[-1]
        return None

    def inline(self, d, this, args, e, f, caps=None, parent=None):
        q = d.d.get("_q", d.name)
        chain = f.chain + (e.id if isinstance(e, N) else str(e),)
        if len(chain) > 60:
            raise Unsupported("recursion through " + q)
        fr = Frame(chain, self.frame_ids, this, parent, d, d.d.get("_scope", f.scope), d.d.get("_tu", f.tu),
                   caps[0] if caps else None, caps[1] if caps else None)
        if parent is None and q and not q.startswith("("):
            self.inlined.add(q)
        self.bind_params(d, args, fr, e, f)
        return self.run_body(d, fr)

    def run_body(self, d, fr):
        self.callstack.append(fr)
        try:
            self.S(body(d), fr)
            r = VOID
        except Ret as x:
            r = x.v
        finally:
            self.callstack.pop()
        # result conversion
        rt = self.ret_type(d)
        if rt is not None and not isinstance(r, Loc) and not isinstance(r, Void):
            if not (rt.rstrip().endswith("&")):
                try:
                    T = self.types.parse(rt, fr.scope)
                    if not isinstance(T, TUnit) and not (isinstance(T, TOpaque) and T.sortname.startswith("X_")) and not isinstance(r, (Iter, Lam, Ptr, NodeH)):
                        r = self.coerce(r, T)
                except TypeErr:
                    pass
        return r

    def ret_type(self, d):
        t = d.qt
        m = re.search(r"->\s*(.*)$", t)
        if m:
            return m.group(1)
        depth = 0
        for i, ch in enumerate(t):
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif ch == "(" and depth == 0:
                r = t[:i].strip()
                return None if r == "auto" else r
        return None

    def ret_is_ref(self, d):
        rt = self.ret_type(d)
        return rt is not None and rt.rstrip().endswith("&")

    def call_lambda(self, lam, args, e, f, inst=None):
        rec = lam.node.inner[0]
        op = None
        insts = []
        for c in rec.inner:
            if c.kind == "CXXMethodDecl" and c.name == "operator()":
                op = c
            if c.kind == "FunctionTemplateDecl" and c.name == "operator()":
                ms = [m for m in c.inner if m.kind == "CXXMethodDecl"]
                insts = [m for m in ms if "auto" not in (params(m)[0].qt if params(m) else "") and body(m) is not None]
        if inst is not None and body(inst) is not None:
            op = inst
        elif insts:
            op = self.pick_inst(insts, args, f)
        if op is None or body(op) is None:
            raise Unsupported("lambda body")
        chain = f.chain + ((e.id if isinstance(e, N) else str(e)), lam.node.id)
        fr = Frame(chain, self.frame_ids, None, lam.frame, op, lam.frame.scope, lam.frame.tu, lam.caps[0], lam.caps[1])
        self.bind_params(op, args, fr, e, f)
        return self.run_body(op, fr)

    def pick_inst(self, insts, args, f):
        if len(insts) == 1 or not args:
            return insts[0]
        vs = []
        for a in args:
            v = self.X(a, f) if isinstance(a, N) else a
            if isinstance(v, Loc):
                v = self.read(v, check=False)
            if isinstance(v, Ref):
                v = self.read(v.loc, check=False)
            vs.append(v)
        for m in insts:
            ok = True
            for p, v in zip(params(m), vs):
                try:
                    if isinstance(v, Val) and self.types.parse(p.qt, f.scope) != v.T:
                        ok = False
                except TypeErr:
                    ok = False
            if ok:
                return m
        return insts[0]

    def call_value(self, fv, args, e, f, inst=None):
        """call through a function object"""
        if isinstance(fv, Loc):
            fv = self.read(fv)
        if isinstance(fv, Ref):
            fv = self.read(fv.loc)
        if isinstance(fv, Lam):
            return self.call_lambda(fv, args, e, f, inst)
        if isinstance(fv, FnRef):
            q, node, r = self.callee_name(fv.ref, f)
            return self.call_named(q, node, None, args, e, f, r)
        if isinstance(fv, Val) and isinstance(fv.T, TOpaque):
            hit = self.fnmap.get(fv.t[0].get_id())
            if hit is not None and hit[1].eq(fv.t[0]):
                return self.call_value(hit[0], args, e, f)
            vals = [self.arg_value(a, f) for a in args]
            hook = self.externs.get("on_call")
            if hook:
                r = hook(self, fv, vals, e, f)
                if r is not None:
                    return r
            self.events.append(("call", fv, vals))
            self.assumed.add("callbacks passed in by callers do not re-enter the object under verification")
            try:
                T = self.ty(e, f)
            except Unsupported:
                return VOID
            if isinstance(T, TUnit):
                return VOID
            return self.fresh_val(T, "cbret")
        raise Unsupported("call of %s" % fv)

    def arg_value(self, a, f):
        v = self.ev(a, f) if isinstance(a, N) else a
        if isinstance(v, Ref):
            v = self.read(v.loc)
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(v, (Lam, FnRef)):
            return v
        if isinstance(v, Bundle):
            return v
        return v

    # ---- member calls
    def bound(self, e, f):
        base = e.inner[0]
        return Bound(base, e)

    def x_CXXMemberCallExpr(self, e, f):
        me = e.inner[0]
        while me.kind in ("ParenExpr", "ImplicitCastExpr"):
            me = me.inner[0]
        if me.kind != "MemberExpr":
            raise Unsupported("member call through " + me.kind)
        args = [a for a in e.inner[1:]]
        base = me.inner[0]
        nm = me.name
        # logging calls have no effect on verified state (fatal terminates the process)
        if self.is_logger(base):
            self.assumed.add("logging calls do not modify program state; log::fatal does not return")
            if nm == "fatal":
                raise PathEnd()
            return VOID
        if nm == "get" and not args and re.match(r"(const )?(std::)?future<", base.qt):
            # a future is modelled as the value it will deliver
            return self.ev(base, f)
        if me.get("isArrow"):
            p = self.ev(base, f)
            if isinstance(p, Val) and isinstance(p.T, TOpaque):
                k = ("ptr", p.t[0].get_id())
                if k in self.fnmap:
                    obj = self.fnmap[k][0].loc
                elif p.T.sortname in self.externs.get("heap", {}) and nm not in ("get", "reset"):
                    obj = self.deref(p, e, f)
                else:
                    return self.method_on_opaque(p, nm, me, args, e, f)
            else:
                obj = self.deref(p, e, f)
        else:
            obj = self.X(base, f)
        return self.method(obj, nm, me, args, e, f)

    def is_logger(self, base):
        for x in [base] + list(base.walk()):
            s = x.dqt + x.qt
            if "logging::log" in s.replace("logging::log_level", ""):
                return True
            if x.kind in ("CXXMemberCallExpr", "CallExpr"):
                return False
        return False

    # ---- std::atomic members with a rely/guarantee specification: other threads may step before every access
    def atomic_spec(self, loc):
        at = self.externs.get("atomic")
        return at.get(loc.path[-1][1]) if at and loc.path and loc.path[-1][0] == "f" else None

    def atomic_step(self, at, obj, e, op):
        cur = self.read(obj)
        nv = self.fresh_val(cur.T, "atomic")
        self.wf(nv)
        self.assume(at["rely"](self, cur, nv))
        self.write(obj, nv)
        r = op(nv)
        new = self.read(obj)
        if not all(a.eq(b) for a, b in zip(new.t, nv.t)):
            at["guar"](self, nv, new, e)
        return r

    def method(self, obj, nm, me, args, e, f):
        if isinstance(obj, (Val, Bundle)) and not isinstance(obj, Loc):
            if isinstance(obj, Val) and isinstance(obj.T, TOpaque):
                return self.method_on_opaque(obj, nm, me, args, e, f)
            obj = self.temp(obj, e, f)
        if isinstance(obj, Loc):
            obj = self.canon(obj)
            at = self.atomic_spec(obj)
            if at:
                import lib
                return self.atomic_step(at, obj, e, lambda cur: lib.member_call(self, obj, cur, nm, args, e, f))
        cur = self.read(obj, check=True) if isinstance(obj, Loc) else obj
        if isinstance(cur, Ref):
            obj = cur.loc
            cur = self.read(obj)
        if isinstance(cur, Val) and isinstance(cur.T, TRec) and (cur.T.node is not None):
            node = self.prog.byid.get((f.tu, me.get("referencedMemberDecl")))
            q = node.d.get("_q") if node is not None else None
            if node is None:
                # inherited library member
                ext = self.externs.get("method", {}).get((cur.T.q, nm))
                if ext:
                    return ext(self, obj, args, e, f)
                raise Unsupported("member %s of %s" % (nm, cur.T.q))
            # devirtualise: the dynamic type is the static record type of the object
            if node.get("virtual") or self.definition(node) is None:
                alt = cur.T.q + "::" + nm
                if alt in self.contracts or alt in self.prog.funcs:
                    cands = [x for x in self.prog.funcs.get(alt, []) if len(params(x)) == len(params(node))]
                    if cands:
                        node = cands[0]
                        q = alt
            return self.call_named(q, node, obj, args, e, f, {"name": nm})
        if isinstance(cur, Val) and isinstance(cur.T, TOpaque):
            return self.method_on_opaque(cur, nm, me, args, e, f, obj)
        if isinstance(cur, Val) and isinstance(cur.T, TRec) and cur.T.q.startswith("lock:"):
            names = [x for x in cur.T.q[5:].split(",") if x]
            if nm == "unlock":
                for n_ in names:
                    self.release(n_)
                return VOID
            if nm == "lock":
                for n_ in names:
                    self.acquire(n_, e)
                return VOID
            if nm == "owns_lock":
                return Val(TBool(), [z3.BoolVal(all(self.held.get(n_.split(".")[-1]) for n_ in names))])
        import lib
        self.read_guard(obj) if isinstance(obj, Loc) else None
        return lib.member_call(self, obj, cur, nm, args, e, f)

    def method_on_opaque(self, p, nm, me, args, e, f, loc=None):
        if not args and (nm.startswith("operator ") or nm == "get"):
            # reference_wrapper<K> is modelled as K
            try:
                if self.types.parse(nm[9:] if nm != "get" else e.qt, f.scope) == p.T:
                    return loc if loc is not None else p
            except TypeErr:
                pass
        node = self.prog.byid.get((f.tu, me.get("referencedMemberDecl"))) if me.get("referencedMemberDecl") else None
        q = node.d.get("_q") if node is not None else None
        ext = self.externs.get("fn", {})
        if q in ext:
            return ext[q](self, p if loc is None else loc, args, e, f)
        key = (p.T.sortname, nm)
        ms = self.externs.get("method", {})
        if key in ms:
            return ms[key](self, p if loc is None else loc, args, e, f)
        if nm in ("get",) and p.T.sortname.startswith("P_"):
            return p
        if nm in ("operator bool",):
            return Val(TBool(), [self.truth(p)])
        if nm == "reset" and loc is not None and p.T.sortname.startswith("P_"):
            self.write(loc, Val(p.T, [self.nullconst(p.T)]))
            return VOID
        if nm in ("load",):
            return p
        import lib
        r = lib.opaque_method(self, p, loc, nm, args, e, f, q)
        if r is not None:
            return r
        raise Unsupported("method %s on opaque %s (%s) at %s" % (nm, p.T.sortname, q, e.loc()))

    def x_CXXOperatorCallExpr(self, e, f):
        c = e.inner[0]
        while c.kind in ("ImplicitCastExpr", "ParenExpr"):
            c = c.inner[0]
        r = c.get("referencedDecl", {})
        nm = r.get("name", "")
        args = e.inner[1:]
        node = self.prog.byid.get((f.tu, r.get("id")))
        import lib
        if nm == "operator()":
            fv = self.X(args[0], f)
            if isinstance(fv, Loc):
                fv = self.read(fv)
            if isinstance(fv, Ref):
                fv = self.read(fv.loc)
            if isinstance(fv, Val) and isinstance(fv.T, TRec) and node is not None:
                obj = self.lv(args[0], f)
                return self.call_named(node.d.get("_q"), node, obj, args[1:], e, f, r)
            if isinstance(fv, Val) and isinstance(fv.T, TOpaque) and fv.T.sortname in self.externs.get("callable", {}):
                return self.externs["callable"][fv.T.sortname](self, fv, args[1:], e, f)
            return self.call_value(fv, args[1:], e, f, inst=node)
        if self.externs.get("atomic") and args and "atomic" in args[0].dqt + args[0].qt:
            obj = self.canon(self.lv(args[0], f))
            at = self.atomic_spec(obj)
            if at:
                return self.atomic_step(at, obj, e, lambda cur: self.atomic_op(nm, obj, cur, args, e, f))
        if node is not None and node.d.get("_q", "").startswith("cbdc"):
            q = node.d["_q"]
            # user-defined operator
            if nm == "operator=" and (node.get("isImplicit") or node.get("explicitlyDefaulted") or self.definition(node) is None):
                return self.assign(args[0], args[1], e, f)
            if nm in ("operator==", "operator!=") and self.opts.get("structural_eq"):
                pass
            d = self.definition(node)
            if q in self.externs.get("fn", {}) or q in self.contracts or d is not None:
                eqn = self.op_on_opaque(nm, args, f)
                if eqn is not None:
                    return eqn
                if node.kind == "CXXMethodDecl":
                    obj = self.X(args[0], f)
                    if not isinstance(obj, Loc):
                        obj = self.temp(obj, e, f)
                    return self.call_named(q, node, self.canon(obj), args[1:], e, f, r)
                return self.call_named(q, node, None, args, e, f, r)
            eqn = self.op_on_opaque(nm, args, f)
            if eqn is not None:
                return eqn
        if nm == "operator=":
            return self.assign(args[0], args[1], e, f)
        return lib.operator_call(self, nm, args, e, f)

    def atomic_op(self, nm, obj, cur, args, e, f):
        T = cur.T
        if nm in ("operator++", "operator--"):
            d, post = z3.IntVal(1 if nm == "operator++" else -1), len(args) == 2
        elif nm in ("operator+=", "operator-="):
            d, post = self.ev(args[1], f).t[0], False
            d = d if nm == "operator+=" else -d
        elif nm == "operator=":
            v = self.coerce(self.ev(args[1], f), T)
            self.write(obj, v)
            return v
        else:
            raise Unsupported("atomic %s" % nm)
        v = Val(T, [self.arith_wrap(cur.t[0] + d, T)])
        self.write(obj, v)
        return cur if post else v

    def op_on_opaque(self, nm, args, f):
        if nm in ("operator==", "operator!=", "operator<") and len(args) == 2:
            x = self.X(args[0], f)
            xv = self.read(x, check=False) if isinstance(x, Loc) else x
            if isinstance(xv, Val) and (isinstance(xv.T, TOpaque) or (isinstance(xv.T, TRec) and xv.T.eqproj)):
                xv = self.read(x) if isinstance(x, Loc) else x
                yv = self.ev(args[1], f)
                if nm == "operator<":
                    return Val(TBool(), [self.uf("lt_" + xv.T.sortname, [xv.t[0], yv.t[0]], B)])
                c = self.equal(xv, yv)
                return Val(TBool(), [c if nm == "operator==" else z3.Not(c)])
        return None

    def assign(self, a, b, e, f):
        # evaluation order: right operand first (C++17)
        r = self.X(b, f)
        src = None
        if isinstance(r, Loc):
            src = self.canon(r)
            self.read_guard(src)
            v = self.read(src)
        else:
            v = r
        # std::tie(...) = ...
        loc = self.X(a, f)
        if isinstance(loc, Bundle):
            for i, (it, n) in enumerate(zip(loc.items, loc.names)):
                part = v.items[i] if isinstance(v, Bundle) else field(v, v.T.fields[i][0])
                if isinstance(part, Ref):
                    part = self.read(part.loc)
                if isinstance(it, Ref):
                    self.write(it.loc, self.coerce(part, self.read(it.loc, check=False).T))
            return loc
        if not isinstance(loc, Loc):
            loc = self.temp(loc, a, f)
        loc = self.canon(loc)
        if src is not None and self.is_moved(b):
            self.havoc_moved(src, v.T) if isinstance(v, Val) else None
        cur = self.vars.get(loc.root) if not loc.path else self.read(loc, check=False)
        if isinstance(cur, Val) and not isinstance(v, (Iter,)):
            v = self.coerce(v, cur.T)
        self.write(loc, v)
        return loc

    def x_CXXThrowExpr(self, e, f):
        raise Thrown(None, e)

    def x_CXXNewExpr(self, e, f):
        raise Unsupported("new")

    # ================================================================ statements
    def S(self, s, f):
        if s is None or not s.kind:
            return
        if s.line:
            self.cur = s
        m = getattr(self, "s_" + s.kind, None)
        if m is not None:
            return m(s, f)
        self.X(s, f)

    def s_CompoundStmt(self, s, f):
        held = dict(self.held)
        mine = []
        self.scopes = getattr(self, "scopes", [])
        try:
            for c in s.inner:
                if c.kind == "DeclStmt":
                    before = dict(self.held)
                    self.S(c, f)
                    for k, n in self.held.items():
                        if n > before.get(k, 0):
                            mine.append(k)
                else:
                    self.S(c, f)
        finally:
            # RAII: locks declared in this block are released when it is left
            for k in mine:
                if self.held.get(k):
                    if self.held[k] == 1 and (sys.exc_info()[0] is None or issubclass(sys.exc_info()[0], Ctl)):
                        self.on_release(k)
                    self.held[k] -= 1
                    if not self.held[k]:
                        del self.held[k]

    def s_NullStmt(self, s, f):
        pass

    def s_DeclStmt(self, s, f):
        for d in s.inner:
            self.decl(d, f)

    def decl(self, d, f):
        if d.kind in ("TypedefDecl", "TypeAliasDecl", "CXXRecordDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl", "EnumDecl", "FunctionDecl", "EmptyDecl"):
            return
        if d.kind == "DecompositionDecl":
            return self.decompose(d, f)
        if d.kind != "VarDecl":
            raise Unsupported("declaration " + d.kind)
        root = "f%d:%s" % (f.id, d.id)
        self.root_name[root] = d.name
        t = d.qt.rstrip()
        for rec, roots, entry in self.loopstack:
            roots.discard(root)
        if t.endswith("&"):
            r = self.X(d.inner[-1], f)
            if isinstance(r, Loc):
                r = self.canon(r)
                rv = self.vars.get(r.root)
                if isinstance(rv, Bundle) and not r.path:
                    self.vars[root] = rv
                else:
                    self.vars[root] = Ref(r)
            else:
                # const reference bound to a temporary
                self.vars[root] = r if not isinstance(r, (NullOpt, NullPtr, InitL, StrLit)) else self.coerce(r, self.ty_decl(d, f))
            return
        if d.inner and d.get("init"):
            v = self.ev(d.inner[-1], f)
        else:
            T = self.ty_decl(d, f)
            v = self.default_rec(T) if isinstance(T, TRec) and T.node is not None else (self.fresh_val(T, d.name) if isinstance(T, (TInt, TBool, TEnum)) else self.construct_vals(T, []) if not isinstance(T, TUnit) else Val(T, []))
        if isinstance(v, Val) and v.T.name.startswith("rec lock:"):
            self.vars[root] = v
            return
        if isinstance(v, (Void,)):
            v = Val(TUnit(), [])
        if not isinstance(v, (Lam, Iter, Ptr, NodeH, Overload, FnRef)):
            if isinstance(v, Bundle):
                if any(isinstance(x, (Iter, Lam, Ptr)) for x in v.items):
                    self.vars[root] = v
                    return
            T = self.ty_decl(d, f)
            if isinstance(T, TOpaque) and T.sortname.startswith("X_") and isinstance(v, Val):
                pass
            else:
                v = self.coerce(v, T)
        elif isinstance(v, (Lam, FnRef)):
            try:
                T = self.ty_decl(d, f)
                if isinstance(T, TOpaque) and T.sortname == "Fn":
                    v = self.fn_value(v, T)
            except Unsupported:
                pass
        self.vars[root] = v

    def decompose(self, d, f):
        byref = d.qt.rstrip().endswith("&")
        init = None
        binds = []
        for c in d.inner:
            if c.kind == "BindingDecl":
                binds.append(c)
            elif init is None:
                init = c
        r = self.X(init, f)
        src = None
        if isinstance(r, Loc):
            v = self.read(r, check=True)
            src = self.canon(r)
        else:
            v = r
        if isinstance(v, Ref):
            src = self.canon(v.loc)
            v = self.read(src)
        root = "f%d:%s" % (f.id, d.id)
        for rec, roots, entry in self.loopstack:
            roots.discard(root)
        if not isinstance(v, Bundle):
            if not byref or src is None:
                self.vars[root] = v
                src = Loc(root)
            names = [n for n, _ in v.T.fields]
        else:
            names = v.names
        for i, b in enumerate(binds):
            br = "f%d:%s" % (f.id, b.id)
            self.root_name[br] = b.name
            for rec, roots, entry in self.loopstack:
                roots.discard(br)
            if isinstance(v, Bundle):
                it = v.items[i]
                if not byref and isinstance(it, Ref):
                    it = self.read(it.loc)
                self.vars[br] = it
            else:
                self.vars[br] = Ref(src + ("f", names[i]))
            # tuple-like bindings are referred to through a hidden variable as well
            for h in b.walk():
                if h.kind == "VarDecl":
                    self.vars["f%d:%s" % (f.id, h.id)] = self.vars[br]
                if h.kind == "DeclRefExpr" and h.get("referencedDecl", {}).get("kind") == "VarDecl" and h.get("referencedDecl", {}).get("name") in ("", None):
                    self.vars["f%d:%s" % (f.id, h.get("referencedDecl")["id"])] = self.vars[br]

    def s_ReturnStmt(self, s, f):
        if not s.inner:
            raise Ret(VOID)
        fn = f.fn
        if fn is not None and fn.kind in front.FUNC_KINDS and self.ret_is_ref(fn):
            r = self.X(s.inner[0], f)
            if isinstance(r, Loc):
                r = self.canon(r)
            raise Ret(r)
        v = self.ev(s.inner[0], f)
        if isinstance(v, Ref):
            v = self.read(v.loc)
        raise Ret(v)

    def s_BreakStmt(self, s, f):
        raise Brk()

    def s_ContinueStmt(self, s, f):
        raise Cont()

    def cond(self, e, f):
        return self.truth(self.ev(e, f))

    def s_IfStmt(self, s, f):
        kids = list(s.inner)
        held = dict(self.held)
        if s.get("hasInit"):
            self.S(kids.pop(0), f)
        if s.get("hasVar"):
            self.S(kids.pop(0), f)
        c = simp(self.cond(kids[0], f))
        th = kids[1]
        el = kids[2] if len(kids) > 2 else None
        if s.get("isConstexpr"):
            if z3.is_true(c):
                return self.S(th, f)
            if z3.is_false(c):
                return self.S(el, f) if el is not None else None
        if not (z3.is_true(c) or z3.is_false(c)) and self.opts.get("merge_ifs", True):
            if self.merge_if(c, th, el, f):
                return
        if self.choose(c):
            self.S(th, f)
        elif el is not None:
            self.S(el, f)

    def merge_if(self, c, th, el, f):
        """if both branches are straight-line (no fork, no jump), join them with ite"""
        if not self.simple_branch(th) or (el is not None and not self.simple_branch(el)):
            return False
        if self.nofork == 0:
            # skip when one side is infeasible
            pass
        r1 = self.branch_state(c, th, f)
        if r1 is None:
            return False
        r2 = self.branch_state(simp(z3.Not(c)), el, f) if el is not None else dict(self.vars)
        if r2 is None:
            return False
        keys = set(r1) | set(r2)
        base = self.vars
        out = {}
        for k in keys:
            a, b = r1.get(k), r2.get(k)
            if a is b:
                continue
            if a is None or b is None:
                out[k] = a if a is not None else b
                continue
            if isinstance(a, Val) and isinstance(b, Val) and a.T == b.T:
                out[k] = ite(c, a, b)
            elif k in base:
                if k.startswith(("t", "it:")):
                    continue
                return False
            else:
                out[k] = a
        for k, v in out.items():
            self.set_root(k, v)
        return True

    def simple_branch(self, s):
        n = 0
        for x in s.walk():
            n += 1
            if x.kind in ("ReturnStmt", "BreakStmt", "ContinueStmt", "ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt",
                          "CXXThrowExpr", "SwitchStmt", "LambdaExpr"):
                return False
        return n < 150

    def branch_state(self, guard, s, f):
        saved = (dict(self.vars), list(self.pc), set(self.pcset), dict(self.held), len(self.events),
                 self.seq, set(self.memo), dict(self.enums), self.fresh_n)
        okeys = set(self.obls)
        dirty0 = self.dirty
        self.nofork += 1
        self.qs = None
        ok = False
        try:
            self.assume(guard)
            try:
                self.S(s, f)
                ok = True
            except (NeedFork, PathEnd, Ctl):
                ok = False
        finally:
            self.nofork -= 1
        if len(self.events) != saved[4] or self.held != saved[3]:
            ok = False
        newvars = self.vars
        facts = self.pc[len(saved[1]):]
        self.vars, self.pc, self.pcset, self.held = saved[0], saved[1], saved[2], saved[3]
        self.memo, self.enums = saved[6], saved[7]
        del self.events[saved[4]:]
        self.qs = None
        if not ok:
            self.seq = saved[5]
            for k in set(self.obls) - okeys:
                del self.obls[k]
            return None
        for q in facts:
            if q.eq(guard):
                continue
            self.assume(z3.Implies(guard, q))
        return newvars

    def s_SwitchStmt(self, s, f):
        kids = [c for c in s.inner]
        v = self.ev(kids[-2], f)
        bodyn = kids[-1]
        # flatten the cases
        seq = []
        def flat(n):
            if n.kind in ("CaseStmt", "DefaultStmt"):
                if n.kind == "CaseStmt":
                    seq.append(("case", n.inner[0]))
                    flat(n.inner[1])
                else:
                    seq.append(("default", None))
                    flat(n.inner[0])
            else:
                seq.append(("stmt", n))
        for c in bodyn.inner:
            flat(c)
        start = None
        dflt = None
        for i, (k, n) in enumerate(seq):
            if k == "default":
                dflt = i
            if k == "case":
                cv = self.ev(n, f)
                if self.choose(v.t[0] == cv.t[0]):
                    start = i
                    break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for k, n in seq[start:]:
                if k == "stmt":
                    self.S(n, f)
        except Brk:
            pass

    def s_CXXTryStmt(self, s, f):
        try:
            self.S(s.inner[0], f)
        except Thrown:
            for h in s.inner[1:]:
                if h.kind == "CXXCatchStmt":
                    self.S(h.inner[-1], f)
                    return
            raise

    def s_AttributedStmt(self, s, f):
        self.S(s.inner[-1], f)

    # ---- loops
    def s_WhileStmt(self, s, f):
        cond, bd = s.inner[-2], s.inner[-1]
        self.loop(s, f, lambda: self.cond(cond, f), lambda: self.S(bd, f), None)

    def s_DoStmt(self, s, f):
        bd, cond = s.inner[0], s.inner[1]
        try:
            self.S(bd, f)
        except Brk:
            return
        except Cont:
            pass
        self.loop(s, f, lambda: self.cond(cond, f), lambda: self.S(bd, f), None)

    def s_ForStmt(self, s, f):
        raw = s.d.get("inner", [])
        # clang prints {} for absent parts: init, condvar, cond, inc, body
        it = iter(s.inner)
        parts = []
        for c in raw:
            parts.append(next(it) if c else None)
        init, _, cond, inc, bd = parts[0], parts[1], parts[2], parts[3], parts[4]
        if init is not None:
            self.S(init, f)
        self.loop(s, f, (lambda: self.cond(cond, f)) if cond is not None else (lambda: z3.BoolVal(True)),
                  lambda: self.S(bd, f), (lambda: self.X(inc, f)) if inc is not None else None)

    def s_CXXForRangeStmt(self, s, f):
        kids = [c for c in s.inner]
        # [init] range, begin, end, cond, inc, loopvar, body
        decls = [c for c in kids if c.kind == "DeclStmt"]
        rng = None
        for c in decls:
            if c.inner and c.inner[0].name.startswith("__range"):
                rng = c.inner[0]
        loopvar = decls[-1].inner[0]
        bd = kids[-1]
        if decls and decls[0].inner[0] is not rng and not decls[0].inner[0].name.startswith("__"):
            self.S(decls[0], f)
        r = self.X(rng.inner[-1], f)
        if isinstance(r, InitL):
            self.unroll_items(r.items, loopvar, bd, f)
            return
        if not isinstance(r, Loc):
            r = self.temp(r, rng, f)
        cl = self.canon(r)
        self.read_guard(cl)
        cv = self.read(cl)
        if isinstance(cv, Bundle):
            raise Unsupported("range over bundle")
        if isinstance(cv.T, TOpaque):
            hook = self.externs.get("range", {}).get(cv.T.sortname)
            if not hook and cv.T.sortname in self.externs.get("range_fill", ()):
                return self.fill_opaque(cl, cv, loopvar, bd, f)
            if not hook:
                raise Unsupported("range over opaque " + cv.T.sortname)
            cv = hook(self, cv)
            cl = self.temp(cv, rng, f)
        en = self.mk_enum(cv)
        nlit = simp(en.n)
        if z3.is_int_value(nlit) and nlit.as_long() <= self.opts.get("unroll", 8):
            for i in range(nlit.as_long()):
                self.bind_loopvar(loopvar, Iter(cl, cv.T, "pos", pos=z3.IntVal(i), enum=en), f)
                try:
                    self.S(bd, f)
                except Brk:
                    break
                except Cont:
                    pass
            return
        proot = "p%d:%s" % (f.id, s.id)
        self.vars[proot] = Val(TInt(64, False), [z3.IntVal(0)])
        self.root_name[proot] = "<pos>"

        def c():
            return self.vars[proot].t[0] < en.n

        def b():
            self.bind_loopvar(loopvar, Iter(cl, cv.T, "pos", pos=self.vars[proot].t[0], enum=en), f)
            self.S(bd, f)

        def step():
            now = self.read(cl, check=False)
            if isinstance(cv.T, TVec):
                if not now.t[0].eq(cv.t[0]):
                    self.oblige("container not resized while iterated", "safety", now.t[0] == cv.t[0], s)
            elif not now.t[0].eq(cv.t[0]):
                ks = keysort(cv.T.k)
                self.oblige("container keys unchanged while iterated", "safety", now.t[0] == cv.t[0], s)
            self.set_root(proot, Val(TInt(64, False), [self.vars[proot].t[0] + 1]))
        self.loop(s, f, c, b, step, posroot=proot, enum=en, cloc=cl)

    def unroll_items(self, items, lv, bd, f):
        for it in items:
            root = "f%d:%s" % (f.id, lv.id)
            self.vars[root] = it
            try:
                self.S(bd, f)
            except Brk:
                break
            except Cont:
                pass

    def bind_loopvar(self, lvd, it, f):
        loc = self.iter_loc(it)
        byref = lvd.qt.rstrip().endswith("&") or "&" in lvd.qt.split("const")[-1]
        if lvd.kind == "DecompositionDecl":
            v = self.vars.get(loc.root) if not loc.path else None
            binds = [c for c in lvd.inner if c.kind == "BindingDecl"]
            if isinstance(v, Bundle):
                items = v.items
            else:
                cur = self.read(loc)
                items = [Ref(loc + ("f", n)) for n, _ in cur.T.fields]
            for i, b in enumerate(binds):
                br = "f%d:%s" % (f.id, b.id)
                self.root_name[br] = b.name
                x = items[i]
                if not byref and isinstance(x, Ref):
                    x = self.read(x.loc)
                self.vars[br] = x
                for h in b.walk():
                    if h.kind == "DeclRefExpr" and h.get("referencedDecl", {}).get("kind") == "VarDecl":
                        self.vars["f%d:%s" % (f.id, h.get("referencedDecl")["id"])] = x
                    if h.kind == "VarDecl":
                        self.vars["f%d:%s" % (f.id, h.id)] = x
            return
        root = "f%d:%s" % (f.id, lvd.id)
        self.root_name[root] = lvd.name
        v = self.vars.get(loc.root) if not loc.path else None
        if isinstance(v, Bundle):
            if byref:
                self.vars[root] = v
            else:
                self.vars[root] = Bundle([self.read(x.loc) if isinstance(x, Ref) else x for x in v.items], v.names)
        elif byref:
            self.vars[root] = Ref(loc)
        else:
            self.vars[root] = self.load(loc)

    def loop_positions(self, L, posroot):
        """local integer variables that may play the role of a position"""
        out = []
        if posroot is not None:
            out.append(("pos", self.vars[posroot].t[0], L["entry"][posroot].t[0]))
        for root, v in L["entry"].items():
            if root == posroot or not root.startswith("f"):
                continue
            now = self.vars.get(root)
            if isinstance(v, Val) and isinstance(v.T, TInt) and isinstance(now, Val) and (root, 0) in L["rec"].writes:
                out.append((self.root_name.get(root, root), now.t[0], v.t[0]))
            if isinstance(v, Iter) and isinstance(now, Iter) and now.kind == "pos" and (root, "meta") in L["rec"].writes:
                out.append((self.root_name.get(root, root), now.pos, v.pos))
        return out

    def candidates(self, L, posroot, enum, frame):
        """yield (name, formula) of every invariant candidate at the current state"""
        rec = L["rec"]
        poss = self.loop_positions(L, posroot)
        out = []
        # automatic candidates: positions are in range, appended vectors grow with the position,
        # appended vectors keep what they had
        for nm, p, p0 in poss:
            out.append(("auto:%s>=entry" % nm, p >= p0))
            if enum is not None and nm == "pos":
                out.append(("auto:pos<=n", p <= enum.n))
            for (bn, bt) in L["bounds"]:
                out.append(("auto:%s<=%s" % (nm, bn), p <= bt))
        for root, j in sorted(rec.writes, key=str):
            if j == "meta" or root not in L["entry"]:
                continue
            v0, v = L["entry"][root], self.vars.get(root)
            if not isinstance(v0, Val) or not isinstance(v, Val):
                continue
            if len(v0.t) == len(v.t):
                out.append(("auto:%s.%d unchanged" % (self.root_name.get(root, root), j), v.t[j] == v0.t[j]))
            if isinstance(v0.T, TVec) and j == 0 and root.startswith(("f", "c", "t")):
                for nm, p, p0 in poss:
                    out.append(("auto:len(%s)=entry+%s" % (self.root_name.get(root, root), nm), v.t[0] - v0.t[0] == p - p0))
                out.append(("auto:len(%s)>=entry" % self.root_name.get(root, root), v.t[0] >= v0.t[0]))
                out.append(("auto:prefix(%s)" % self.root_name.get(root, root),
                            Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < v0.t[0]), z3.And(*[z3.Select(a, i) == z3.Select(b, i) for a, b in zip(v.t[1:], v0.t[1:])])))))
        if self.loopcands is not None:
            for nm, p, p0 in (poss or [("none", None, None)]):
                C = LoopCtx(self, rec, L["entry"], p, enum.n if enum is not None else None, enum, enum.cval if enum is not None else None, frame)
                C.posname = nm
                C.pos0 = p0
                C.node = L["node"]
                C.outer = [(n_, t_) for rec_, roots_, entry_ in self.loopstack if rec_ is not rec
                           for n_, t_, _ in self.loop_positions(dict(entry=entry_, rec=rec_), rec_.posroot)]
                C.idxs = ([(nm, p)] if p is not None else []) + C.outer
                for x in self.loopcands(C):
                    if x is None:
                        continue
                    n, fm = x
                    out.append(("%s@%s" % (n, nm), fm))
                if posroot is None and enum is None:
                    pass
        return out

    def fill_opaque(self, cl, cv, loopvar, bd, f):
        """a range-for which only assigns to the bytes of an opaque value: afterwards the value is arbitrary"""
        before = dict(self.vars)
        vec = Val(TVec(TInt(8, False)), [z3.IntVal(1), self.fresh(z3.ArraySort(I, I), "bytes")])
        self.bind_loopvar(loopvar, Iter(self.temp(vec, bd, f), vec.T, "pos", pos=z3.IntVal(0), enum=self.mk_enum(vec)), f)
        before.update({r: v for r, v in self.vars.items() if r not in before})
        self.S(bd, f)
        changed = [r for r, v in self.vars.items() if r in before and v is not before[r]]
        if len(changed) > 1 or any(not isinstance(self.vars[r], Val) or self.vars[r].T != TVec(TInt(8, False)) for r in changed):
            raise Unsupported("filling loop with other effects")
        self.write(cl, self.fresh_val(cv.T, "filled"))

    def loop(self, node, f, cond, bodyf, step, posroot=None, enum=None, cloc=None):
        ctx = (node.id, f.chain)
        rec = self.loops.setdefault(ctx, LoopRec())
        rec.desc = node.loc()
        rec.posroot = posroot
        rec.enum = enum
        if self.nofork:
            raise NeedFork()
        entry = dict(self.vars)
        held0 = dict(self.held)
        bounds = []
        L = dict(rec=rec, entry=entry, node=node, bounds=bounds)
        # bounds for index loops: the right operand of a comparison with a modified local, evaluated at entry
        for c in (node.inner[-2:] if node.kind == "WhileStmt" else node.inner):
            if node.kind in ("ForStmt", "WhileStmt") and c.kind in ("BinaryOperator", "ExprWithCleanups", "CXXOperatorCallExpr"):
                for b in c.walk():
                    if b.kind == "BinaryOperator" and b.get("opcode") in ("<", "!=", "<="):
                        def evb(b=b):
                            return self.ev(b.inner[1], f)
                        try:
                            v = self.speculate(z3.BoolVal(True), evb)
                        except Unsupported:
                            v = None
                        if isinstance(v, Val) and isinstance(v.T, TInt):
                            bounds.append(("bound", v.t[0] + (1 if b.get("opcode") == "<=" else 0)))
                break
        # 1. candidates hold on entry
        for nm, fm in self.candidates(L, posroot, enum, f):
            if nm in rec.dropped:
                continue
            self.oblige("loop invariant established: " + nm, "inv-base", fm, node, tag=(ctx, nm))
        # 2. arbitrary iteration: havoc what the loop writes
        for root, j in sorted(rec.writes, key=str):
            if root not in entry:
                continue
            v = self.vars.get(root)
            if j == "meta":
                if isinstance(v, Iter):
                    if v.kind == "pos":
                        p = self.fresh(I, "itpos")
                        self.assume(z3.And(p >= 0, p <= v.enum.n))
                        nv = v.with_pos(p)
                    else:
                        raise Unsupported("loop modifies a keyed iterator at " + node.loc())
                    self.vars[root] = nv
                elif isinstance(v, Val):
                    raise Unsupported("loop rebinds %s at %s" % (self.root_name.get(root, root), node.loc()))
                else:
                    raise Unsupported("loop modifies %s %s at %s" % (type(v).__name__, self.root_name.get(root, root), node.loc()))
        grouped = {}
        for root, j in rec.writes:
            if j != "meta" and root in entry:
                grouped.setdefault(root, set()).add(j)
        for root in sorted(grouped):
            v = self.vars[root]
            if not isinstance(v, Val):
                continue
            t = list(v.t)
            for j in sorted(grouped[root]):
                t[j] = self.fresh(t[j].sort(), "h_%s" % self.root_name.get(root, "x").replace("<", "").replace(">", ""))
            nv = Val(v.T, t)
            self.vars[root] = nv
            self.wf(nv)
            for rec2, roots2, _ in self.loopstack:
                if root in roots2:
                    for j in grouped[root]:
                        if (root, j) not in rec2.writes:
                            rec2.writes.add((root, j))
                            self.dirty = True
        if posroot is not None:
            p = self.vars[posroot].t[0]
            if z3.is_int_value(p):
                pass
            else:
                self.assume(z3.And(p >= 0, p <= enum.n))
        for nm, fm in self.candidates(L, posroot, enum, f):
            if nm not in rec.dropped:
                self.assume(fm)
        # 3. one iteration or exit
        roots = set(entry)
        self.loopstack.append((rec, roots, entry))
        try:
            c = cond()
            go = self.choose(c)
            if not go:
                return
            it0 = self.iter_marker(node, f)
            try:
                bodyf()
            except Cont:
                pass
            except Brk:
                return
            if step is not None:
                step()
            if self.held != held0:
                self.oblige("lock state is the same at every loop iteration", "lock", z3.BoolVal(False), node)
            for nm, fm in self.candidates(L, posroot, enum, f):
                if nm in rec.dropped:
                    continue
                self.oblige("loop invariant preserved: " + nm, "inv-step", fm, node, tag=(ctx, nm))
            hook = getattr(self, "loop_end_hook", None)
            if hook:
                hook(self, node)
            raise PathEnd()
        finally:
            self.loopstack.pop()

    def iter_marker(self, node, f):
        return None

    # ================================================================ contracts
    def arg_views(self, node, args, e, f):
        """evaluate call arguments -> list of (Loc or None, value)"""
        out = []
        ps = params(node)
        for i, p in enumerate(ps):
            t = p.qt.rstrip()
            if i < len(args):
                a = args[i]
            else:
                a = p.inner[-1] if p.inner else None
                if a is None:
                    a = self.definition_default(node, i)
            if isinstance(a, N):
                if a.kind == "CXXDefaultArgExpr" and not a.inner:
                    a = self.definition_default(node, i) or a
                r = self.X(a, f)
            else:
                r = a
            loc = None
            if isinstance(r, Loc):
                loc = self.canon(r)
                self.read_guard(loc)
                v = self.read(loc)
            elif isinstance(r, Ref):
                loc = self.canon(r.loc)
                v = self.read(loc)
            else:
                v = r
            try:
                T = self.types.parse(t, node.d.get("_scope", f.scope))
                if not (isinstance(T, TOpaque) and T.sortname.startswith("X_")):
                    v = self.coerce(v, T)
            except TypeErr:
                pass
            if loc is not None and not t.endswith("&"):
                if self.is_moved(a) if isinstance(a, N) else False:
                    self.havoc_moved(loc, v.T)
                loc = None
            out.append((loc, v))
        return out

    def apply_contract(self, K, node, this, args, e, f):
        self.used_contracts.add(K.fn)
        av = self.arg_views(node, args, e, f)
        C = CallCtx()
        C.E = self
        C.e = e
        C.vals = [v for _, v in av]
        C.arg = lambda i: C.vals[i]
        C.this = self.read(this) if this is not None else None
        C.old = C.this
        for _nm, fm in K.ghost(C):
            self.assume(fm if not isinstance(fm, bool) else z3.BoolVal(fm))
        for nm, fm in K.requires(C):
            self.oblige("%s requires %s" % (K.short, nm), "pre", fm, e)
        hook = getattr(self, "call_hook", None)
        # havoc
        oldthis = C.this
        if this is not None:
            v = oldthis
            for fn_ in K.modifies(C):
                if isinstance(fn_, str):
                    nv = self.fresh_val(v.T.ft(fn_), K.short + "_" + fn_)
                    v = set_field(v, fn_, nv)
            if v is not oldthis:
                self.write(this, v, check=False)
        post = []
        for i, (loc, v) in enumerate(av):
            if i in K.modifies_args(C) and loc is not None:
                nv = self.fresh_val(v.T, K.short + "_arg%d" % i)
                self.write(loc, nv, check=False)
                post.append(nv)
            else:
                post.append(v)
                t = params(node)[i].qt.rstrip()
                if loc is not None and t.endswith("&&") and isinstance(v, Val):
                    self.havoc_moved(loc, v.T)
        C2 = CallCtx()
        C2.E = self
        C2.e = e
        C2.this = self.read(this) if this is not None else None
        C2.old = oldthis
        C2.vals = C.vals
        C2.arg = C.arg
        C2.post_arg = lambda i: post[i]
        rt = self.ret_type(node)
        ret = VOID
        if rt is not None:
            T = self.types.parse(rt, node.d.get("_scope", f.scope))
            if not isinstance(T, TUnit):
                ret = self.fresh_val(T, K.short + "_ret")
        C2.ret = ret
        for g in getattr(K, "havocs", ()):
            self.set_root("g:" + g, self.fresh_val(self.vars["g:" + g].T, "g_" + g))
        for nm, fm in K.ensures(C2):
            self.assume(fm)
        K.effect(C2)
        return ret

    def cur_arg(self, i):
        root, _ = self.pre_arg_roots[i]
        v = self.vars[root]
        if isinstance(v, Ref):
            return self.read(v.loc, check=False)
        return v

    # ---- library loops (std::for_each, std::accumulate, ...)
    def alg_loop(self, e, f, root, it0, it1, bodyfn):
        def c():
            return self.vars[root].t[0] < it1.pos

        def b():
            bodyfn(self.iter_loc(it0.with_pos(self.vars[root].t[0])))

        def step():
            self.set_root(root, Val(TInt(64, True), [self.vars[root].t[0] + 1]))
        self.loop(e, f, c, b, step, posroot=root, enum=it0.enum)

    def vec_from_range(self, T, a, b):
        import lib
        return lib.vec_from_range(self, T, a, b)
