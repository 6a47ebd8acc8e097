"""Types and symbolic values.

Every C++ value is a flat tuple of solver terms (its leaves); a container adds an
index sort to each leaf of its element type.  Leaves:
  integer/enum: Int      bool: Bool      opaque type: uninterpreted sort
  vector/deque/queue/string/array: length + one (Array Int leaf) per element leaf
  set:  dom (Array K Bool)      map: dom + one (Array K leaf) per value leaf
  optional: flag + leaves       variant: index + leaves of every alternative
  struct/pair/tuple: concatenation of the fields.
"""
import z3

I = z3.IntSort()
B = z3.BoolSort()
_sorts = {}


def usort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


class Type:
    name = "?"

    def leaves(self):
        raise NotImplementedError

    def n(self):
        if not hasattr(self, "_n"):
            self._n = len(self.leaves())
        return self._n

    def __eq__(self, o):
        return isinstance(o, Type) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class TInt(Type):
    def __init__(self, bits, signed):
        self.bits, self.signed = bits, signed
        self.name = ("i" if signed else "u") + str(bits)
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1

    def leaves(self):
        return [I]


class TBool(Type):
    name = "bool"

    def leaves(self):
        return [B]


class TEnum(Type):
    def __init__(self, q, vals):
        self.name = "enum " + q
        self.q = q
        self.vals = vals

    def leaves(self):
        return [I]


class TOpaque(Type):
    def __init__(self, sort):
        self.name = "opaque " + sort
        self.sortname = sort

    def leaves(self):
        return [usort(self.sortname)]


class TUnit(Type):
    name = "void"

    def leaves(self):
        return []


class TRec(Type):
    def __init__(self, q, fields=None, node=None):
        self.name = "rec " + q
        self.q = q
        self.fields = fields      # list of (name, Type); set lazily
        self.node = node
        self.keyproj = None       # field used by operator== / hash (identity of the object as a key)
        self.eqproj = None

    def leaves(self):
        r = []
        for _, t in self.fields:
            r += t.leaves()
        return r

    def ft(self, f):
        for n, t in self.fields:
            if n == f:
                return t
        raise KeyError("%s has no field %s" % (self.q, f))

    def off(self, f):
        o = 0
        for n, t in self.fields:
            if n == f:
                return o
            o += t.n()
        raise KeyError(f)

    def has(self, f):
        return any(n == f for n, _ in self.fields)


class TVec(Type):
    def __init__(self, t, kind="vector", fixed=None):
        self.t = t
        self.kind = kind
        self.fixed = fixed
        self.name = "vec<%s>" % t.name if kind != "string" else "string"
        if kind.startswith("pq"):
            self.name = kind + self.name
        if fixed is not None:
            self.name += "[%d]" % fixed

    def leaves(self):
        return [I] + [z3.ArraySort(I, s) for s in self.t.leaves()]


_tuples = {}


def ktype(K):
    """the part of a key type that decides identity"""
    if isinstance(K, TRec) and K.keyproj:
        return K.ft(K.keyproj)
    return K


def keysort(K):
    K = ktype(K)
    ls = K.leaves()
    if len(ls) == 1:
        return ls[0]
    if K.name not in _tuples:
        nm = "Tup_" + "".join(c if c.isalnum() else "_" for c in K.name)
        s, mk, acc = z3.TupleSort(nm, ls)
        _tuples[K.name] = (s, mk, acc)
    return _tuples[K.name][0]


def keyterm(K, v):
    """key term for a Val v of type K"""
    if isinstance(K, TRec) and K.keyproj:
        v = field(v, K.keyproj)
        K = K.ft(K.keyproj)
    if len(v.t) == 1:
        return v.t[0]
    keysort(K)
    return _tuples[K.name][1](*v.t)


def unkey(K, term):
    K0 = ktype(K)
    if K0 is not K:
        raise ValueError("unkey of projected key")
    if len(K.leaves()) == 1:
        return Val(K, (term,))
    keysort(K)
    return Val(K, tuple(a(term) for a in _tuples[K.name][2]))


class TSet(Type):
    def __init__(self, k, ordered=False):
        self.k = k
        self.ordered = ordered
        self.name = "set<%s>" % k.name

    def extra(self):
        # the stored key object, when only a projection decides identity
        return self.k.leaves() if (isinstance(self.k, TRec) and self.k.keyproj) else []

    def leaves(self):
        ks = keysort(self.k)
        return [z3.ArraySort(ks, B)] + [z3.ArraySort(ks, s) for s in self.extra()]


class TMap(Type):
    def __init__(self, k, v, ordered=False):
        self.k, self.v = k, v
        self.ordered = ordered
        self.name = "map<%s,%s>" % (k.name, v.name)

    def extra(self):
        return self.k.leaves() if (isinstance(self.k, TRec) and self.k.keyproj) else []

    def leaves(self):
        ks = keysort(self.k)
        return ([z3.ArraySort(ks, B)] + [z3.ArraySort(ks, s) for s in self.extra()]
                + [z3.ArraySort(ks, s) for s in self.v.leaves()])


class TIterK(Type):
    """a stored iterator into a keyed container: key, which container (access path shape and vector index), end"""
    def __init__(self, k):
        self.k = k
        self.name = "iter<%s>" % k.name

    def leaves(self):
        return [keysort(self.k), I, I, B]


class TOpt(Type):
    def __init__(self, t):
        self.t = t
        self.name = "opt<%s>" % t.name

    def leaves(self):
        return [B] + self.t.leaves()


class TVar(Type):
    def __init__(self, ts):
        self.ts = ts
        self.name = "variant<%s>" % ",".join(t.name for t in ts)

    def leaves(self):
        r = [I]
        for t in self.ts:
            r += t.leaves()
        return r

    def off(self, i):
        return 1 + sum(t.n() for t in self.ts[:i])


class Val:
    __slots__ = ("T", "t")

    def __init__(self, T, t):
        self.T = T
        self.t = tuple(t)

    def __repr__(self):
        return "Val(%s, %s)" % (self.T, ", ".join(str(x)[:60] for x in self.t))

    # sugar for specifications -------------------------------------------------
    def __getattr__(self, f):
        if f.startswith("__"):
            raise AttributeError(f)
        return field(self, f)

    @property
    def z(self):
        assert len(self.t) == 1, self
        return self.t[0]

    @property
    def len(self):
        assert isinstance(self.T, TVec)
        return self.t[0]

    @property
    def dom(self):
        assert isinstance(self.T, (TMap, TSet)), self
        return self.t[0]

    def at(self, i):
        """vector element / map value (by key term)"""
        if isinstance(self.T, TVec):
            return Val(self.T.t, [z3.Select(a, i) for a in self.t[1:]])
        if isinstance(self.T, TMap):
            e = 1 + len(self.T.extra())
            return Val(self.T.v, [z3.Select(a, i) for a in self.t[e:]])
        raise TypeError(self.T)

    def keyobj(self, k):
        """stored key object for a key term"""
        e = self.T.extra()
        if e:
            return Val(self.T.k, [z3.Select(a, k) for a in self.t[1:1 + len(e)]])
        return unkey(self.T.k, k)

    def has(self, k=None):
        if isinstance(self.T, TOpt):
            return self.t[0]
        return z3.Select(self.t[0], k)

    @property
    def val(self):
        assert isinstance(self.T, TOpt)
        return Val(self.T.t, self.t[1:])

    @property
    def idx(self):
        assert isinstance(self.T, TVar)
        return self.t[0]

    def alt(self, i):
        o = self.T.off(i)
        return Val(self.T.ts[i], self.t[o:o + self.T.ts[i].n()])


def field(v, f):
    T = v.T
    if isinstance(T, TRec):
        o = T.off(f)
        ft = T.ft(f)
        return Val(ft, v.t[o:o + ft.n()])
    raise KeyError("field %s of %s" % (f, T))


def set_field(v, f, nv):
    o = v.T.off(f)
    k = v.T.ft(f).n()
    return Val(v.T, v.t[:o] + tuple(nv.t) + v.t[o + k:])


_dflt = {}


def dflt_term(s):
    """an arbitrary but fixed term of a sort"""
    if s == I:
        return z3.IntVal(0)
    if s == B:
        return z3.BoolVal(False)
    if s.kind() == z3.Z3_ARRAY_SORT:
        r = s
        while r.kind() == z3.Z3_ARRAY_SORT:
            r = r.range()
        if r == I or r == B:
            return z3.K(s.domain(), dflt_term(s.range()))
    k = "".join(c if c.isalnum() else "_" for c in str(s))
    if k not in _dflt:
        _dflt[k] = z3.Const("dflt_" + k, s)
    return _dflt[k]


def default(T):
    """value-initialised object"""
    if isinstance(T, (TInt, TEnum)):
        return Val(T, [z3.IntVal(0)])
    if isinstance(T, TBool):
        return Val(T, [z3.BoolVal(False)])
    if isinstance(T, TRec):
        r = []
        for _, ft in T.fields:
            r += default(ft).t
        return Val(T, r)
    if isinstance(T, TVec) and T.fixed is not None:
        return Val(T, [z3.IntVal(T.fixed)] + [z3.K(I, x) for x in default(T.t).t])
    if isinstance(T, TVar):
        r = [z3.IntVal(0)]
        for x in T.ts:
            r += default(x).t
        return Val(T, r)
    return Val(T, [dflt_term(s) for s in T.leaves()])


def vec_set(v, i, e):
    return Val(v.T, [v.t[0]] + [z3.Store(a, i, x) for a, x in zip(v.t[1:], e.t)])


def vec_push(v, e):
    return Val(v.T, [v.t[0] + 1] + [z3.Store(a, v.t[0], x) for a, x in zip(v.t[1:], e.t)])


def map_put(m, k, v, keyobj=None):
    e = len(m.T.extra())
    t = [z3.Store(m.t[0], k, z3.BoolVal(True))]
    for j in range(e):
        t.append(z3.Store(m.t[1 + j], k, keyobj.t[j]) if keyobj is not None else m.t[1 + j])
    if isinstance(m.T, TMap):
        for a, x in zip(m.t[1 + e:], v.t):
            t.append(z3.Store(a, k, x))
    return Val(m.T, t)


def map_setval(m, k, v):
    e = len(m.T.extra())
    t = list(m.t[:1 + e])
    for a, x in zip(m.t[1 + e:], v.t):
        t.append(z3.Store(a, k, x))
    return Val(m.T, t)


def map_del(m, k):
    return Val(m.T, (z3.Store(m.t[0], k, z3.BoolVal(False)),) + tuple(m.t[1:]))


def ite(c, a, b):
    return Val(a.T, [x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.t, b.t)])


_cards = {}


def card(dom):
    """number of elements of a finite set given by its characteristic array"""
    s = dom.sort()
    k = str(s)
    if k not in _cards:
        _cards[k] = z3.Function("card_" + "".join(c if c.isalnum() else "_" for c in k), s, I)
    return _cards[k](dom)


_bv = [0]


def bvar(s, hint="q"):
    _bv[0] += 1
    return z3.Const("%s!%d" % (hint, _bv[0]), s)


def pat_ok(p):
    """patterns may not contain logical connectives"""
    todo = list(p) if isinstance(p, (list, tuple)) else [p]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ):
            return False
        todo += x.children()
    return True


def Forall(sorts, fn, pats=None):
    vs = [bvar(s) for s in sorts]
    b = fn(*vs)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    if pats:
        ps = pats(*vs)
        ps = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps if pat_ok(p)]
        return z3.ForAll(vs, b, patterns=ps) if ps else z3.ForAll(vs, b)
    return z3.ForAll(vs, b)


def Exists(sorts, fn):
    vs = [bvar(s) for s in sorts]
    return z3.Exists(vs, fn(*vs))


def same(a, b):
    """all leaves equal (stronger than C++ equality)"""
    return z3.And(*[x == y for x, y in zip(a.t, b.t)]) if a.t else z3.BoolVal(True)


def veq(a, b):
    """C++ operator== on values"""
    T = a.T
    if isinstance(T, TRec):
        if T.eqproj:
            return veq(field(a, T.eqproj), field(b, T.eqproj))
        return z3.And(*[veq(field(a, n), field(b, n)) for n, _ in T.fields]) if T.fields else z3.BoolVal(True)
    if isinstance(T, TVec):
        return z3.And(a.len == b.len,
                      Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < a.len), veq(a.at(i), b.at(i)))))
    if isinstance(T, TOpt):
        return z3.And(a.t[0] == b.t[0], z3.Implies(a.t[0], veq(a.val, b.val)))
    if isinstance(T, TVar):
        return z3.And(a.idx == b.idx, *[z3.Implies(a.idx == i, veq(a.alt(i), b.alt(i))) for i in range(len(T.ts))])
    if isinstance(T, TSet):
        return a.dom == b.dom
    if isinstance(T, TMap):
        return z3.And(a.dom == b.dom,
                      Forall([keysort(T.k)], lambda k: z3.Implies(a.has(k), veq(a.at(k), b.at(k)))))
    return same(a, b)


# ---- meta values (never stored in containers) -------------------------------
class Meta:
    pass


class Loc(Meta):
    """an lvalue: root variable + access path.
    steps: ('f',name) ('i',idx) ('m',keyterm) ('o',) ('a',n) ('k',keyterm) [key object of map entry]"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def __add__(self, step):
        return Loc(self.root, self.path + (step,))

    def __repr__(self):
        return "Loc(%s,%s)" % (self.root, self.path)


class Ref(Meta):
    def __init__(self, loc):
        self.loc = loc


class Ptr(Meta):
    """pointer to a known location; null is a Bool term (True = null)"""

    def __init__(self, loc, null=None):
        self.loc = loc
        self.null = null if null is not None else z3.BoolVal(False)


class Iter(Meta):
    """container iterator.
    kind 'key'  : points at key `key` of a map/set, or end() when `end`
    kind 'pos'  : position `pos` in enumeration `enum` of a vec/map/set (end when pos == n)"""

    def __init__(self, cloc, T, kind, key=None, end=None, pos=None, enum=None, rev=False):
        self.cloc, self.T, self.kind = cloc, T, kind
        self.key, self.end, self.pos, self.enum = key, end, pos, enum
        self.rev = rev
        self.move = False

    def with_pos(self, p):
        r = Iter(self.cloc, self.T, "pos", pos=p, enum=self.enum, rev=self.rev)
        r.move = self.move
        return r


class Enum:
    """an enumeration (iteration order) of a container's elements at some moment"""

    def __init__(self, T, cval, n, ord=None, idx=None):
        self.T, self.cval, self.n = T, cval, n
        self.ord, self.idx = ord, idx


class Lam(Meta):
    def __init__(self, node, frame, caps):
        self.node, self.frame, self.caps = node, frame, caps
        self.term = None


class Overload(Meta):
    def __init__(self, lams):
        self.lams = lams


class NodeH(Meta):
    def __init__(self, T, has, key, keyobj, val):
        self.T, self.has, self.key, self.keyobj, self.val = T, has, key, keyobj, val
        self.root = None


class Bundle(Meta):
    """pair/tuple holding at least one meta component"""

    def __init__(self, items, names=("first", "second")):
        self.items = list(items)
        self.names = names


class InitL(Meta):
    def __init__(self, items):
        self.items = items


class BackIns(Meta):
    def __init__(self, loc):
        self.loc = loc


class NullOpt(Meta):
    pass


class NullPtr(Meta):
    pass


class FnRef(Meta):
    def __init__(self, node_ref):
        self.ref = node_ref


class Bound(Meta):
    """bound member function"""

    def __init__(self, obj, member):
        self.obj, self.member = obj, member


class StrLit(Meta):
    def __init__(self, s):
        self.s = s


class Void(Meta):
    pass


VOID = Void()
