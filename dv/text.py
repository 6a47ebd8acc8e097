"""Character-level strings and hexadecimal string streams (library axioms used where a unit maps std::string to sequences of characters).

A std::stringstream is the text written so far plus the three formatting settings the code uses: base, fill character and field width."""
import z3
from sym import *

CH = TInt(8, True)
STR = TVec(CH, "string")
STREAM = TRec("std::stringstream", [("buf", STR), ("hex", TBool()), ("fill", CH), ("width", TInt(64, True)), ("ok", TBool())])
OVERRIDES = {"std::string": STR, "std::basic_string<char>": STR, "std::basic_stringstream<char>": STREAM, "std::stringstream": STREAM, "std::byte": TInt(8, False),
             "std::array<unsigned char, 32>": TVec(TInt(8, False), "array", 32), "std::array<uint8_t, 32>": TVec(TInt(8, False), "array", 32)}
SPECIAL = {"+": 43, "-": 45}


def isdigit(c):
    return z3.And(48 <= c, c <= 57)


def ishex(c):
    return z3.Or(isdigit(c), z3.And(97 <= c, c <= 102), z3.And(65 <= c, c <= 70))


def hexval(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def digit(x):
    return z3.If(x < 10, 48 + x, 87 + x)


def lit(s):
    a = z3.K(I, z3.IntVal(0))
    for i, ch in enumerate(s):
        a = z3.Store(a, z3.IntVal(i), z3.IntVal(ord(ch)))
    return Val(STR, [z3.IntVal(len(s)), a])


def concat(E, a, b):
    r = E.fresh(z3.ArraySort(I, I), "cat")
    la, aa, ba = a.len, a.t[1], b.t[1]
    E.assume(Forall([I], lambda i: z3.Select(r, i) == z3.If(i < la, z3.Select(aa, i), z3.Select(ba, i - la)), lambda i: [z3.Select(r, i)]))
    E.assume(Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < b.len), z3.Select(r, la + i) == z3.Select(ba, i)), lambda i: [z3.Select(ba, i)]))
    return Val(STR, [z3.simplify(la + b.len), r])


def push(s, chars):
    a, n = s.t[1], s.len
    for i, c in enumerate(chars):
        a = z3.Store(a, z3.simplify(n + i), c)
    return Val(STR, [z3.simplify(n + len(chars)), a])


def value(E, a, f):
    v = E.ev(a, f) if not isinstance(a, Val) else a
    if isinstance(v, Ref):
        v = E.read(v.loc)
    if isinstance(v, Loc):
        v = E.read(v)
    return v


def strip(n):
    while n.kind in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups"):
        n = n.inner[0]
    return n


def manip(n):
    """(name, args) of a stream manipulator"""
    n = strip(n)
    if n.kind == "DeclRefExpr":
        r = n.get("referencedDecl", {})
        if r.get("name") in ("hex", "dec", "oct", "endl", "flush"):
            return r.get("name"), []
    if n.kind == "CallExpr":
        c = strip(n.inner[0])
        if c.kind == "DeclRefExpr":
            nm = c.get("referencedDecl", {}).get("name")
            if nm in ("setfill", "setw"):
                return nm, n.inner[1:]
    return None


def is_stream(v):
    return isinstance(v, Val) and v.T is STREAM


def stream_op(E, op, args, e, f):
    """operator<< / operator>> / operator! on a modelled stream; None when the left operand is not one"""
    from engine import Unsupported
    x = E.X(args[0], f)
    v = E.read(x, check=False) if isinstance(x, Loc) else x
    if not is_stream(v):
        return None, x
    if op in ("!", " bool"):
        return Val(TBool(), [z3.Not(v.ok.z) if op == "!" else v.ok.z]), x
    loc = x if isinstance(x, Loc) else None
    if loc is None:
        raise Unsupported("operator on a temporary stream at " + e.loc())
    put = lambda n, w: E.write(loc, set_field(E.read(loc), n, w))
    if op == "<<":
        m = manip(args[1])
        if m is not None:
            nm, a = m
            if nm in ("hex", "dec"):
                put("hex", Val(TBool(), [z3.BoolVal(nm == "hex")]))
            elif nm == "setfill":
                put("fill", E.coerce(value(E, a[0], f), CH))
            elif nm == "setw":
                put("width", E.coerce(value(E, a[0], f), TInt(64, True)))
            else:
                raise Unsupported("stream manipulator " + nm)
            return loc, x
        w = value(E, args[1], f)
        if isinstance(w, StrLit):
            w = lit(w.s)
        v = E.read(loc)
        if isinstance(w, Val) and w.T is STR:
            E.oblige("text is written unpadded", "safety", v.width.z == 0, e)
            put("buf", concat(E, v.buf, w))
            return loc, x
        if isinstance(w, Val) and isinstance(w.T, TInt) and w.T.bits >= 16:
            n = w.z
            if not E.choose(z3.And(v.hex.z, 0 <= n, n < 256, 0 <= v.width.z, v.width.z <= 2)):
                E.write(loc, set_field(E.fresh_val(STREAM, "stream"), "hex", v.hex))
                return loc, x
            # fewer digits than the field: filled on the left
            one = z3.And(n < 16, v.width.z < 2)
            hi = z3.If(n >= 16, digit(n / 16), v.fill.z)
            lo = digit(n % 16)
            if E.choose(one):
                put("buf", push(v.buf, [lo]))
            else:
                put("buf", push(v.buf, [hi, lo]))
            put("width", Val(TInt(64, True), [z3.IntVal(0)]))
            return loc, x
        raise Unsupported("stream output of %s" % (w.T if isinstance(w, Val) else w,))
    if op == ">>":
        d = E.lv(args[1], f)
        T = E.read(d, check=False).T
        if not isinstance(T, TInt):
            raise Unsupported("stream input of %s" % T)
        b = v.buf
        c0, c1 = z3.Select(b.t[1], z3.IntVal(0)), z3.Select(b.t[1], z3.IntVal(1))
        two = z3.And(v.hex.z, b.len == 2, ishex(c0), ishex(c1))
        oned = z3.And(v.hex.z, b.len == 1, ishex(c0))
        bad = z3.And(b.len >= 1, z3.Not(ishex(c0)), c0 != 43, c0 != 45, c0 != 32, z3.Or(c0 > 13, c0 < 9))
        a = E.fresh_val(T, "parsed")
        k = E.fresh(B, "parse_ok")
        E.write(d, Val(T, [z3.If(two, 16 * hexval(c0) + hexval(c1), z3.If(oned, hexval(c0), z3.If(bad, z3.IntVal(0), a.z)))]))
        put("ok", Val(TBool(), [z3.If(z3.Or(two, oned), z3.BoolVal(True), z3.If(z3.Or(bad, b.len == 0), z3.BoolVal(False), k))]))
        put("buf", E.fresh_val(STR, "rest"))
        return loc, x
    return None, x


def string_method(E, obj, v, nm, args, e, f):
    """std::string members beyond those of a vector; None when not handled"""
    from engine import Unsupported
    A = lambda i: E.coerce(value(E, args[i], f), STR)
    args = [a for a in args if a.kind != "CXXDefaultArgExpr" or a.inner] if args and not isinstance(args[0], Val) else args
    n = v.len
    if nm == "substr":
        p = value(E, args[0], f).z if args else z3.IntVal(0)
        E.oblige("substr starts within the text", "safety", z3.And(0 <= p, p <= n), e)
        rest = n - p
        ln = rest
        if len(args) > 1:
            c = value(E, args[1], f).z
            ln = z3.If(c < rest, c, rest)
        r = E.fresh(z3.ArraySort(I, I), "sub")
        src = v.t[1]
        E.assume(Forall([I], lambda i: z3.Select(r, i) == z3.Select(src, i + p), lambda i: [z3.Select(r, i)]))
        E.assume(Forall([I], lambda i: z3.Implies(p <= i, z3.Select(r, i - p) == z3.Select(src, i)), lambda i: [z3.Select(src, i)]))
        return Val(STR, [z3.simplify(ln), r])
    if nm == "append" and len(args) == 1:
        E.write(obj, concat(E, E.read(obj), A(0)))
        return obj
    if nm == "find_first_not_of":
        s = strlit(args[0])
        if s is None or len(args) > 1 and not at_zero(E, args[1], f):
            raise Unsupported("find_first_not_of at " + e.loc())
        inset = lambda c: z3.Or(*[c == ord(ch) for ch in sorted(set(s))]) if s else z3.BoolVal(False)
        if set(s) == set("0123456789abcdefABCDEF"):
            inset = ishex
        r = E.fresh(I, "pos")
        npos = z3.IntVal(2 ** 64 - 1)
        src = v.t[1]
        E.assume(z3.Or(z3.And(r == npos, Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < n), inset(z3.Select(src, i))), lambda i: [z3.Select(src, i)])),
                       z3.And(0 <= r, r < n, z3.Not(inset(z3.Select(src, r))))))
        return Val(TInt(64, False), [r])
    if nm == "rfind" and len(args) == 2:
        s = A(0)
        p = value(E, args[1], f).z
        if not E.valid(p == 0):
            raise Unsupported("rfind at " + e.loc())
        src, pat = v.t[1], s.t[1]
        c = z3.And(s.len <= n, Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < s.len), z3.Select(src, i) == z3.Select(pat, i)), lambda i: [z3.Select(pat, i)]))
        r = E.fresh(I, "pos")
        E.assume(r == z3.If(c, z3.IntVal(0), z3.IntVal(2 ** 64 - 1)))
        return Val(TInt(64, False), [r])
    if nm == "compare" and len(args) == 3 or nm == "starts_with" and len(args) == 1:
        p = value(E, args[0], f).z if nm == "compare" else z3.IntVal(0)
        s = A(len(args) - 1)
        ln = value(E, args[1], f).z if nm == "compare" else s.len
        E.oblige("compare starts within the text", "safety", z3.And(0 <= p, p <= n), e)
        ln = z3.If(ln < n - p, ln, n - p)
        src, pat = v.t[1], s.t[1]
        c = z3.And(s.len == ln, Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ln), z3.Select(src, p + i) == z3.Select(pat, i)), lambda i: [z3.Select(pat, i)]))
        if nm == "starts_with":
            return Val(TBool(), [c])
        r = E.fresh(I, "cmp")
        E.assume((r == 0) == c)
        return Val(TInt(32, True), [r])
    if nm == "find" and len(args) == 1:
        s = value(E, args[0], f)
        if isinstance(s, StrLit) or isinstance(s, Val) and s.T is STR:
            s = A(0)
            pat, ls = s.t[1], s.len
        elif isinstance(s, Val) and isinstance(s.T, TInt):
            pat, ls = z3.K(I, s.z), z3.IntVal(1)
        else:
            raise Unsupported("find at " + e.loc())
        src = v.t[1]
        r = E.fresh(I, "pos")
        w = z3.Function("differs%d" % r.get_id(), I, I)
        found = z3.And(0 <= r, r + ls <= n, Forall([I], lambda i: z3.Implies(z3.And(0 <= i, i < ls), z3.Select(src, r + i) == z3.Select(pat, i)), lambda i: [z3.Select(pat, i)]))
        upto = z3.If(r == 2 ** 64 - 1, n + 1, r)
        E.assume(z3.Or(r == 2 ** 64 - 1, found))
        E.assume(Forall([I], lambda p: z3.Implies(z3.And(0 <= p, p < upto, p + ls <= n), z3.And(0 <= w(p), w(p) < ls, z3.Select(src, p + w(p)) != z3.Select(pat, w(p)))), lambda p: [w(p)]))
        E.assume(z3.Implies(upto > 0, z3.Or(w(0) == 0, w(0) != 0)))
        return Val(TInt(64, False), [r])
    if nm == "insert" and len(args) == 2:
        p = value(E, args[0], f)
        if isinstance(p, Val) and E.valid(p.z == 0):
            E.write(obj, concat(E, A(1), E.read(obj)))
            return obj
        raise Unsupported("string insert at " + e.loc())
    return None


def at_zero(E, a, f):
    return E.valid(value(E, a, f).z == 0)


def strlit(n):
    n = strip(n)
    if n.kind == "CXXConstructExpr" and n.inner:
        return strlit(n.inner[0])
    if n.kind == "StringLiteral":
        import json
        return json.loads(n.get("value"))
    return None


def stream_method(E, obj, v, nm, args, e, f):
    from engine import Unsupported
    if nm == "str" and not args:
        return E.read(obj).buf
    if nm in ("good",):
        return E.read(obj).ok
    if nm == "fail":
        return Val(TBool(), [z3.Not(E.read(obj).ok.z)])
    if nm.startswith("operator bool"):
        return E.read(obj).ok
    if nm == "operator!":
        return Val(TBool(), [z3.Not(E.read(obj).ok.z)])
    raise Unsupported("stream method %s at %s" % (nm, e.loc()))


def new_stream():
    return Val(STREAM, lit("").t + (z3.BoolVal(False), z3.IntVal(32), z3.IntVal(0), z3.BoolVal(True)))
