"""C++ type strings (as printed by clang) -> symbolic types."""
import re
from sym import *

INTS = {
    "unsigned char": (8, False), "uint8_t": (8, False), "signed char": (8, True), "int8_t": (8, True),
    "char": (8, True), "unsigned short": (16, False), "uint16_t": (16, False), "short": (16, True),
    "int16_t": (16, True), "in_port_t": (16, False),
    "int": (32, True), "int32_t": (32, True), "unsigned int": (32, False), "uint32_t": (32, False),
    "unsigned": (32, False), "long": (64, True), "int64_t": (64, True), "unsigned long": (64, False),
    "uint64_t": (64, False), "size_t": (64, False), "std::size_t": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "ssize_t": (64, True), "ptrdiff_t": (64, True),
    "std::ptrdiff_t": (64, True), "std::byte": (8, False), "byte": (8, False),
    "std::uint64_t": (64, False), "std::uint8_t": (8, False), "std::uint32_t": (32, False),
    "std::streamsize": (64, True), "std::streamoff": (64, True), "size_type": (64, False),
    "difference_type": (64, True), "__size_t": (64, False), "unsigned __int128": (128, False),
}

CHRONO = re.compile(r"^(std::)?chrono::(duration|time_point|milliseconds|seconds|microseconds|nanoseconds)")


class TypeErr(Exception):
    pass


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            depth += 1
        if ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "typename ", "struct ", "class ", "enum "):
            if s.startswith(p):
                s = s[len(p):].strip()
                ch = True
        for p in (" const", " volatile", "&&", "&", " noexcept"):
            if s.endswith(p):
                s = s[:-len(p)].strip()
                ch = True
    return s


def template(s):
    """name, args  (args None when not a template id); only if the trailing > matches"""
    if not s.endswith(">"):
        return s, None
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ">":
            depth += 1
        elif s[i] == "<":
            depth -= 1
            if depth == 0:
                return s[:i].strip(), split_args(s[i + 1:-1])
    return s, None


def sanitize(s):
    return re.sub(r"[^A-Za-z0-9_]", "_", s)


class Types:
    def __init__(self, prog, overrides=None, keyproj=None, eqproj=None):
        self.prog = prog
        self.ov = {"cbdc::buffer": TOpaque("Buf"), "std::array<unsigned char, 32>": TOpaque("Hash"),
                   "std::array<uint8_t, 32>": TOpaque("Hash"),
                   "std::string": TOpaque("Str"), "std::basic_string<char>": TOpaque("Str")}
        self.ov.update(overrides or {})
        self.ov = {k: v for k, v in self.ov.items() if v is not None}
        self.keyproj = keyproj or {}
        self.eqproj = eqproj or {}
        self.ptr_alias = {}
        self.recs = {}
        self.cache = {}

    def resolve(self, name, scope, table):
        if name.startswith("::"):
            name = name[2:]
        sc = scope
        while True:
            q = sc + "::" + name if sc else name
            if q in table:
                return q
            # names looked up in base classes / template specialisations of the scope
            if sc in self.prog.records:
                for b in self.prog.records[sc].get("bases", []) or []:
                    bt = b["type"]
                    for bn in (bt.get("desugaredQualType"), bt.get("qualType")):
                        if bn and bn + "::" + name in table:
                            return bn + "::" + name
            if not sc:
                # member of a base class:  derived::name
                if "::" in name and not name.endswith(">"):
                    pre, last = name.rsplit("::", 1)
                    r = self.resolve(pre, scope, self.prog.records)
                    if r is not None and r + "::" + last not in table:
                        return self.in_bases(r, last, table, 0)
                return None
            # drop one scope component (template args safe)
            depth = 0
            for i in range(len(sc) - 1, -1, -1):
                if sc[i] in ">)":
                    depth += 1
                elif sc[i] in "<(":
                    depth -= 1
                elif depth == 0 and sc[i - 1:i + 1] == "::":
                    sc = sc[:i - 1]
                    break
            else:
                sc = ""

    def in_bases(self, rec, name, table, depth):
        if rec + "::" + name in table:
            return rec + "::" + name
        if depth > 8 or rec not in self.prog.records:
            return None
        for b in self.prog.records[rec].get("bases", []) or []:
            bt = b["type"]
            for bn in (bt.get("desugaredQualType"), bt.get("qualType")):
                q = self.resolve(bn, rec, self.prog.records) if bn and not bn.endswith(">") else bn
                if q:
                    r = self.in_bases(q, name, table, depth + 1)
                    if r:
                        return r
        return None

    def parse(self, s, scope=""):
        key = (s, scope)
        if key in self.cache:
            return self.cache[key]
        t = self._parse(s, scope, 0)
        self.cache[key] = t
        return t

    def _parse(self, s, scope, depth):
        if depth > 30:
            raise TypeErr("type too deep: " + s)
        s = strip_cv(s)
        if s in self.ov:
            return self.ov[s]
        if s == "bool" or s in ("std::atomic_bool", "std::atomic<bool>", "atomic_bool"):
            return TBool()
        if s in INTS:
            return TInt(*INTS[s])
        if s == "void":
            return TUnit()
        if s in ("double", "float"):
            return TOpaque("Real_" + s)
        m = re.match(r"^(?:std::)?__decay_and_strip<(.*)>::_*type$", s)
        if m:
            return self._parse(re.sub(r"[ &]+$", "", m.group(1)), scope, depth + 1)
        m = re.match(r"^(.*)\[(\d+)\]$", s)
        if m:
            return TVec(self._parse(m.group(1), scope, depth + 1), "array", int(m.group(2)))
        if s.endswith("*"):
            return TOpaque("P_" + sanitize(strip_cv(s[:-1]).split("::")[-1]))
        if s.endswith("*const"):
            return TOpaque("P_" + sanitize(strip_cv(s[:-6]).split("::")[-1]))
        name, args = template(s)
        if args is not None:
            r = self._templ(name, args, s, scope, depth)
            if r is not None:
                return r
        if CHRONO.match(s):
            return TInt(64, True)
        if args is not None:
            r = self._templrec(name, args, scope, depth)
            if r is not None:
                return r
        # enums, records, aliases of the program
        q = self.resolve(s, scope, self.prog.records)
        qe = self.resolve(s, scope, self.prog.enums)
        qa = self.resolve(s, scope, self.prog.aliases)
        best = max([x for x in (q, qe, qa) if x], key=len, default=None)
        if best is None:
            base = s.split("::")[-1]
            if s.startswith("std::") or s.startswith("__gnu") or True:
                if base in INTS:
                    return TInt(*INTS[base])
                if base == "string":
                    return self.ov["std::string"]
                if base in ("nullopt_t", "monostate"):
                    return TRec("std::monostate", [])
                return TOpaque("X_" + sanitize(s))
        if best in self.ov:
            return self.ov[best]
        if best == q:
            return self.rec(q)
        if best == qe:
            return TEnum(qe, self.prog.enumvals.get(qe, {}))
        qt, sc, dq = self.prog.aliases[qa]
        if qt == s and dq:
            return self._parse(dq, "", depth + 1)
        try:
            return self._parse(qt, sc, depth + 1)
        except TypeErr:
            if dq:
                return self._parse(dq, sc, depth + 1)
            raise

    def _templ(self, name, args, s, scope, depth):
        P = lambda x: self._parse(x, scope, depth + 1)
        b = name.split("::")[-1]
        std = name.startswith("std::") or "::" not in name or name.startswith("__gnu")
        if not std:
            b = ""
        if b in ("vector", "deque", "queue", "stack", "list", "priority_queue"):
            if b == "priority_queue":
                c = args[2] if len(args) > 2 else "std::less"
                if not c.startswith(("std::less", "std::greater")):
                    raise TypeErr("ordering of " + name)
                return TVec(P(args[0]), "pq<" if "less" in c else "pq>")
            if b == "stack":
                raise TypeErr("stack")
            return TVec(P(args[0]), "vector")
        if b == "basic_string":
            return self.ov["std::string"]
        if b == "initializer_list":
            return TVec(P(args[0]), "vector")
        if b == "array":
            c = "std::array<%s, %s>" % (strip_cv(args[0]), args[1])
            if c in self.ov:
                return self.ov[c]
            n = re.sub(r"[UuLl]+$", "", args[1])
            if not n.isdigit():
                n = self.const_arg(n, scope)
            c = "std::array<%s, %s>" % (strip_cv(args[0]), n)
            if c in self.ov:
                return self.ov[c]
            et = P(args[0])
            if et == TInt(8, False) and int(n) == 32 and "std::array<unsigned char, 32>" in self.ov:
                return self.ov["std::array<unsigned char, 32>"]
            return TVec(et, "array", int(n))
        if b in ("unordered_map", "map", "multimap", "unordered_multimap"):
            m = re.match(r"^(typename )?(std::)?(__detail::)?_Node_(const_)?iterator<(std::)?pair<(.*)", strip_cv(args[1]))
            if m:
                return TMap(P(args[0]), TIterK(P(strip_cv(split_args(m.group(6))[0]))), ordered=(b == "map"))
            return TMap(P(args[0]), P(args[1]), ordered=(b == "map"))
        if b in ("unordered_set", "set"):
            return TSet(P(args[0]), ordered=(b == "set"))
        if b == "optional":
            return TOpt(P(args[0]))
        if b == "variant":
            return TVar([P(a) for a in args])
        if b in ("pair", "tuple"):
            names = ["first", "second"] if b == "pair" else ["_%d" % i for i in range(len(args))]
            ts = [P(a) for a in args]
            return TRec("%s<%s>" % (b, ",".join(t.name for t in ts)), list(zip(names, ts)))
        if b in ("function",):
            return TOpaque("Fn")
        if b in ("shared_ptr", "unique_ptr", "weak_ptr", "__shared_ptr", "__shared_ptr_access"):
            inner = strip_cv(args[0])
            m = re.match(r"^(std::)?_NonArray<(.*)>$", inner)
            if m:
                inner = strip_cv(m.group(2))
            try:
                it = self._parse(inner, scope, depth + 1)
                inner = it.q if isinstance(it, (TRec, TEnum)) else "<%s>" % it.name if isinstance(it, (TMap, TInt, TVec)) else inner
            except TypeErr:
                pass
            for pre, nm in self.ptr_alias.items():
                if inner.startswith(pre):
                    inner = nm
            return TOpaque("P_" + sanitize(inner.split("::")[-1] if "<" not in inner else inner))
        if b in ("atomic", "future"):
            return P(args[0])
        if b == "reference_wrapper":
            return P(args[0])
        if b in ("remove_reference_t", "decay_t", "remove_const_t", "remove_cv_t"):
            return P(args[0])
        if b in ("unique_lock", "shared_lock", "lock_guard", "scoped_lock"):
            return TUnit()
        if b == "duration" or b == "time_point":
            return TInt(64, True)
        return None

    def _templrec(self, name, args, scope, depth):
        """specialisation of a class template of the program"""
        base = name.split("::")[-1]
        if not hasattr(self, "_spec"):
            self._spec = {}
            for q in self.prog.records:
                n, a = template(q)
                if a is not None:
                    self._spec.setdefault(n.split("::")[-1], []).append((q, n, a))
        for q, n, a in self._spec.get(base, ()):
            if len(a) < len(args) or not (n.endswith(name) or name.endswith(n)):
                continue
            ok = True
            for x, y in zip(args, a):
                if x == y:
                    continue
                try:
                    if self._parse(x, scope, depth + 1) != self._parse(y, "", depth + 1):
                        ok = False
                        break
                except TypeErr:
                    ok = False
                    break
            if ok:
                return self.rec(q)
        return None

    def const_arg(self, n, scope):
        q = self.resolve(n, scope, self.prog.vars)
        if q:
            for c in self.prog.vars[q].walk():
                if c.kind == "IntegerLiteral":
                    return c.d["value"]
        raise TypeErr("array bound " + n)

    def rec(self, q):
        if q in self.recs:
            return self.recs[q]
        node = self.prog.records[q]
        T = TRec(q, None, node)
        self.recs[q] = T
        fields = []
        for b in node.get("bases", []) or []:
            bt = b["type"]
            bs = bt.get("desugaredQualType", bt.get("qualType"))
            try:
                B_ = self._parse(bs, q, 1)
                if isinstance(B_, TRec):
                    fields += B_.fields
            except TypeErr:
                pass
        for c in node.inner:
            if c.kind == "FieldDecl":
                try:
                    ft = self._parse(c.qt, q, 1)
                except (TypeErr, ValueError):
                    ft = TOpaque("X_" + sanitize(c.qt))
                if isinstance(ft, TRec) and ft.fields is None:
                    raise TypeErr("recursive record " + q)
                fields.append((c.name, ft))
        T.fields = fields
        if q in self.keyproj:
            T.keyproj = self.keyproj[q]
        if q in self.eqproj:
            T.eqproj = self.eqproj[q]
        return T
