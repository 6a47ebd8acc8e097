"""Front end: runs clang on a source file of /repo's working tree and indexes its AST.

The verified text is whatever clang parses from /repo on this run; nothing is
transcribed by hand.  Only declarations whose qualified name contains `cbdc`
(plus explicitly named extras) are dumped; everything else is library code that
is handled by the trusted library axioms in lib.py.
"""
import json, os, subprocess, hashlib, sys

REPO = os.environ.get("DV_REPO", "/repo")
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim")

FUNC_KINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl",
              "CXXConversionDecl"}


class FrontError(Exception):
    pass


def clang_args(use_shim=False):
    a = ["clang++", "-std=c++20" if False else "-std=c++17", "-fsyntax-only", "-w",
         "-I" + REPO + "/src", "-I" + REPO + "/3rdparty", "-I" + REPO + "/3rdparty/secp256k1/include"]
    # The shim directory only supplies headers of dependencies that are not installed here
    # (declarations without bodies: every function in it is an assumed contract).
    a += ["-isystem", SHIM]
    return a


class N:
    """AST node wrapper."""
    __slots__ = ("d", "kind", "id", "inner", "line", "file", "parent")

    def __init__(self, d, parent=None):
        self.d = d
        self.kind = d.get("kind", "?")
        self.id = d.get("id")
        self.parent = parent
        self.inner = [N(c, self) for c in d.get("inner", ()) if c and not c.get("kind", "").endswith(("Attr", "Comment"))]
        self.line = d.get("_line")
        self.file = d.get("_file")

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def name(self):
        return self.d.get("name", "")

    @property
    def qt(self):
        t = self.d.get("type")
        if not t:
            return ""
        return t.get("qualType", "")

    @property
    def dqt(self):
        t = self.d.get("type")
        if not t:
            return ""
        return t.get("desugaredQualType", t.get("qualType", ""))

    def walk(self):
        yield self
        for c in self.inner:
            yield from c.walk()

    def find(self, kind):
        for n in self.walk():
            if n.kind == kind:
                yield n

    def loc(self):
        return "%s:%s" % ((self.file or "?").replace(REPO + "/", ""), self.line)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.name, self.loc())

    def dump(self, ind=0, maxd=99):
        s = "  " * ind + self.kind
        if self.name:
            s += " name=" + self.name
        if self.qt:
            s += " : " + self.qt
            if self.dqt != self.qt:
                s += " ~ " + self.dqt
        for k in ("opcode", "castKind", "value", "valueCategory", "isArrow", "isPostfix"):
            if k in self.d:
                s += " %s=%s" % (k, self.d[k])
        r = self.d.get("referencedDecl")
        if r:
            s += " ->%s %s" % (r.get("kind"), r.get("name"))
        if "referencedMemberDecl" in self.d:
            s += " member"
        s += " @%s" % self.line
        out = [s]
        if ind < maxd:
            for c in self.inner:
                out.append(c.dump(ind + 1, maxd))
        return "\n".join(out)


def _fix_locs(docs):
    st = {"file": None, "line": None}

    def bare(l):
        if "spellingLoc" in l or "expansionLoc" in l:
            r = None
            for k in ("spellingLoc", "expansionLoc"):
                if k in l:
                    r = bare(l[k])
            return r
        if "file" in l:
            st["file"] = l["file"]
        if "line" in l:
            st["line"] = l["line"]
        if "offset" in l or "line" in l:
            return (st["file"], st["line"])
        return None

    def rec(d):
        here = None
        if "loc" in d:
            here = bare(d["loc"])
        if "range" in d:
            b = bare(d["range"].get("begin", {}))
            bare(d["range"].get("end", {}))
            here = b or here
        if here:
            d["_file"], d["_line"] = here
        for c in d.get("inner", ()):
            if c:
                rec(c)
    for d in docs:
        rec(d)


class TU:
    def __init__(self, path, filt=("cbdc",), extra=()):
        self.path = path
        full = os.path.join(REPO, path) if not os.path.isabs(path) else path
        if not os.path.exists(full):
            raise FrontError("source file missing: " + path)
        docs = []
        for f in filt:
            cmd = clang_args() + list(extra) + ["-Xclang", "-ast-dump=json", "-Xclang",
                                                "-ast-dump-filter=" + f, full]
            p = subprocess.run(cmd, capture_output=True)
            if p.returncode != 0:
                raise FrontError("clang failed on %s:\n%s" % (path, p.stderr.decode()[:3000]))
            txt = p.stdout.decode()
            dec = json.JSONDecoder()
            i = 0
            n = len(txt)
            while True:
                while i < n and txt[i] != "{":
                    # skip "Dumping xxx:" headers
                    j = txt.find("\n", i)
                    if j < 0:
                        i = n
                        break
                    i = j + 1
                if i >= n:
                    break
                d, i = dec.raw_decode(txt, i)
                docs.append(d)
        _fix_locs(docs)
        seen = set()
        self.roots = []
        for d in docs:
            if d.get("id") in seen:
                continue
            self.roots.append(N(d))
            seen.add(d.get("id"))


class Program:
    """Union of several TUs, indexed by qualified name / mangled name."""

    def __init__(self, paths, extra=()):
        self.tus = []
        self.byid = {}          # (tu index, id) -> node      ids are unique per process run only
        self.funcs = {}         # qualified name -> [definition nodes]
        self.mangled = {}       # mangled name -> definition node
        self.records = {}       # qualified name -> node (definition)
        self.enums = {}
        self.aliases = {}       # qualified name -> (type string, scope)
        self.vars = {}          # qualified name -> VarDecl node with init
        self.scope_of = {}      # node id(obj) -> scope string
        self.enumconst = {}     # decl (tu,id) -> int
        self.enumvals = {}      # enum qualified name -> {name: int}
        self.tu_of = {}
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            self.tus = list(ex.map(lambda p: TU(p, extra=extra), paths))
        for ti, tu in enumerate(self.tus):
            for r in tu.roots:
                self._index(r, "", ti, None)

    # -- indexing
    def _index(self, n, scope, ti, cls):
        n.d["_tu"] = ti
        if n.id:
            self.byid[(ti, n.id)] = n
        k = n.kind
        if k == "NamespaceDecl":
            sc = scope + "::" + n.name if scope else n.name
            if not n.name:
                sc = scope
            for c in n.inner:
                self._index(c, sc, ti, None)
            return
        if k in ("LinkageSpecDecl",):
            for c in n.inner:
                self._index(c, scope, ti, cls)
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
            for c in n.inner:
                self._index(c, scope, ti, cls)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl",
                 "ClassTemplatePartialSpecializationDecl"):
            nm = n.name
            if not nm:
                nm = "(anon@%s)" % n.id
            q = scope + "::" + nm if scope else nm
            if k == "ClassTemplateSpecializationDecl":
                q += "<" + self._targs(n) + ">"
            n.d["_q"] = q
            if n.get("completeDefinition"):
                self.records.setdefault(q, n)
            for c in n.inner:
                self._index(c, q, ti, n)
            return
        if k == "EnumDecl":
            q = (scope + "::" + n.name) if n.name else scope
            self.enums[q] = n
            n.d["_q"] = q
            v = -1
            vals = self.enumvals.setdefault(q, {})
            for c in n.inner:
                if c.kind == "EnumConstantDecl":
                    x = None
                    for cc in c.walk():
                        if cc.kind == "ConstantExpr" and "value" in cc.d:
                            x = int(cc.d["value"])
                            break
                        if cc.kind == "IntegerLiteral":
                            x = int(cc.d["value"])
                    v = x if x is not None else v + 1
                    vals[c.name] = v
                    self.enumconst[(ti, c.id)] = v
            return
        if k in ("TypeAliasDecl", "TypedefDecl"):
            q = scope + "::" + n.name if scope else n.name
            t = n.get("type", {})
            self.aliases.setdefault(q, (t.get("qualType", ""), scope, t.get("desugaredQualType")))
            return
        if k == "TypeAliasTemplateDecl":
            for c in n.inner:
                if c.kind == "TypeAliasDecl":
                    q = scope + "::" + n.name
                    self.aliases.setdefault(q, (c.get("type", {}).get("qualType", ""), scope, None))
            return
        if k in FUNC_KINDS:
            # out-of-line methods: scope comes from parentDeclContextId
            sc = scope
            pid = n.get("parentDeclContextId")
            if pid and (ti, pid) in self.byid:
                pn = self.byid[(ti, pid)]
                sc = pn.d.get("_q", self.scope_of.get((ti, pid), scope))
                if pn.kind == "NamespaceDecl":
                    sc = scope
            q = sc + "::" + n.name if sc else n.name
            n.d["_q"] = q
            n.d["_scope"] = sc
            prev = n.get("previousDecl")
            if prev and (ti, prev) in self.byid and "_q" in self.byid[(ti, prev)].d:
                pq = self.byid[(ti, prev)].d
                n.d["_q"] = pq["_q"]
                n.d["_scope"] = pq["_scope"]
                q = pq["_q"]
            body = any(c.kind in ("CompoundStmt", "CXXTryStmt") for c in n.inner)
            if body:
                self.funcs.setdefault(q, []).append(n)
                m = n.get("mangledName")
                if m:
                    self.mangled.setdefault(m, n)
            for c in n.inner:
                self._index_expr(c, q, ti)
            return
        if k == "VarDecl":
            q = scope + "::" + n.name if scope else n.name
            self.vars.setdefault(q, n)
            for c in n.inner:
                self._index_expr(c, q, ti)
            return
        for c in n.inner:
            self._index_expr(c, scope, ti)

    def _index_expr(self, n, scope, ti):
        n.d["_tu"] = ti
        if n.id:
            self.byid.setdefault((ti, n.id), n)
        if n.kind in ("CXXRecordDecl",):
            n.d.setdefault("_q", scope + "::" + (n.name or "(anon@%s)" % n.id))
            if n.name:
                self.records.setdefault(n.d["_q"], n)
        if n.kind in FUNC_KINDS:
            n.d.setdefault("_q", scope + "::" + n.name)
            n.d.setdefault("_scope", scope)
        if n.kind in ("TypeAliasDecl", "TypedefDecl"):
            t = n.get("type", {})
            self.aliases.setdefault(scope + "::" + n.name,
                                    (t.get("qualType", ""), scope, t.get("desugaredQualType")))
        for c in n.inner:
            self._index_expr(c, scope, ti)

    def _targs(self, n):
        a = []
        for c in n.inner:
            if c.kind == "TemplateArgument":
                if "type" in c.d:
                    a.append(c.qt)
                elif "value" in c.d:
                    a.append(str(c.d["value"]))
                else:
                    a.append("?")
        return ", ".join(a)

    def fn(self, q, nparams=None, ptypes=None):
        c = self.funcs.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(params(f)) == nparams]
        if ptypes is not None:
            c = [f for f in c if ptypes in f.qt]
        if not c:
            raise FrontError("no definition of %s" % q)
        return c[0]


def params(f):
    return [c for c in f.inner if c.kind == "ParmVarDecl"]


def body(f):
    for c in f.inner:
        if c.kind in ("CompoundStmt", "CXXTryStmt"):
            return c
    return None


if __name__ == "__main__":
    P = Program([sys.argv[1]])
    if len(sys.argv) > 2:
        for f in P.funcs.get(sys.argv[2], []):
            print(f.dump())
    else:
        for q in sorted(P.funcs):
            print(q, len(P.funcs[q]))
