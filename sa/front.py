"""Front end: type-checked AST of /repo's current source, via clang's JSON dump.

A *unit* is a driver translation unit (in /verif/drivers) that includes headers
of /repo and explicitly instantiates their templates, so that every body seen
here is resolved and type-checked by clang.  Nothing is executed or linked.
"""
import json, os, subprocess, sys, hashlib, tempfile

from . import eigen_overlay

SLIM = ("solver",)      # units that leave the factorisations out

REPO = os.environ.get("SA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    """An anchor vanished, or the source no longer parses: no verdict."""


FLAGS = ["-std=c++17", "-fsyntax-only", "-w", "-DNDEBUG", "-ferror-limit=3"]


def clang_cmd(src, filt, incs=(), overlay=None):
    cmd = ["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"]
    cmd += FLAGS
    if overlay:
        cmd += ["-ivfsoverlay", overlay, "-DEIGEN_DONT_VECTORIZE"]
    cmd += ["-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(REPO, "include"),
            "-I/usr/include/eigen3"]
    cmd += ["-I" + i for i in incs]
    if filt is not None:
        cmd += ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt]
    cmd += [src]
    return cmd


class LocState:
    __slots__ = ("file", "line")


def _parse_docs(text):
    st = LocState()
    st.file = None
    st.line = None

    ids = {}

    def norm(x):
        r = ids.get(x)
        if r is None:
            r = ids[x] = "n%d" % len(ids)
        return r

    def hook(o):
        for k, v in o.items():         # node addresses -> running numbers: the same source gives the same terms
            if v.__class__ is str and v[:2] == "0x":
                o[k] = norm(v)
        if "tokLen" in o and "offset" in o:
            f = o.get("file")
            if f is not None:
                st.file = f
            l = o.get("line")
            if l is not None:
                st.line = l
            return (st.file, st.line, o.get("col"), o["offset"], o["tokLen"])
        return o

    dec = json.JSONDecoder(object_hook=hook)
    i, n, docs = 0, len(text), []
    while i < n:
        while i < n and text[i] in " \n\r\t":
            i += 1
        if i >= n:
            break
        st.file = None
        st.line = None
        o, i = dec.raw_decode(text, i)
        docs.append(o)
    return docs


def loc_of(node):
    """(file, line) of a node: begin of range, expansion location for macros."""
    r = node.get("range")
    if isinstance(r, dict):
        b = r.get("begin")
    else:
        b = None
    if b is None or b == {}:
        b = node.get("loc")
    if isinstance(b, dict):
        b = b.get("expansionLoc") or b.get("spellingLoc")
    if isinstance(b, tuple):
        return (b[0], b[1])
    return (None, None)


def src_range(node):
    r = node.get("range")
    if not isinstance(r, dict):
        return None
    b, e = r.get("begin"), r.get("end")

    def sp(x):
        if isinstance(x, dict):
            return x.get("spellingLoc") or x.get("expansionLoc")
        return x
    b, e = sp(b), sp(e)
    if isinstance(b, tuple) and isinstance(e, tuple) and b[0] == e[0]:
        return (b[0], b[3], e[3] + e[4])
    return None


_filecache = {}


def src_text(node):
    r = src_range(node)
    if not r or not r[0]:
        return ""
    if r[0] not in _filecache:
        try:
            _filecache[r[0]] = open(r[0], "rb").read()
        except OSError:
            return ""
    return _filecache[r[0]][r[1]:r[2]].decode("utf8", "replace")


def split_targs(s):
    """top-level comma-separated template arguments"""
    out, d, cur = [], 0, ""
    for c in s:
        d += (c in "<(") - (c in ">)")
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
              "CXXDestructorDecl", "CXXConversionDecl")
REC_KINDS = ("CXXRecordDecl", "ClassTemplateSpecializationDecl")


class Func:
    __slots__ = ("id", "name", "rec", "ns", "node", "params", "body", "virtual",
                 "const", "static", "kind", "targs", "type", "inits", "deleted",
                 "defaulted", "implicit", "override", "file", "line", "unit", "noreturn_")

    def __repr__(self):
        return "<%s>" % self.qual

    @property
    def qual(self):
        p = self.rec.name + "::" if self.rec else ""
        return p + self.name

    def where(self):
        return "%s:%s" % (rel(self.file), self.line)


class Rec:
    __slots__ = ("id", "name", "targs", "node", "bases", "fields", "methods",
                 "ns", "file", "line", "outer")

    def __repr__(self):
        return "<rec %s<%s>>" % (self.name, ",".join(self.targs))


EIGEN_CONST = {"Lower": 1, "Upper": 2, "UnitDiag": 4, "ZeroDiag": 8, "UnitLower": 5, "UnitUpper": 6,
               "StrictlyLower": 9, "StrictlyUpper": 10, "Dynamic": -1, "ColMajor": 0, "RowMajor": 1}


def const_value(n, enums, vars_, depth=0):
    """value of an integral constant expression, or None"""
    k = n.get("kind")
    inner = [c for c in n.get("inner") or () if c]
    if depth > 12:
        return None
    ev = lambda c: const_value(c, enums, vars_, depth + 1)
    if "value" in n and k in ("ConstantExpr", "IntegerLiteral", "CXXBoolLiteralExpr"):
        v = n["value"]
        if v in (True, "true", "True"):
            return 1
        if v in (False, "false", "False"):
            return 0
        try:
            return int(v)
        except (TypeError, ValueError):
            return None
    if k in ("ConstantExpr", "ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr",
             "CXXFunctionalCastExpr", "SubstNonTypeTemplateParmExpr", "ExprWithCleanups"):
        t = (n.get("type") or {}).get("desugaredQualType") or (n.get("type") or {}).get("qualType") or ""
        v = ev(inner[-1]) if inner else None
        return v if v is None or t.replace("const ", "") != "bool" else int(v != 0)
    if k == "DeclRefExpr":
        d = n.get("referencedDecl") or {}
        if d.get("kind") == "EnumConstantDecl":
            e = enums.get(d.get("id"))
            return e[2] if e is not None else EIGEN_CONST.get(d.get("name"))
        if d.get("kind") == "VarDecl" and d.get("id") in vars_:
            v = vars_[d["id"]][0]
            ini = [c for c in v.get("inner") or () if c.get("kind", "").endswith(("Expr", "Operator", "Literal"))]
            t = (v.get("type") or {}).get("qualType", "")
            if (v.get("constexpr") or t.startswith("const ")) and ini:
                return ev(ini[-1])
        return None
    if k == "UnaryOperator" and inner:
        v = ev(inner[0])
        return None if v is None else {"-": -v, "!": int(not v), "+": v, "~": ~v}.get(n.get("opcode"))
    if k == "BinaryOperator" and len(inner) == 2:
        a, b = ev(inner[0]), ev(inner[1])
        if a is None or b is None:
            return None
        try:
            return {"&": lambda: a & b, "|": lambda: a | b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
                    "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b),
                    ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                    "<<": lambda: a << b, ">>": lambda: a >> b, "&&": lambda: int(bool(a and b)),
                    "||": lambda: int(bool(a or b)), "^": lambda: a ^ b}[n.get("opcode")]()
        except (KeyError, ValueError):
            return None
    if k == "ConditionalOperator" and len(inner) == 3:
        c = ev(inner[0])
        return None if c is None else ev(inner[1] if c else inner[2])
    return None


def rel(f):
    if f and "/../" in f:
        f = os.path.normpath(f)
    if f and f.startswith(REPO + "/"):
        return f[len(REPO) + 1:]
    if f and "/include/proxsuite-nlp/" in f:
        return f
    return f or "?"


def qt(node):
    t = node.get("type")
    if not t:
        return ""
    return t.get("desugaredQualType") or t.get("qualType") or ""


def qtw(node):
    t = node.get("type")
    return (t or {}).get("qualType") or ""


def desugared(node):
    t = node.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


class Unit:
    """All declarations seen in one driver TU."""

    def __init__(self, name, text=None, filt="proxsuite", src=None):
        self.name = name
        self.recs = {}
        self.funcs = {}
        self.vars = {}      # namespace-scope and static variables
        self.nodes = {}     # decl id -> node
        self.enums = {}
        self.prev = {}
        self.byname = {}
        if src is None:
            src = os.path.join(VERIF, "drivers", name + ".cpp")
        with tempfile.TemporaryDirectory(prefix="sa-") as tmp:
            y = eigen_overlay.make(tmp, REPO if name in SLIM else None)
            p = subprocess.run(clang_cmd(src, filt, overlay=y), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            p = subprocess.run(clang_cmd(src, filt), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise AnalysisBroken("clang cannot analyse unit %s:\n%s" % (
                name, p.stderr.decode("utf8", "replace")[:3000]))
        self.docs = _parse_docs(p.stdout.decode("utf8", "replace"))
        for d in self.docs:
            self._walk(d, [], None, False)
        self._link()

    # -- indexing ---------------------------------------------------------
    def _walk(self, n, ns, rec, pattern):
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        if k is None:
            return
        if "id" in n and k.endswith("Decl"):
            if n["id"] not in self.nodes or n.get("inner"):
                self.nodes[n["id"]] = n
        inner = n.get("inner") or ()
        if k == "NamespaceDecl":
            for c in inner:
                self._walk(c, ns + [n.get("name", "")], rec, pattern)
        elif k in ("ClassTemplateDecl", "FunctionTemplateDecl", "VarTemplateDecl"):
            first = True
            for c in inner:
                ck = c.get("kind")
                if first and (ck in REC_KINDS or ck in FUNC_KINDS or ck == "VarDecl"):
                    self._walk(c, ns, rec, True)
                    first = False
                else:
                    self._walk(c, ns, rec, pattern)
        elif k == "ClassTemplatePartialSpecializationDecl":
            pass
        elif k in REC_KINDS:
            if pattern:
                return
            if not n.get("completeDefinition"):
                return
            if n["id"] in self.recs:
                return
            r = Rec()
            r.id = n["id"]
            r.name = n.get("name", "")
            r.ns = list(ns)
            r.node = n
            r.outer = rec
            r.targs = []
            for c in inner:
                if c.get("kind") == "TemplateArgument":
                    if "type" in c:
                        r.targs.append(qt(c))
                    elif "value" in c:
                        r.targs.append(str(c["value"]))
                    else:
                        r.targs.append("?")
            r.bases = [b.get("type", {}) for b in n.get("bases", [])]
            r.bases = [b.get("desugaredQualType") or b.get("qualType") for b in r.bases]
            r.fields = []
            r.methods = []
            r.file, r.line = loc_of(n)
            self.recs[r.id] = r
            for c in inner:
                ck = c.get("kind")
                if ck == "FieldDecl":
                    r.fields.append(c)
                    self.nodes[c["id"]] = c
                else:
                    self._walk(c, ns, r, False)
        elif k in FUNC_KINDS:
            if pattern:
                return
            self._func(n, ns, rec)
        elif k == "VarDecl":
            if not pattern:
                self.vars[n["id"]] = (n, list(ns), rec)
        elif k == "EnumDecl":
            v = -1
            for c in inner:
                if c.get("kind") == "EnumConstantDecl":
                    val = None
                    for e in c.get("inner") or ():
                        x = const_value(e, self.enums, self.vars)
                        if x is not None:
                            val = x
                    v = val if val is not None else v + 1
                    self.enums[c["id"]] = (n.get("name", ""), c.get("name"), v)
                    self.nodes[c["id"]] = c
        elif k == "FriendDecl":
            for c in inner:
                if c.get("kind") in FUNC_KINDS or c.get("kind") == "FunctionTemplateDecl":
                    self._walk(c, ns, None, pattern)
        elif k in ("LinkageSpecDecl",):
            for c in inner:
                self._walk(c, ns, rec, pattern)

    def _func(self, n, ns, rec):
        f = Func()
        f.id = n["id"]
        f.name = n.get("name", "")
        f.rec = rec
        f.ns = list(ns)
        f.node = n
        f.kind = n["kind"]
        f.unit = self
        f.params = [c for c in n.get("inner") or () if c.get("kind") == "ParmVarDecl"]
        for p in f.params:
            self.nodes[p["id"]] = p
        f.body = None
        f.inits = []
        f.targs = []
        for c in n.get("inner") or ():
            ck = c.get("kind")
            if ck in ("CompoundStmt", "CXXTryStmt"):
                f.body = c
            elif ck == "CXXCtorInitializer":
                f.inits.append(c)
            elif ck == "TemplateArgument":
                f.targs.append(qt(c) if "type" in c else str(c.get("value", "?")))
        f.virtual = bool(n.get("virtual"))
        f.override = any(c.get("kind") == "OverrideAttr" for c in n.get("inner") or ())
        f.type = qtw(n)
        f.const = f.type.rstrip().endswith("const") or ") const" in f.type
        f.static = n.get("storageClass") == "static"
        f.deleted = bool(n.get("explicitlyDeleted"))
        f.defaulted = n.get("explicitlyDefaulted")
        f.implicit = bool(n.get("isImplicit"))
        f.file, f.line = loc_of(n)
        old = self.funcs.get(f.id)
        if old is not None and old.body is not None and f.body is None:
            return
        self.funcs[f.id] = f
        pd = n.get("previousDecl")
        if pd:
            self.prev[f.id] = pd
        if rec is not None and old is None:
            rec.methods.append(f)

    def _link(self):
        # definitions found out of line: map declaration -> definition
        self.defs = {}
        for fid, pid in self.prev.items():
            f = self.funcs[fid]
            if f.body is not None:
                while pid is not None:
                    self.defs[pid] = f
                    if pid in self.funcs and f.rec is None:
                        f.rec = self.funcs[pid].rec
                        f.virtual = f.virtual or self.funcs[pid].virtual
                    pid = self.prev.get(pid)
        # virtual through override of a base method
        bykey = {}
        for r in self.recs.values():
            bykey.setdefault(r.name, []).append(r)
        self.recname = bykey
        changed = True
        names = {}
        for r in self.recs.values():
            for m in r.methods:
                names.setdefault(m.name, []).append(m)
        self.byname = {}
        for f in self.funcs.values():
            self.byname.setdefault(f.name, []).append(f)
        for m in self.funcs.values():
            if m.override:
                m.virtual = True
        for r in self.recs.values():
            for m in r.methods:
                if not m.virtual and m.kind == "CXXMethodDecl" and not m.static:
                    if self._base_virtual(r, m, 0):
                        m.virtual = True

    def base_recs(self, r):
        out = []
        for b in r.bases:
            nm = strip_type(b)
            for x in self.recname.get(nm[0], ()):
                if self._same_targs(x, nm[1], len(self.recname[nm[0]])):
                    out.append(x)
                    break
        return out

    def _same_targs(self, x, targs, ncand):
        if ncand == 1:
            return True
        a = ",".join(x.targs).replace(" ", "")
        b = targs.replace(" ", "")
        return a == b or a.startswith(b)

    def all_bases(self, r):
        out, work = [], [r]
        while work:
            x = work.pop()
            for b in self.base_recs(x):
                if b not in out:
                    out.append(b)
                    work.append(b)
        return out

    def _base_virtual(self, r, m, depth):
        for b in self.all_bases(r):
            for bm in b.methods:
                if bm.name == m.name and len(bm.params) == len(m.params) and bm.virtual:
                    return True
        return False

    # -- lookup ------------------------------------------------------------
    def func_by_id(self, fid):
        f = self.funcs.get(fid)
        if f is not None and f.body is None and fid in self.defs:
            return self.defs[fid]
        return f

    def find(self, rec, name, npar=None, pred=None, targs=None, must=True):
        """Functions with a body, by record name (or None) and name."""
        out = []
        for f in self.byname.get(name, ()):
            if f.body is None:
                continue
            rn = f.rec.name if f.rec else None
            if rn != rec:
                continue
            if npar is not None and len(f.params) != npar:
                continue
            if targs is not None and not (f.rec and targs(f.rec.targs)):
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        if must and not out:
            raise AnalysisBroken("anchor not found: %s::%s%s" % (
                rec, name, "" if npar is None else "/%d" % npar))
        return out

    def record(self, name, pred=None, must=True):
        for r in self.recname.get(name, ()):
            if pred is None or pred(r):
                return r
        if must:
            raise AnalysisBroken("anchor not found: class %s" % name)
        return None


def strip_type(t):
    """'const a::b::C<X, Y> &' -> ('C', 'X, Y');  'C<X>::D' -> ('D', '')"""
    t = t.replace("const ", "").replace("struct ", "").replace("class ", "").strip()
    t = t.rstrip("&* ")
    d, cut = 0, 0                      # last '::' outside template arguments
    for i, ch in enumerate(t):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == ":" and d == 0:
            cut = i + 1
    t = t[cut:]
    targs = ""
    if "<" in t and ">" in t:
        i = t.index("<")
        targs = t[i + 1:t.rindex(">")]
        t = t[:i]
    return (t.strip(), targs)


_units = {}
FILTERS = {"bk": "aufman"}     # what this unit is about lives in Eigen's namespace


def load_units(names, filt="proxsuite"):
    """Load several units in parallel processes (parsing in threads)."""
    from concurrent.futures import ThreadPoolExecutor
    todo = [n for n in names if n not in _units]
    if todo:
        with ThreadPoolExecutor(max_workers=8) as ex:
            for n, u in zip(todo, ex.map(lambda n: Unit(n, filt=FILTERS.get(n, filt)), todo)):
                _units[n] = u
    return [_units[n] for n in names]
