"""Gated value numbering over the type-checked AST.

One abstract pass over a function body computes, for every memory location, the
term it holds (reaching definitions merged by guards at joins), and a list of
*events* (stores, opaque calls, throws, returns) with the control condition under
which each is reached and the loops around it.  Non-virtual functions of the
repository and local lambdas are expanded at their call sites, so extracting a
helper or introducing a temporary does not change the result.  Counted loops get
closed forms (prefix sums, element maps, for-all/exists); other loops keep one
symbolic state per loop head.  No path is enumerated and no solver is used.
"""
import re

from .terms import *
from . import front
from .front import qt, qtw, loc_of, rel, AnalysisBroken, src_text

STRIP = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
         "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr", "FullExpr",
         "ConstantExpr"}
INT_TYPES = {"int", "long", "unsigned long", "unsigned int", "unsigned", "short", "char",
             "unsigned char", "long long", "unsigned long long", "std::size_t", "size_t",
             "isize", "usize", "Eigen::Index", "std::ptrdiff_t", "Index", "signed char",
             "ptrdiff_t", "size_type", "unsigned short"}
FLOAT_TYPES = {"double", "float", "long double", "Scalar", "S"}


def base_type(t):
    t = t.replace("const ", "").replace("volatile ", "").replace("struct ", "").replace("class ", "").replace("enum ", "")
    t = t.strip()
    if t.endswith(" const"):
        t = t[:-6]
    return t.rstrip("&* ").strip()


EIG = ("Eigen::Matrix<", "Eigen::Ref<", "Eigen::Block<", "Eigen::VectorBlock<",
       "Eigen::CwiseBinaryOp<", "Eigen::CwiseUnaryOp<", "Eigen::CwiseNullaryOp<",
       "Eigen::Product<", "Eigen::Transpose<", "Eigen::Diagonal<", "Eigen::NoAlias<",
       "Eigen::ArrayWrapper<", "Eigen::MatrixWrapper<", "Eigen::MatrixBase<",
       "Eigen::DenseBase<", "Eigen::ArrayBase<", "Eigen::Map<", "Eigen::Array<",
       "Eigen::PlainObjectBase<", "Eigen::Select<", "Eigen::DiagonalWrapper<",
       "Eigen::EigenBase<", "Eigen::CwiseTernaryOp<", "Eigen::Inverse<",
       "Eigen::TriangularView<", "Eigen::SelfAdjointView<", "Eigen::MapBase<",
       "Eigen::RefBase<", "Eigen::PermutationMatrix<", "Eigen::Transposition",
       "Eigen::VectorX", "Eigen::Reverse<", "Eigen::IndexedView<", "Eigen::DenseCoeffsBase<",
       "Eigen::internal::", "Eigen::PermutationBase<", "Eigen::VectorwiseOp<",
       "Eigen::PartialReduxExpr<", "Eigen::CwiseUnaryView<", "Eigen::DiagonalBase<",
       "Eigen::DiagonalMatrix<", "Eigen::ReturnByValue<", "Eigen::TransposeImpl<", "Eigen::Homogeneous")
EIG_SHORT = tuple(x.replace("Eigen::", "") for x in EIG) + (
    "VectorXs", "MatrixXs", "VectorRef", "MatrixRef", "ConstVectorRef", "ConstMatrixRef",
    "RowMatrixXs", "ScalarType")
LAZY = ("CwiseBinaryOp<", "CwiseUnaryOp<", "Product<", "CwiseTernaryOp<", "Select<")
VIEWT = ("Block<", "VectorBlock<", "Ref<", "Transpose<", "Diagonal<", "ArrayWrapper<",
         "MatrixWrapper<", "NoAlias<", "Map<")


def is_eigen(t):
    b = base_type(t)
    if b.endswith(">") and (b.startswith("proxsuite::") or b.startswith("TriangularBlockMatrix<")):
        return False
    return b.startswith(EIG) or b.startswith(EIG_SHORT) or "Eigen::" in b and not b.startswith("std::") \
        or b in ("VecBool", "VectorXBool", "MatrixType", "RowMatrix", "MatrixX", "VectorX", "VectorXi")


def is_lazy(t):
    b = base_type(t).replace("Eigen::", "")
    return b.startswith(LAZY) or b.startswith("DiagonalWrapper<")


def is_viewtype(t):
    b = base_type(t).replace("Eigen::", "")
    return b.startswith(VIEWT) or b in ("VectorRef", "MatrixRef", "ConstVectorRef", "ConstMatrixRef")


def is_mutable_ref(t):
    """parameter type through which the callee can write"""
    t = t.strip()
    b = base_type(t).replace("Eigen::", "")
    if b in ("VectorRef", "MatrixRef"):
        return True
    if b in ("ConstVectorRef", "ConstMatrixRef"):
        return False
    if b.startswith("Ref<"):
        return not b.startswith("Ref<const")
    if t.endswith("&&"):
        return False
    if t.endswith("&") or t.endswith("*"):
        core = t.rstrip("&* ").strip()
        return not (core.startswith("const ") or core.endswith("const"))
    return False


class State:
    __slots__ = ("store", "pc", "fams")

    def __init__(self, store=None, pc=TRUE, fams=None):
        self.store = store if store is not None else {}
        self.pc = pc
        self.fams = fams if fams is not None else {}

    def copy(self):
        return State(dict(self.store), self.pc, dict(self.fams))


class Frame:
    def __init__(self, fid, func, this):
        self.id = fid
        self.func = func
        self.this = this
        self.refs = {}       # decl id -> loc
        self.lazy = {}       # decl id -> (node, frame)
        self.closures = {}   # decl id -> (lambda node, frame)
        self.returns = []
        self.breaks = None
        self.continues = None
        self.parent = None


class Event:
    __slots__ = ("kind", "loc", "value", "pc", "ctx", "node", "where", "name",
                 "recv", "args", "outs", "was", "func", "seq", "old", "caught", "decl", "pcabs", "st")

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name or self.loc, self.value, self.where)


_two = {}


def two_valued(u):
    """names of the data members whose enumeration has exactly the enumerators 0 and 1"""
    if u not in _two:
        vals = {}
        for nm, _, v in u.enums.values():
            vals.setdefault(nm, []).append(v)
        names = set(n for n, v in vals.items() if n and sorted(v) == [0, 1])
        yes, no = set(), set()
        for rs in u.recname.values():
            for r in rs:
                for f in r.fields:
                    t = qt(f).replace("const ", "").strip().split("::")[-1]
                    (yes if t in names else no).add(f.get("name"))
        _two[u] = yes - no
    return _two[u]


class LoopCtx:
    __slots__ = ("id", "N", "bv", "phis", "back", "node", "cond", "where", "pc", "kind",
                 "closed", "exits", "entry", "func", "recs")


DEBUG = False
PURE_STD = {"max", "min", "pow", "sqrt", "abs", "fabs", "isnan", "isfinite", "isinf", "exp", "log",
            "move", "forward", "as_const", "addressof", "get", "swap", "make_tuple", "make_shared",
            "make_unique", "to_string", "underlying", "sin", "cos", "floor", "ceil", "isNaN"}


class Interp:
    def __init__(self, unit, noinline=(), inline_virtual=(), modes=None, depth=14, alias=None,
                 budget=400000, intrinsics=None, weak_throw=False, keep=()):
        self.intrinsics = intrinsics or {}
        self.weak_throw = weak_throw
        self.copyfresh = ()          # classes whose copies are kept apart as copyof(v)
        self.keep = set(keep)
        self.u = unit
        ENUM2.update(two_valued(unit))
        self.noinline = set(noinline)
        self.inline_virtual = set(inline_virtual)
        self.modes = modes or {}
        self.maxdepth = depth
        self.alias = alias
        self.events = []
        self.record = True
        self.nframe = 0
        self.nloop = 0
        self.loopstack = []
        self.trystack = []
        self.pcstack = []
        self.callstack = []
        self.fstack = [0]
        self.ids = {}
        self.modcache = {}
        self.locsort = {}
        self.intcells = set()
        self.seq = 0
        self.loops = []
        self.tmpn = 0
        self.budget = budget
        self.visits = 0
        self.unknown = {}
        self.inlined = set()
        self.local_static = []

    # ------------------------------------------------------------------
    def sort_of_type(self, t):
        b = base_type(t)
        if t.strip().endswith("*"):
            return "o"
        if b == "bool" or b == "_Bool":
            return "b"
        if b in INT_TYPES or b.endswith(("internal::SignMatrix", "Eigen::ComputationInfo")) or b in ("SignMatrix", "ComputationInfo"):
            return "i"
        if b in FLOAT_TYPES:
            return "s"
        if is_eigen(t):
            return "m"
        short = b.split("::")[-1]
        if short in self.enum_names():
            return "i"
        return "o"

    def enum_names(self):
        if not hasattr(self, "_en"):
            self._en = set(v[0] for v in self.u.enums.values())
        return self._en

    def init(self, loc, sort):
        s = self.locsort.get(loc)
        if s is None or (s == "o" and sort != "o"):
            if s is None:
                self.locsort[loc] = sort
                s = sort
            elif s == "o":
                s = sort
                self.locsort[loc] = sort
        return mk("init", loc, sort=s)

    # ------------------------------------------------------------------
    # locations
    VIEWOPS = ("vw",)

    def decomp(self, loc):
        """-> (cell, [view descriptors outermost first])"""
        ds = []
        while loc.op == "vw":
            ds.append(loc.args[1])
            loc = loc.args[0]
        ds.reverse()
        return loc, ds

    def vw(self, loc, d):
        # flatten nested simple views
        if d.op == "vT" and loc.op == "vw" and loc.args[1].op == "vT":
            return loc.args[0]
        if loc.op == "vw":
            p = loc.args[1]
            if d.op == "vseg" and p.op == "vseg":
                return self.vw(loc.args[0], mk("vseg", add(p.args[0], d.args[0]), d.args[1]))
            if d.op == "vseg" and p.op == "vdiag" and not has_bv(d):
                o, k = d.args
                return self.vw(self.vw(loc.args[0], mk("vblk", o, o, k, k)), p)
            if d.op == "velt" and p.op == "vseg" and len(d.args) == 1:
                return self.vw(loc.args[0], mk("velt", add(p.args[0], d.args[0])))
            if d.op == "vblk" and p.op == "vblk":
                return self.vw(loc.args[0], mk("vblk", add(p.args[0], d.args[0]),
                                               add(p.args[1], d.args[1]), d.args[2], d.args[3]))
            if d.op == "velt" and p.op == "vblk" and len(d.args) == 2:
                return self.vw(loc.args[0], mk("velt", add(p.args[0], d.args[0]), add(p.args[1], d.args[1])))
            if d.op == "velt" and p.op == "vblk" and len(d.args) == 1:
                r, c, nr, nc = p.args
                if nc is ONE:
                    return self.vw(loc.args[0], mk("velt", add(r, d.args[0]), c))
                if nr is ONE:
                    return self.vw(loc.args[0], mk("velt", r, add(c, d.args[0])))
        return mk("vw", loc, d)

    def fld(self, loc, name):
        return mk("fld", loc, name)

    def canon(self, loc):
        if self.alias is not None:
            a = self.alias(loc)
            if a is not None:
                return a
        return loc

    # ------------------------------------------------------------------
    # memory
    def load(self, st, loc, sort="o"):
        loc = self.canon(loc)
        cell, ds = self.decomp(loc)
        cell = self.canon(cell)
        cell2, ds2 = self.decomp(cell)
        if ds2:
            cell, ds = cell2, ds2 + ds
        if cell.op == "val":
            v = cell.args[0]
        else:
            v = self.load_cell(st, cell, sort if not ds else "m")
        for d in ds:
            v = view(v, d)
        return v

    def load_cell(self, st, cell, sort):
        if cell.op == "deref":
            return map_leaves(cell.args[0], lambda a: self.load(st, self.target(a), sort))
        v = st.store.get(cell)
        if v is None:
            v = self.load_fam(st, cell)
        if v is None and cell.op == "idx":
            v = self.load_idx(st, cell, sort)
        if v is None:
            # nearest ancestor with a stored value
            if cell.op == "fld":
                pv = self.ancestor_value(st, cell.args[0])
                if pv is not None:
                    v = self.getf(st, pv, cell.args[1], sort)
        if v is None:
            v = self.init(cell, sort)
        if sort == "o":
            deep = set()
            for k, x in st.store.items():
                if k.op != "fld":
                    continue
                if k.args[0] is cell:
                    if not x.op == "opaque":
                        v = mk("with", v, k.args[1], x)
                elif cell.op == "fld" and k.args[0].op == "fld":
                    b = k.args[0]
                    while b.op == "fld":
                        if b.args[0] is cell:
                            deep.add(b)
                        b = b.args[0]
            for b in sorted(deep, key=lambda b: b.args[1]):
                v = mk("with", v, b.args[1], self.load_cell(st, b, "o"))
        return v

    def load_fam(self, st, cell):
        for pat, (val, N, var) in st.fams.items():
            j = match1(pat, cell, var)
            if j is not None:
                g = sign_of_counters(j) if is_num(j) or j.op in ("bv", "sum") else 2
                if g == -1:
                    continue
                v = subst(val, {var: j})
                if g == 0 and any(r is not None and add(j, x) is add(r, num(-1)) for x, r in RANGES.items()):
                    return v                    # N-1-i for an i below N
                if g == 0 and subst(pat, {var: ZERO}) is not pat and pat_shift(pat, var):
                    old = st.store.get(cell)
                    v = ite(lt(j, ZERO), old if old is not None else self.init(cell, val.sort), v)
                return v
            if same_shape(pat, cell):
                if val.op == "phi" and val.args[1] is pat:
                    continue                    # as they were when the round began
                z = meet(pat, cell, var)
                if z is False:
                    continue
                c0 = subst(cell, z)
                j = match1(subst(pat, z), c0, var) if z else None
                if j is not None and sign_of_counters(j) in (1, 2):
                    on = TRUE
                    for x in z:
                        on = and_(on, eq(x, ZERO))
                    old = st.store.get(cell)
                    return ite(on, subst(subst(val, z), {var: j}), old if old is not None else self.init(cell, val.sort))
                return opaque("element", sort=val.sort)
        return None

    def load_idx(self, st, cell, sort):
        L, i = cell.args
        base = None
        if L in st.store:
            base = self.elem_of(st, st.store[L], i, sort)
        else:
            pv = None
            if L.op == "fld":
                pv = self.ancestor_value(st, L.args[0])
                if pv is not None:
                    pv = self.getf(st, pv, L.args[1], "o")
            if pv is not None:
                base = self.elem_of(st, pv, i, sort)
        touched = False
        for k, x in st.store.items():
            if k.op == "idx" and k.args[0] is L:
                c = eq(k.args[1], i)
                if c is FALSE or (x.op == "init" and x.args[0] is k):
                    continue
                if base is None:
                    base = self.init(cell, sort)
                base = ite(c, x, base)
        return base

    def elem_of(self, st, v, i, sort):
        if v.op == "ite":
            return map_leaves(v, lambda x: self.elem_of(st, x, i, sort))
        if v.op == "comp":
            return inst(v, v.args[1], i)
        if v.op == "app":
            n = size(v.args[0])
            return ite(eq(i, n), v.args[1], self.elem_of(st, v.args[0], i, sort))
        if v.op == "cat":
            n = size(v.args[0])
            return ite(lt(i, n), self.elem_of(st, v.args[0], i, sort), self.elem_of(st, v.args[1], add(i, neg(n)), sort))
        if v.op == "init":
            return self.load_cell(st, mk("idx", v.args[0], i), sort) if v.args[0] not in st.store else self.init(mk("idx", v.args[0], i), sort)
        if v.op == "list":
            if i.op == "num" and int(i.args[0]) < len(v.args):
                return v.args[int(i.args[0])]
        if v.sort == "m":
            return elt(v, i)
        return mk("elem", v, i, sort=sort)

    def ancestor_value(self, st, cell):
        if cell in st.store:
            return st.store[cell]
        if cell.op == "fld":
            pv = self.ancestor_value(st, cell.args[0])
            if pv is not None:
                return self.getf(st, pv, cell.args[1], "o")
        if cell.op == "idx":
            v = self.load_fam(st, cell)
            if v is not None:
                return v
            v = self.load_idx(st, cell, "o")
            if v is not None:
                return v
        if cell.op == "val":
            return cell.args[0]
        return None

    def getf(self, st, v, f, sort):
        if v.op == "ite":
            return map_leaves(v, lambda x: self.getf(st, x, f, sort))
        if v.op == "init":
            return self.init(mk("fld", v.args[0], f), sort)
        if v.op == "with":
            if v.args[1] == f:
                return v.args[2]
            return self.getf(st, v.args[0], f, sort)
        if v.op == "addr":
            return self.load(st, mk("fld", v.args[0], f), sort)
        if v.op == "struct":
            for n, x in zip(v.args[1], v.args[2:]):
                if n == f:
                    return x
        return mk("getf", v, f, sort=sort)

    def target(self, v):
        """pointer value -> location"""
        if v.op == "addr":
            return v.args[0]
        if v.op == "init":
            return v.args[0]
        if v.op == "ite":
            return mk("deref", v)
        if v.op == "sum":
            # pointer arithmetic: p + k is element k of the array p points into
            ps = [x for x in v.args[0] if x[0] == 1 and not x[2] and len(x[1]) == 1 and x[1][0][1] == 1 and
                  (x[1][0][0].op == "addr" or x[1][0][0].sort == "o")]
            if len(ps) == 1:
                p = ps[0][1][0][0]
                k = add(v, neg(p))
                t = self.target(p)
                if p.op == "addr" and t.op == "idx":
                    return mk("idx", t.args[0], add(t.args[1], k))
                return mk("idx", t, k)
        return mk("val", v)

    def kill_under(self, st, cell):
        dead = [k for k in st.store if k is not cell and is_prefix(cell, k)]
        for k in dead:
            del st.store[k]
        for k in [k for k in st.fams if is_prefix(cell, k)]:
            del st.fams[k]

    def assign(self, st, loc, val, node=None, quiet=False, old=None):
        loc = self.canon(loc)
        cell, ds = self.decomp(loc)
        cell = self.canon(cell)
        cell2, ds2 = self.decomp(cell)
        if ds2:
            cell, ds = cell2, ds2 + ds
        if root(cell).op == "val":
            return            # a temporary
        if cell.op == "deref":
            # weak update over the guarded targets
            v = cell.args[0]

            def go(x, c):
                if x.op == "ite":
                    go(x.args[1], and_(c, x.args[0]))
                    go(x.args[2], and_(c, not_(x.args[0])))
                else:
                    t = self.target(x)
                    for d in ds:
                        t = self.vw(t, d)
                    old = self.load(st, t, val.sort)
                    self.assign(st, t, ite(c, val, old), node)
            go(v, TRUE)
            return
        if not ds:
            parts = struct_parts(val)
            self.kill_under(st, cell)
            if cell.op == "idx":
                for k in [k for k in st.fams if match1(k, cell, st.fams[k][2]) is not None]:
                    pass
            if parts is not None:
                st.store[cell] = parts[0]
                for f, x in parts[1].items():
                    self.assign(st, mk("fld", cell, f), x, node, quiet=True)
            else:
                st.store[cell] = val
        else:
            vals = [self.load_cell(st, cell, "m")]
            for d in ds[:-1]:
                vals.append(view(vals[-1], d))
            nv = val
            for v, d in zip(reversed(vals), reversed(ds)):
                nv = upd(v, d, nv)
            self.kill_under(st, cell)
            st.store[cell] = nv
        if not quiet:
            if ds:
                loc = cell
                for d in ds:
                    loc = self.vw(loc, d)
            else:
                loc = cell
            self.event("store", st, node, loc=loc, value=val, old=old)

    def event(self, kind, st, node, **kw):
        if not self.record:
            return None
        e = Event()
        e.kind = kind
        e.loc = e.value = e.name = e.recv = e.args = e.outs = e.old = e.decl = None
        e.caught = False
        for k, v in kw.items():
            setattr(e, k, v)
        e.pc = st.pc
        e.st = st.copy() if e.name in self.keep or kind in self.keep else None
        pc = st.pc
        e.ctx = [l for l in self.loopstack]
        outer = TRUE
        for p in self.pcstack:
            outer = and_(outer, p)
        e.pcabs = and_(outer, pc)
        e.node = node
        f = self.callstack[-1] if self.callstack else None
        e.func = f
        loc = loc_of(node) if node is not None else (None, None)
        e.where = "%s:%s" % (rel(loc[0]), loc[1])
        self.seq += 1
        e.seq = self.seq
        self.events.append(e)
        return e

    # ------------------------------------------------------------------
    # entry points
    def run(self, func, this=None, bind=None, pre=None):
        """summarise `func`; returns Summary.  `pre`: cell -> value known at entry"""
        st = State(dict(pre or {}))
        fr = self.new_frame(func, this if this is not None else mk("this"))
        for i, p in enumerate(func.params):
            t = qt(p)
            if bind and i in bind:
                b = bind[i]
                if isinstance(b, tuple) and b[0] == "loc":
                    fr.refs[p["id"]] = b[1]
                else:
                    st.store[self.local(p["id"], fr)] = b
                continue
            fr.refs[p["id"]] = mk("param", i, p.get("name", "_%d" % i))
        fr.refs_entry = dict(fr.refs)
        self.callstack.append(func)
        self.fstack.append(fr.id)
        if func.kind == "CXXConstructorDecl":
            self.ctor_inits(st, fr, func)
        out = self.exec(func.body, st, fr)
        self.callstack.pop()
        self.fstack.pop()
        if out is not None and out.pc is not FALSE:
            fr.returns.append((out, None))
        s = Summary()
        s.func = func
        s.events = self.events
        s.loops = self.loops
        s.returns = fr.returns
        s.interp = self
        s.frame = fr
        if fr.returns:
            s.final, s.ret = self.merge_returns(fr.returns)
        else:
            s.final, s.ret = None, None
        return s

    def intern(self, *key):
        """stable number of an execution context: the chain of call sites"""
        return self.ids.setdefault(key, len(self.ids) + 1)

    def new_frame(self, func, this, site=None):
        return Frame(self.intern(self.fstack[-1], (site or {}).get("id"), func.id), func, this)

    def local(self, did, fr):
        return mk("local", did, fr.id)

    def merge_returns(self, rets):
        st = self.merge([r[0] for r in rets])
        vals = [r[1] for r in rets]
        if all(v is None for v in vals):
            return st, None
        v = vals[-1]
        if v is None:
            v = opaque("noreturn")
        for (s, x) in reversed(rets[:-1]):
            v = ite(s.pc, x if x is not None else opaque("noreturn"), v)
        v = constrain(v, st.pc)
        return st, v

    def merge(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        if len(states) == 1:
            return states[0].copy()
        pc = FALSE
        for s in states:
            pc = or_(pc, s.pc)
        out = State(pc=pc)
        keys = {}
        for s in states:
            for k in s.store:
                keys[k] = None
        for k in keys:
            vs = []
            for s in states:
                v = s.store.get(k)
                if v is None:
                    so = next((x.store[k].sort for x in states if k in x.store), "o")
                    v = self.load_cell(s, k, so)
                vs.append(v)
            v = vs[-1]
            if not all(x is v for x in vs):
                for s, x in list(zip(states, vs))[-2::-1]:
                    v = ite(s.pc, x, v)
                v = constrain(v, pc)
            out.store[k] = v
        fk = {}
        for s in states:
            for k in s.fams:
                fk[k] = None
        for k in fk:
            vs = [s.fams.get(k) for s in states]
            if all(x is not None for x in vs) and all(x[0] is vs[0][0] for x in vs):
                out.fams[k] = vs[0]
            else:
                have = next(x for x in vs if x is not None)
                var = have[2]
                v = None
                for s, x in list(zip(states, vs))[::-1]:
                    y = x[0] if x is not None else self.init(k, have[0].sort)
                    v = y if v is None else ite(s.pc, y, v)
                out.fams[k] = (constrain(v, pc), have[1], var)
        return out

    # ------------------------------------------------------------------
    # statements
    def exec(self, n, st, fr):
        if n is None or not n.get("kind"):
            return st
        if st is None or st.pc is FALSE:
            return None
        self.visits += 1
        if self.visits > self.budget:
            raise AnalysisBroken("analysis budget exhausted")
        k = n["kind"]
        m = getattr(self, "st_" + k, None)
        if m is not None:
            return m(n, st, fr)
        # expression statement
        self.rv(n, st, fr)
        return st if st.pc is not FALSE else None

    def st_CompoundStmt(self, n, st, fr):
        for c in n.get("inner") or ():
            st = self.exec(c, st, fr)
            if st is None:
                return None
        return st

    def st_NullStmt(self, n, st, fr): return st

    def st_AttributedStmt(self, n, st, fr):
        inner = [c for c in n.get("inner") or () if not c.get("kind", "").endswith("Attr")]
        return self.exec(inner[-1], st, fr) if inner else st

    def st_DeclStmt(self, n, st, fr):
        for d in n.get("inner") or ():
            if d.get("kind") == "VarDecl":
                self.decl(d, st, fr)
        return st if st.pc is not FALSE else None

    def decl(self, d, st, fr):
        did = d["id"]
        t = qt(d)
        init = [c for c in d.get("inner") or () if not c.get("kind", "").endswith(("Attr", "Comment"))
                and c.get("kind") not in ("TypedefDecl",)]
        init = init[-1] if init else None
        loc = self.local(did, fr)
        if self.sort_of_type(t) == "i":
            self.intcells.add(loc)
        fr.refs.pop(did, None)
        fr.lazy.pop(did, None)
        fr.closures.pop(did, None)
        if d.get("storageClass") == "static":
            self.local_static.append((d, fr.func))
            if "const" not in t.split("<")[0]:
                g = mk("static", d.get("name") or did)
                fr.refs[did] = g
                return
        if init is None:
            st.store[loc] = opaque("uninit", sort=self.sort_of_type(t))
            return
        core = strip(init)
        lam = find_lambda(core)
        if lam is not None:
            fr.closures[did] = (lam, fr)
            return
        isref = t.rstrip().endswith("&")
        if core.get("kind") == "DeclRefExpr" and core["referencedDecl"]["id"] in self.closures_of(fr, core["referencedDecl"]["id"]):
            pass
        if is_lazy(t) and not isref:
            fr.lazy[did] = (init, fr)
            self.rv(init, st, fr)   # events
            return
        if isref or is_viewtype(t) or base_type(t).replace("Eigen::", "").startswith("TriangularView<"):
            l = self.lv(init, st, fr)
            if l is not None:
                fr.refs[did] = l
                return
            v = self.rv(init, st, fr)
            self.kill_under(st, loc)
            st.store[loc] = v
            return
        if d.get("init") in ("call", "list", "listinit") or core.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            v = self.construct(core, st, fr, loc, t)
            if v is None:
                return
        else:
            v = self.rv(init, st, fr)
        self.kill_under(st, loc)
        st.store[loc] = v

    def closures_of(self, fr, did):
        return fr.closures

    def st_IfStmt(self, n, st, fr):
        inner = [c for c in n.get("inner") or ()]
        if n.get("hasInit"):
            st = self.exec(inner[0], st, fr)
            inner = inner[1:]
        if n.get("hasVar"):
            st = self.exec(inner[0], st, fr)
            inner = inner[1:]
        if n.get("isConstexpr"):
            c = strip(inner[0])
            v = const_bool(inner[0])
            if v is not None:
                if v:
                    return self.exec(inner[1], st, fr)
                return self.exec(inner[2], st, fr) if len(inner) > 2 else st
        c = self.cond(inner[0], st, fr)
        if st.pc is FALSE:
            return None
        a = st.copy()
        a.pc = and_(st.pc, c)
        b = st
        b.pc = and_(st.pc, not_(c))
        pc0 = or_(a.pc, b.pc)
        marks = (len(fr.returns), len(fr.breaks or ()), len(fr.continues or ()))
        a = self.exec(inner[1], a, fr) if a.pc is not FALSE else None
        if len(inner) > 2 and b.pc is not FALSE:
            b = self.exec(inner[2], b, fr)
        if self.weak_throw and (a is None) != (b is None) and \
                marks == (len(fr.returns), len(fr.breaks or ()), len(fr.continues or ())):
            r = a if b is None else b
            if r.pc is not FALSE:
                r.pc = pc0       # the other branch only throws
            return r
        return self.merge([a, b])

    def cond(self, n, st, fr):
        v = self.rv(n, st, fr)
        return self.tobool(v)

    def tobool(self, v):
        if v.sort == "b":
            return v
        if v.op == "ite":
            return map_leaves(v, self.tobool)
        if v.sort in ("i", "s"):
            return ne(v, ZERO)
        if v.op == "addr":
            return TRUE
        if v is NULL:
            return FALSE
        return ne(v, NULL) if v.op != "opaque" else opaque("cond", sort="b")

    def st_ReturnStmt(self, n, st, fr):
        inner = n.get("inner") or ()
        v = None
        if inner:
            rt = fr.func.type if fr.func is not None else ""
            rettype = rt.split("(")[0].strip() if rt else ""
            e = inner[0]
            byref = rettype.endswith("&") or rettype.endswith("&&")
            et = qt(e)
            isview = is_viewtype(et) and (is_viewtype(rettype) or rettype in ("auto", "decltype(auto)") or rettype.endswith("Ref")
                                          or rettype.startswith("typename ") or "ReturnType" in rettype or "BlockXpr" in rettype)
            if byref or isview or getattr(fr, "retref", False):
                l = self.lv(e, st, fr)
                if l is not None:
                    v = mk("addr", l)
            if v is None:
                lam = find_lambda(strip(e))
                v = self.rv(e, st, fr)
        if st.pc is not FALSE:
            fr.returns.append((st, v))
            if not self.callstack or True:
                if fr.func is not None:
                    self.event("return", st, n, value=v, name=fr.func.name, decl=fr)
        return None

    def st_BreakStmt(self, n, st, fr):
        if fr.breaks is not None:
            fr.breaks.append(st)
        return None

    def st_ContinueStmt(self, n, st, fr):
        if fr.continues is not None:
            fr.continues.append(st)
        return None

    def st_SwitchStmt(self, n, st, fr):
        inner = list(n.get("inner") or ())
        if n.get("hasInit"):
            st = self.exec(inner.pop(0), st, fr)
        val = self.rv(inner[0], st, fr)
        body = inner[1]
        stmts = body.get("inner") or () if body.get("kind") == "CompoundStmt" else [body]
        # flatten case labels
        cases = []

        def consts(s):
            out = []
            if s.get("kind") in ("CaseStmt",):
                out.append(self.case_const(s, st, fr))
            return out

        allc = []

        def collect(s):
            if s.get("kind") == "CaseStmt":
                allc.append(self.case_const(s, st, fr))
                for c in (s.get("inner") or ())[1:]:
                    collect(c)
            elif s.get("kind") == "DefaultStmt":
                for c in s.get("inner") or ():
                    collect(c)
        for s in stmts:
            collect(s)
        none = TRUE
        for c in allc:
            none = and_(none, ne(val, c))
        entry = st.copy()
        cur = None
        save = fr.breaks
        fr.breaks = []
        has_default = False
        for s in stmts:
            g = None
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    c = eq(val, self.case_const(s, entry, fr))
                    sub = [x for x in (s.get("inner") or ())][1:]
                else:
                    c = none
                    has_default = True
                    sub = list(s.get("inner") or ())
                g = c if g is None else or_(g, c)
                s = sub[-1] if sub else {"kind": "NullStmt"}
            if g is not None:
                e2 = entry.copy()
                e2.pc = and_(entry.pc, g)
                cur = self.merge([cur, e2])
            if cur is not None:
                cur = self.exec(s, cur, fr)
        exits = fr.breaks
        fr.breaks = save
        if cur is not None:
            exits = exits + [cur]
        if not has_default:
            e2 = entry.copy()
            e2.pc = and_(entry.pc, none)
            exits = exits + [e2]
        return self.merge(exits)

    def case_const(self, s, st, fr):
        c = (s.get("inner") or ())[0]
        return self.rv(c, st.copy(), fr)

    def st_CXXTryStmt(self, n, st, fr):
        inner = n.get("inner") or ()
        lid = self.intern(self.fstack[-1], "try", n.get("id"))
        # the outcome is another one in every round of the loops around
        thr = mk("threw", lid, *[mk("phi", l.id, mk("round"), sort="i") for l in self.loopstack], sort="b")
        pre = st.copy()
        ne0 = len(self.events)
        points = []
        self.trystack.append(points)
        nl0 = len(self.loops)
        marks = [(l, len(l)) for l in (fr.breaks, fr.continues, fr.returns) if l is not None]
        body = self.exec(inner[0], st, fr)
        self.trystack.pop()
        explicit = False
        for e in self.events[ne0:]:
            if e.kind == "throw":
                e.caught = True
                explicit = True
        outs = []
        changed = {}
        one = len(points) == 1 and not explicit and len(self.loops) == nl0
        if not points and not explicit:
            normal = TRUE                    # nothing in the block can throw
        else:
            normal = not_(and_(points[0].pc, thr)) if one else not_(thr)
        left = [x[0] if isinstance(x, tuple) else x for l, m in marks for x in l[m:]]
        for b in left + ([body] if body is not None else []):
            for k, v in b.store.items():
                if pre.store.get(k) is not v:
                    changed[k] = v
            b.pc = and_(b.pc, normal)
        if body is not None:
            outs.append(body)
        for c in inner[1:]:
            if one:
                h = points[0].copy()         # the state in which the only throwing call was made
                h.pc = and_(h.pc, thr)
            else:
                h = pre.copy()
                h.pc = and_(pre.pc, thr)
                for k, v in changed.items():
                    if k.op == "local" and k not in pre.store:
                        continue
                    h.store[k] = mk("maybe", thr, k, sort=v.sort)
            hb = [x for x in c.get("inner") or () if x.get("kind") == "CompoundStmt"]
            r = self.exec(hb[0], h, fr) if hb else h
            if r is not None:
                outs.append(r)
        return self.merge(outs)

    # -- loops -----------------------------------------------------------
    def st_ForStmt(self, n, st, fr):
        inner = n.get("inner") or ()
        init, _cv, cond, inc, body = (list(inner) + [{}] * 5)[:5]
        if init and init.get("kind"):
            st = self.exec(init, st, fr)
        return self.loop(n, st, fr,
                         (lambda s: self.cond(cond, s, fr)) if cond and cond.get("kind") else (lambda s: TRUE),
                         lambda s: self.exec(body, s, fr),
                         (lambda s: self.rv(inc, s, fr)) if inc and inc.get("kind") else None)

    def st_WhileStmt(self, n, st, fr):
        inner = [c for c in n.get("inner") or () if c.get("kind")]
        cond, body = inner[-2], inner[-1]
        return self.loop(n, st, fr, lambda s: self.cond(cond, s, fr),
                         lambda s: self.exec(body, s, fr), None)

    def st_DoStmt(self, n, st, fr):
        body, cond = (n.get("inner") or ())[:2]
        return self.loop(n, st, fr, lambda s: self.cond(cond, s, fr),
                         lambda s: self.exec(body, s, fr), None, post=True)

    def st_CXXForRangeStmt(self, n, st, fr):
        inner = n.get("inner") or ()
        # init, range, begin, end, cond, inc, loopvar, body
        rng = inner[1]
        rinit = None
        for d in rng.get("inner") or ():
            if d.get("kind") == "VarDecl":
                rinit = (d.get("inner") or [None])[-1]
        var = (inner[6].get("inner") or [None])[0]
        body = inner[7]
        L = self.lv(rinit, st, fr)
        if L is None:
            v = self.rv(rinit, st, fr)
            L = mk("val", v)
        self.tmpn += 1
        ctr = mk("local", "range%s" % n["id"], fr.id)
        st.store[ctr] = ZERO
        vt = qt(var)

        def cond(s):
            return lt(s.store[ctr], self.container_size(s, L))

        def bodyf(s):
            i = s.store[ctr]
            el = mk("idx", L, i)
            el = self.elem_loc(s, el)
            if vt.rstrip().endswith("&") or is_viewtype(vt):
                fr.refs[var["id"]] = el
            else:
                fr.refs.pop(var["id"], None)
                s.store[self.local(var["id"], fr)] = self.load(s, el, self.sort_of_type(vt))
            return self.exec(body, s, fr)

        def inc(s):
            s.store[ctr] = add(s.store[ctr], ONE)
        return self.loop(n, st, fr, cond, bodyf, inc)

    def elem_loc(self, st, loc):
        """vector element of Ref type -> viewed location when known"""
        a = self.canon(loc)
        if a is not loc:
            return a
        if loc.op == "idx":
            v = None
            if loc in st.store:
                v = st.store[loc]
            else:
                v = self.load_idx(st, loc, "o")
            if v is not None and v.op == "addr":
                return v.args[0]
        return loc

    def container_size(self, st, L):
        L = self.canon(L)
        if L.op == "val":
            return size(L.args[0])
        v = st.store.get(L)
        if v is None and L.op == "fld":
            pv = self.ancestor_value(st, L.args[0])
            if pv is not None:
                v = self.getf(st, pv, L.args[1], "o")
        if v is None:
            v = self.init(L, "o")
        return size(v)

    def loop(self, n, st, fr, cond, body, inc, post=False):
        lid = self.intern(self.fstack[-1], "loop", n.get("id"))
        depth = len(self.loopstack)
        bv = BVS[depth]
        entry = st.copy()
        mod = dict(self.modcache.get(lid, ()))
        closed = {}
        allow_closed = True
        rec0 = self.record
        lc = LoopCtx()
        lc.id, lc.bv, lc.node, lc.N, lc.closed = lid, bv, n, None, closed
        lc.phis, lc.back, lc.exits, lc.func = {}, {}, [], (self.callstack[-1] if self.callstack else None)
        w = loc_of(n)
        lc.where = "%s:%s" % (rel(w[0]), w[1])
        lc.kind = n["kind"]
        lc.pc = st.pc
        lc.entry = entry
        outer_pc = st.pc
        self.loopstack.append(lc)
        self.pcstack.append(outer_pc)
        final_pass = False
        npass = nguard = 0
        fams = {}
        res = None
        nn, nn_tried = set(), False
        dims_tried = False
        flags = {}
        for k in [k for k in PHIDIM if k[0] == lid]:
            del PHIDIM[k]
        fmod = dict(self.modcache.get((lid, "fams"), ()))
        while True:
            npass += 1
            self.record = rec0 and final_pass
            seq0, ev0, nl0 = self.seq, len(self.events), len(self.loops)
            was_final = final_pass
            tmp_save = self.tmpn
            head = entry.copy()
            head.pc = TRUE
            for c in mod:
                if c in closed and allow_closed:
                    head.store[c] = closed[c]
                else:
                    so = mod[c]
                    ph = mk("phi", lid, c, sort=so)
                    if c in nn:      # ph >= 0: written so that a guard 0 < ph decides ph = 0 otherwise
                        ph = mk("ite", lt(ZERO, ph), ph, ZERO, sort=so)
                    head.store[c] = ph
            for pat, (so, fN, var) in fmod.items():
                head.fams[pat] = (mk("phi", lid, pat, sort=so), fN, var)
            for c, v in flags.items():
                head.store[c] = v
            res = self.loop_pass(head, fr, cond, body, inc, post, flags)
            (c0, back, breaks, rets) = res
            # discover modified cells
            newmod = {}
            for s in ([back] if back is not None else []):
                for k, v in s.store.items():
                    hv = head.store.get(k)
                    if hv is v:
                        continue
                    if hv is None:
                        if root(k).op in ("local", "obj", "new") and not any(root(x) is root(k) for x in head.store):
                            continue      # declared in the body
                        if k.op in ("idx",) or has_idx_bv(k, bv, mod, closed):
                            if key_varies(k, bv, lid):
                                continue  # distinct element per iteration
                        hv = self.load_cell(head, k, v.sort)
                        if hv is v:
                            continue
                    if k not in mod:
                        newmod[k] = v.sort if v.sort != "o" else hv.sort if hv is not None else "o"
                        if newmod[k] == "s" and k in self.intcells:
                            newmod[k] = "i"
            newf = False
            if back is not None:
                # families of elements rewritten by every iteration
                for pat, fv in back.fams.items():
                    h = head.fams.get(pat)
                    if pat in fmod or contains(pat, bv) or (h is not None and h[0] is fv[0]):
                        continue
                    fmod[pat] = (fv[0].sort, fv[1], fv[2])
                    newf = True
            if DEBUG and depth == 0: print("pass", npass, "newmod", [show(k) for k in newmod])
            if (newmod or newf) and npass < 12:
                mod.update(newmod)
                if final_pass:
                    final_pass = False
                    self.seq = seq0
                    del self.events[ev0:], self.loops[nl0:]
                continue
            if final_pass:
                break
            if not post and not flags and c0 is not None:
                for c in mod:
                    p = head.store.get(c)
                    e = entry.store.get(c)
                    if mod[c] == "b" and e in (TRUE, FALSE) and p.op == "phi" and contains(c0, p) and \
                            restrict(c0, p, e is not TRUE) is FALSE:
                        flags[c] = e
                if flags:
                    closed = {}
                    lc.closed = closed
                    npass = 0
                    continue
            # matrices no round resizes
            if back is not None and not dims_tried:
                dims_tried = True
                kept = {}
                for c in mod:
                    p, b = head.store.get(c), back.store.get(c)
                    if mod[c] == "m" and p is not None and b is not None and p.op == "phi" and b is not p and \
                            rows(b) is rows(p) and cols(b) is cols(p):
                        e = self.load_cell(entry, c, "m")
                        if e.op not in ("opaque", "clob", "maybe") and not any(x is p for x in subterms(e)):
                            kept[(lid, c)] = e
                if kept:
                    PHIDIM.update(kept)
                    continue
            # closed forms
            newclosed = {}
            if allow_closed and back is not None:
                for c in mod:
                    if c in closed or c in flags:
                        continue
                    p = head.store[c]
                    b = back.store.get(c)
                    if b is None:
                        continue
                    e = self.load_cell(entry, c, mod[c])
                    cf = self.close_form(p, b, e, bv, lid)
                    if cf is not None:
                        newclosed[c] = cf
            if npass == 1 or not closed:
                # a loop that does not count gets no closed forms
                hd = [x for x in subterms(c0) if x.op == "phi" and x.args[0] == lid] if c0 is not None and not post else [1]
                if not hd:
                    # only invariants: independent of how often the loop runs
                    newclosed = {c: cf for c, cf in newclosed.items()
                                 if cf is self.load_cell(entry, c, mod[c]) and back.store.get(c) is head.store[c]}
            if newclosed and npass < 24:
                closed.update(newclosed)
                continue
            # trip count
            N = None
            if not post:
                N = trip_count(c0, bv, lid) if c0 is not None else None
            else:
                cb = self._post_cond
                if cb is not None:
                    N = trip_count(cb, bv, lid)
                    if N is not None:
                        N = add(N, ONE)
            if N is not None and RANGES.get(bv) is not N:
                RANGES[bv] = N
                if bv in GUARDED and nguard < 2:
                    # views guarded by the range of the counter: redo without the guards
                    nguard += 1
                    closed = {}
                    lc.closed = closed
                    npass = 0
                    continue
            if N is None and allow_closed and any(cf is not self.load_cell(entry, c, mod[c]) for c, cf in closed.items()):
                allow_closed = False
                closed = {}
                lc.closed = closed
                npass = 0
                continue
            if not nn_tried and N is None and back is not None and self.nonneg is not None:
                # scalars that stay non-negative: inductive over the entry and the back edge
                cand = [c for c in mod if c not in closed and mod[c] == "s" and head.store[c].op == "phi"
                        and back.store.get(c) is not None]
                cand = [c for c in cand if self.nonneg_term(self.load_cell(entry, c, "s"), ())]
                while cand:
                    ph = set(head.store[c] for c in cand)
                    ok = [c for c in cand if self.nonneg_term(constrain(back.store[c], back.pc), ph)]
                    if len(ok) == len(cand):
                        break
                    cand = ok
                nn_tried = True
                if cand:
                    nn = set(cand)
                    continue
            lc.N = N
            final_pass = True
            self.modcache[lid] = dict(mod)
            self.modcache[(lid, "fams")] = dict(fmod)
        self.loopstack.pop()
        self.pcstack.pop()
        self.record = rec0
        c0, back, breaks, rets = res
        lc.cond = c0
        lc.phis = {c: head.store[c] for c in mod}
        lc.back = {c: (back.store.get(c) if back is not None else None) for c in mod}
        lc.recs = (head, back, breaks, rets)
        if rec0:
            self.loops.append(lc)
        return self.loop_exit(lc, entry, head, c0, back, breaks, rets, mod, closed, bv, lid, fr, post, outer_pc)

    _post_cond = None
    nonneg = None

    def nonneg_term(self, t, phis, memo=None):
        if t in phis:
            return True
        op = t.op
        if op == "num":
            return t.args[0] >= 0
        if op == "inf":
            return True
        if op == "init":
            return bool(self.nonneg(t.args[0]))
        if op == "phi":
            return False
        if op == "ite":
            c, a, b = t.args
            if c.op in ("lt0", "eq0"):
                x = neg(c.args[0]) if c.op == "lt0" else c.args[0]
                if x in leaves(a):
                    return self.nonneg_term(a, set(phis) | {x}) and self.nonneg_term(b, phis)
            return self.nonneg_term(a, phis) and self.nonneg_term(b, phis)
        if op == "max":
            return any(self.nonneg_term(x, phis) for x in t.args)
        if op == "min":
            return all(self.nonneg_term(x, phis) for x in t.args)
        if op == "sum" and t.sort == "s":
            for c, sc, m in t.args[0]:
                if c < 0 or m:
                    return False
                for x, e in sc:
                    if (e % 2 if isinstance(e, int) else True) and not self.nonneg_term(x, phis):
                        return False
            return True
        if op == "call" and t.args[0] in ("infnorm", "abs", "sqrt"):
            return True
        return False

    def loop_pass(self, head, fr, cond, body, inc, post, flags=None):
        sb, sc, sr = fr.breaks, fr.continues, fr.returns
        fr.breaks, fr.continues, fr.returns = [], [], []
        s = head.copy()
        c0 = None
        if not post:
            c0 = cond(s)
            s.pc = and_(s.pc, c0)
        out = body(s) if s.pc is not FALSE else None
        back = self.merge([out] + fr.continues)
        if back is not None and inc is not None:
            b2 = fr.breaks
            inc(back)
        if flags and back is not None:
            # a flag the condition insists on: a round that clears it leaves the loop there
            for c, v in flags.items():
                fv = back.store.get(c, v)
                out = back.copy()
                out.pc = and_(back.pc, not_(fv) if v is TRUE else fv)
                if out.pc is not FALSE:
                    out.store[c] = not_(v)
                    fr.breaks.append(out)
                    back.pc = and_(back.pc, fv if v is TRUE else not_(fv))
                    for t in (out, back):
                        for k, x in t.store.items():
                            if x.op == "ite" and x is not head.store.get(k):
                                t.store[k] = constrain(x, t.pc)
                back.store[c] = v
            if back.pc is FALSE:
                back = None
        if post and back is not None:
            c0 = cond(back)
            self._post_cond = c0
            back_exit = back.copy()
            back_exit.pc = and_(back.pc, not_(c0))
            back.pc = and_(back.pc, c0)
        breaks, rets = fr.breaks, fr.returns
        fr.breaks, fr.continues, fr.returns = sb, sc, sr
        if post and back is not None:
            self._post_exit = back_exit
        elif post:
            self._post_exit = None
        return c0, back, breaks, rets

    def close_form(self, p, b, e, bv, lid):
        """value at the head of iteration bv, or None"""
        def free(t):
            return not any(x.op in ("phi", "phiout", "first") and x.args[0] >= lid for x in subterms(t))
        if b is p:
            return e
        if p.sort in ("i", "s", "m") and b.sort in ("i", "s", "m"):
            d = add(b, neg(p))
            if free(d):
                if contains(d, bv):
                    return add(e, psum(bv, bv, d))
                return add(e, mul(bv, d)) if p.sort != "m" or True else None
            if b.op in ("max", "min") and p in b.args:
                rest = [x for x in b.args if x is not p]
                if all(free(x) for x in rest):
                    r = maxmin(b.op, rest)
                    return maxmin(b.op, [e, bind("p" + b.op, bv, bv, r, sort=p.sort)])
        if p.sort == "b":
            b1, b0 = restrict(b, p, True), restrict(b, p, False)
            if free(b1) and free(b0):
                if b0 is FALSE:
                    return and_(e, pall(bv, bv, b1))
                if b1 is TRUE:
                    return or_(e, not_(pall(bv, bv, not_(b0))))
        cf = self.view_form(p, b, e, bv, free, lid)
        if cf is not None:
            return cf
        if b.op == "app" and b.args[0] is p:
            # every round appends once: the length at its head is known
            x = subst(b.args[1], {size(p): add(size(e), bv)})
            if not free(x):
                return None
            c = comp(bv, bv, x)
            return c if e is EMPTY else mk("cat", e, c)
        return None

    def view_form(self, p, b, e, bv, free, lid):
        """each iteration rewrites one view d(bv) of the cell, disjoint from the others"""
        if p.sort != "m":
            return None
        ds = upd_views(b, p)
        if not ds:
            return None
        if not all(free(d) for d in ds) or any(not vd_disjoint(x, y) for i, x in enumerate(ds) for y in ds[:i]):
            return None
        acc = e
        for d in ds:
            new, oldv, ev = view(b, d), view(p, d), view(e, d)
            if contains(d, bv):
                new2 = subst(new, {oldv: ev}) if oldv is not new else ev
                if not free(new2):
                    return None
                acc = updn(bv, bv, d, new2, acc)
            else:
                cf = self.close_form(oldv, new, ev, bv, lid)
                if cf is None:
                    return None
                acc = upd(acc, d, cf)
        return acc

    def loop_exit(self, lc, entry, head, c0, back, breaks, rets, mod, closed, bv, lid, fr, post, outer_pc):
        N = lc.N
        breaks = [b for b in breaks if b is not None and b.pc is not FALSE]
        rets = [(s, v) for s, v in rets if s is not None and s.pc is not FALSE]
        # did iterations possibly die (throw)?
        live = FALSE
        if back is not None:
            live = back.pc
        if post and back is not None:
            live = or_(live, self._post_exit.pc if self._post_exit is not None else FALSE)
        for b in breaks:
            live = or_(live, b.pc)
        for s, v in rets:
            live = or_(live, s.pc)
        if N is not None:
            N0 = N
            ex = []    # early exits conditions
            early = FALSE
            for b in breaks:
                early = or_(early, b.pc)
            for s, v in rets:
                early = or_(early, s.pc)
            # iteration guard true inside
            inner_c = c0 if c0 is not None and not post else TRUE
            dead = and_(inner_c, not_(live)) if inner_c is not TRUE else not_(live)
            dead = constrain(dead, inner_c) if inner_c is not TRUE else dead
            early_c = constrain(early, inner_c) if inner_c is not TRUE else early
            none_early = pall(bv, N, not_(early_c)) if early_c is not FALSE else TRUE
            none_dead = pall(bv, N, not_(dead)) if dead is not FALSE else TRUE
            out = entry.copy()
            out.pc = and_(outer_pc, none_early, none_dead)
            inloop_elem = []
            for c in mod:
                if c in closed:
                    out.store[c] = subst(closed[c], {bv: N})
                    continue
                v = self.container_close(lc, c, head, back, entry, bv, N, lid, mod[c])
                out.store[c] = v
            if back is not None:
                for k, v in back.store.items():
                    if k in head.store and head.store[k] is v:
                        continue
                    if k in mod or k.op == "local":
                        continue
                    if key_varies(k, bv, lid):
                        anyv = any_var(k)
                        pat = subst(k, {bv: anyv})
                        L = idx_base(pat, anyv)
                        if L is not None:
                            for kk in [kk for kk in out.store if kk.op == "idx" and kk.args[0] is L]:
                                del out.store[kk]
                        if early_c is FALSE:
                            vv = constrain(v, and_(back.pc)) if back.pc is not TRUE else v
                            old = self.load_cell(entry, k, v.sort)
                            out.fams[pat] = (subst(vv, {bv: anyv}), N, anyv)
                        else:
                            out.fams[pat] = (opaque("partial-elem", sort=v.sort), N, anyv)
                for k, f in back.fams.items():
                    if head.fams.get(k) is not f and k not in out.fams:
                        out.fams[k] = (subst(f[0], {bv: any_var(k, f[2])}), f[1], f[2])
            outs = [out]
            for s, v in rets:
                s2 = s.copy()
                first = mk("first", lc.id, sort="i")
                m = {bv: first}
                cond_exists = not_(pall(bv, N, not_(constrain(s.pc, inner_c) if inner_c is not TRUE else s.pc)))
                if len(rets) + len(breaks) == 1 or True:
                    s2.pc = and_(outer_pc, cond_exists, none_dead)
                for k in list(s2.store):
                    s2.store[k] = subst(s2.store[k], m)
                fr.returns.append((s2, subst(v, m) if v is not None else None))
            for b in breaks:
                s2 = b.copy()
                first = mk("first", lc.id, sort="i")
                m = {bv: first}
                cond_exists = not_(pall(bv, N, not_(constrain(b.pc, inner_c) if inner_c is not TRUE else b.pc)))
                s2.pc = and_(outer_pc, cond_exists, none_dead)
                for k in list(s2.store):
                    if k.op == "local" and k not in entry.store:
                        del s2.store[k]
                        continue
                    s2.store[k] = subst(s2.store[k], m)
                outs.append(s2)
            if rets or len(breaks) > 1:
                pass
            return self.merge(outs)
        # unknown trip count: phi denotes the value at the head of the exiting iteration
        outs = []
        if post:
            if self._post_exit is not None:
                x = self._post_exit.copy()
                outs.append(x)
        elif c0 is not TRUE:
            x = head.copy()
            x.pc = not_(c0) if c0 is not None else FALSE
            outs.append(x)
        outs += [b.copy() for b in breaks]
        for x in outs:
            for k in [k for k in x.store if k.op == "local" and k not in entry.store]:
                del x.store[k]
        for s, v in rets:
            s2 = s.copy()
            s2.pc = and_(outer_pc, s.pc)
            fr.returns.append((s2, v))
        if not outs:
            return None
        m = self.merge(outs)
        if m is None:
            return None
        m.pc = and_(outer_pc, m.pc)
        return m

    def container_close(self, lc, c, head, back, entry, bv, N, lid, sort):
        p = head.store[c]
        b = back.store.get(c) if back is not None else None
        e = self.load_cell(entry, c, sort)
        if b is None:
            return mk("phiout", lid, c, sort=sort)
        b = constrain(b, back.pc)

        def free(t):
            return not any(x.op in ("phi", "phiout", "first") and x.args[0] >= lid for x in subterms(t))
        cf = self.view_form(p, b, e, bv, free, lid)
        if cf is not None:
            return subst(cf, {bv: N})
        if b.op == "upd" and free(b.args[2]) and not contains(b, bv):
            if b.args[0] is p:
                return upd(e, b.args[1], b.args[2])
        if free(b) and not contains(b, bv):
            return ite(lt(ZERO, N), b, e)
        if free(b):
            return ite(lt(ZERO, N), subst(b, {bv: add(N, num(-1))}), e)
        return mk("phiout", lid, c, sort=sort)

    # ------------------------------------------------------------------
    # expressions: r-values
    def rv(self, n, st, fr):
        self.visits += 1
        if self.visits > self.budget:
            raise AnalysisBroken("analysis budget exhausted")
        n = strip(n)
        k = n.get("kind")
        m = getattr(self, "ex_" + k, None) if k else None
        if m is None:
            self.unknown[k] = self.unknown.get(k, 0) + 1
            for c in n.get("inner") or ():
                if c and (c.get("kind", "").endswith(("Expr", "Operator", "Literal"))):
                    self.rv(c, st, fr)
            return opaque(k, sort=self.sort_of_type(qt(n)))
        return m(n, st, fr)

    def ex_IntegerLiteral(self, n, st, fr): return num(int(n["value"]))
    def ex_FloatingLiteral(self, n, st, fr):
        try:
            return num(Fraction(n["value"]))
        except Exception:
            return INF
    def ex_CXXBoolLiteralExpr(self, n, st, fr): return TRUE if n.get("value") else FALSE
    def ex_StringLiteral(self, n, st, fr): return mk("str", n.get("value", ""))
    def ex_CharacterLiteral(self, n, st, fr): return num(n.get("value", 0))
    def ex_CXXNullPtrLiteralExpr(self, n, st, fr): return NULL
    def ex_GNUNullExpr(self, n, st, fr): return NULL
    def ex_PredefinedExpr(self, n, st, fr): return mk("str", "fn")
    def ex_SourceLocExpr(self, n, st, fr): return mk("str", "loc")
    def ex_CXXDefaultArgExpr(self, n, st, fr):
        inner = n.get("inner") or ()
        if inner:
            return self.rv(inner[0], st, fr)
        return mk("default", sort=self.sort_of_type(qt(n)))
    def ex_CXXDefaultInitExpr(self, n, st, fr):
        inner = n.get("inner") or ()
        if inner:
            return self.rv(inner[0], st, fr)
        return mk("defaultinit", sort=self.sort_of_type(qt(n)))
    def ex_ImplicitValueInitExpr(self, n, st, fr): return ZERO
    def ex_CXXScalarValueInitExpr(self, n, st, fr): return ZERO
    def ex_CXXThisExpr(self, n, st, fr): return mk("addr", fr.this)
    def ex_UnaryExprOrTypeTraitExpr(self, n, st, fr): return mk("sizeof", src_text(n), sort="i")
    def ex_TypeTraitExpr(self, n, st, fr):
        return TRUE if n.get("value") else FALSE
    def ex_CXXTypeidExpr(self, n, st, fr): return mk("typeid")
    def ex_CXXThrowExpr(self, n, st, fr):
        for c in n.get("inner") or ():
            self.rv_effects(c, st, fr)
        self.event("throw", st, n)
        st.pc = FALSE
        return opaque("throw")

    def rv_effects(self, n, st, fr):
        """evaluate only for side effects, message construction ignored"""
        return None

    def ex_DeclRefExpr(self, n, st, fr):
        d = n["referencedDecl"]
        if d["kind"] == "VarDecl" and d["id"] in self.u.vars:
            t = qt(n)
            if self.sort_of_type(t) in ("i", "b"):
                v = front.const_value(n, self.u.enums, self.u.vars)
                if v is not None:
                    return num(v) if self.sort_of_type(t) == "i" else TRUE if v else FALSE
        if d["kind"] == "EnumConstantDecl":
            e = self.u.enums.get(d["id"])
            if e is not None:
                return num(e[2])
            return mk("enumc", d.get("name"), sort="i")
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return mk("fn", d.get("name"))
        if d["kind"] == "NonTypeTemplateParmDecl":
            return mk("ntp", d.get("name"), sort="i")
        f = self.find_lazy(fr, d["id"])
        if f is not None:
            return self.rv(f[0], st, f[1])
        c = self.find_closure(fr, d["id"])
        if c is not None:
            return mk("closure", id_of_closure(c))
        loc = self.lv_DeclRefExpr(n, st, fr)
        if loc is None:
            return opaque("declref", sort=self.sort_of_type(qt(n)))
        return self.read(loc, n, st)

    def read(self, loc, n, st):
        return self.load(st, loc, self.sort_of_type(qt(n)))

    def find_lazy(self, fr, did):
        while fr is not None:
            if did in fr.lazy:
                return fr.lazy[did]
            fr = fr.parent
        return None

    def find_closure(self, fr, did):
        while fr is not None:
            if did in fr.closures:
                return fr.closures[did]
            fr = fr.parent
        return None

    def ex_MemberExpr(self, n, st, fr):
        l = self.lv_MemberExpr(n, st, fr)
        if l is None:
            return opaque("member", sort=self.sort_of_type(qt(n)))
        return self.read(l, n, st)

    def ex_ArraySubscriptExpr(self, n, st, fr):
        l = self.lv_ArraySubscriptExpr(n, st, fr)
        return self.read(l, n, st)

    def ex_ImplicitCastExpr(self, n, st, fr):
        ck = n.get("castKind")
        c = n["inner"][0]
        if ck in ("UserDefinedConversion", "ConstructorConversion"):
            return self.rv(c, st, fr)
        v = self.rv(c, st, fr)
        if ck == "LValueToRValue" and (v.op == "addr" or v.op == "ite" and any(x.op == "addr" for x in leaves(v))) \
                and self.sort_of_type(qt(n)) in ("s", "i", "b"):
            v = map_leaves(v, lambda x: self.load(st, x.args[0], self.sort_of_type(qt(n))) if x.op == "addr" else x)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.tobool(v)
        if ck == "FloatingToIntegral":
            if v.op == "num":
                return num(int(v.args[0]))
            if integral(v):
                return v
            return mk("call", "trunc", v, sort="i")
        if ck in ("IntegralToFloating", "IntegralCast"):
            if v.sort == "b":
                return boolnum(v)
            return v
        if ck == "NullToPointer":
            return NULL
        return v

    ex_CStyleCastExpr = ex_CXXStaticCastExpr = ex_CXXConstCastExpr = ex_ImplicitCastExpr
    ex_CXXReinterpretCastExpr = ex_ImplicitCastExpr
    ex_CXXDynamicCastExpr = ex_ImplicitCastExpr
    ex_BuiltinBitCastExpr = ex_ImplicitCastExpr

    def ex_CXXFunctionalCastExpr(self, n, st, fr):
        return self.ex_ImplicitCastExpr(n, st, fr)

    def ex_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        c = n["inner"][0]
        if op == "&":
            l = self.lv(c, st, fr)
            if l is None:
                d = strip(c)
                return mk("fn", (d.get("referencedDecl") or {}).get("name", "?"))
            return mk("addr", l)
        if op == "*":
            l = self.lv(n, st, fr)
            return self.read(l, n, st)
        if op in ("++", "--"):
            l = self.lv(c, st, fr)
            old = self.read(l, c, st)
            new = add(old, ONE if op == "++" else num(-1))
            self.assign(st, l, new, n)
            return old if n.get("isPostfix") else new
        v = self.rv(c, st, fr)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return not_(self.tobool(v))
        if op == "~":
            return mk("call", "~", v, sort="i")
        return opaque("unary" + op)

    CMP = {"<": lt, ">": gt, "<=": le, ">=": ge, "==": eq, "!=": ne}

    def arith(self, op, a, b, intdiv=False):
        if op == "+":
            return add(a, b)
        if op == "-":
            return add(a, neg(b))
        if op == "*":
            return mul(a, b)
        if op == "/":
            if intdiv:
                if a.op == "num" and b.op == "num" and b.args[0] != 0:
                    return num(int(Fraction(a.args[0]) / b.args[0]))
                return mk("call", "idiv", a, b, sort="i")
            return mul(a, inv(b))
        if op == "%":
            return mk("call", "mod", a, b, sort="i")
        if op in ("<<", ">>", "|", "&", "^"):
            if a.sort == "b" and b.sort == "b":
                return {"|": or_, "&": and_, "^": ne}.get(op, lambda x, y: opaque(op))(a, b)
            return mk("call", op, a, b, sort="i")
        return opaque("arith" + op)

    def ex_BinaryOperator(self, n, st, fr):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            l = self.lv(a, st, fr)
            v = self.rv(b, st, fr)
            v = self.coerce(v, qt(n))
            if l is not None:
                self.assign(st, l, v, n)
            return v
        if op == ",":
            self.rv(a, st, fr)
            return self.rv(b, st, fr)
        if op in ("&&", "||"):
            x = self.tobool(self.rv(a, st, fr))
            s2 = st.copy()
            skip = st.copy()
            if op == "&&":
                s2.pc = and_(st.pc, x)
                skip.pc = and_(st.pc, not_(x))
            else:
                s2.pc = and_(st.pc, not_(x))
                skip.pc = and_(st.pc, x)
            if s2.pc is FALSE:
                return x
            y = self.tobool(self.rv(b, s2, fr))
            m = self.merge([s2, skip])
            if m is not None:
                st.store, st.fams = m.store, m.fams
            return and_(x, y) if op == "&&" else or_(x, y)
        x = self.rv(a, st, fr)
        y = self.rv(b, st, fr)
        if op in self.CMP:
            if x is NULL or y is NULL or x.sort == "o" or y.sort == "o":
                if op in ("==", "!="):
                    return self.CMP[op](x, y)
                if x.op in ("begin",) or True:
                    pass
            return self.CMP[op](x, y)
        t = self.sort_of_type(qt(n))
        return self.arith(op, x, y, t == "i")

    def coerce(self, v, t):
        s = self.sort_of_type(t)
        if s in ("i", "s") and v.sort == "b":
            return boolnum(v)
        if s == "b" and v.sort in ("i", "s"):
            return self.tobool(v)
        return v

    def ex_CompoundAssignOperator(self, n, st, fr):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        v = self.rv(b, st, fr)
        l = self.lv(a, st, fr)
        old = self.read(l, a, st) if l is not None else opaque("lhs")
        bool_lhs = self.sort_of_type(qt(strip(a))) == "b"
        if bool_lhs and v.sort != "b":
            if v.op == "b2n":
                v = v.args[0]
            elif v.op == "num":
                v = TRUE if v.args[0] != 0 else FALSE
        if bool_lhs and v.sort == "b" and op in ("|", "&", "^"):
            new = {"|": or_, "&": and_, "^": ne}[op](old, v)
        else:
            new = self.arith(op, old, v, self.sort_of_type(qt(n)) == "i")
        if l is not None:
            self.assign(st, l, new, n, old=old)
        return new

    def ex_ConditionalOperator(self, n, st, fr):
        c, a, b = n["inner"]
        cv = self.tobool(self.rv(c, st, fr))
        s1, s2 = st.copy(), st.copy()
        s1.pc = and_(st.pc, cv)
        s2.pc = and_(st.pc, not_(cv))
        x = self.rv(a, s1, fr) if s1.pc is not FALSE else None
        y = self.rv(b, s2, fr) if s2.pc is not FALSE else None
        m = self.merge([s1 if x is not None else None, s2 if y is not None else None])
        if m is None:
            st.pc = FALSE
            return opaque("dead")
        st.store, st.pc, st.fams = m.store, m.pc, m.fams
        if x is None:
            return y
        if y is None:
            return x
        if s1.pc is FALSE:
            return y
        if s2.pc is FALSE:
            return x
        return ite(cv, x, y)

    def ex_InitListExpr(self, n, st, fr):
        inner = n.get("inner") or ()
        t = qt(n)
        vs = [self.rv(c, st, fr) for c in inner]
        if len(vs) == 1 and self.sort_of_type(t) in ("i", "s", "b"):
            return vs[0]
        if not vs and self.sort_of_type(t) in ("i", "s"):
            return ZERO
        rn = front.strip_type(t)[0]
        r = self.u.record(rn, must=False)
        if r is not None and r.fields and len(r.fields) == len(vs):
            return mk("struct", rn, tuple(f.get("name") for f in r.fields), *vs)
        return mk("list", *vs)

    def ex_CXXStdInitializerListExpr(self, n, st, fr):
        return self.rv(n["inner"][0], st, fr)

    def ex_LambdaExpr(self, n, st, fr):
        return mk("closure", id_of_closure((n, fr)))

    def ex_CXXNewExpr(self, n, st, fr):
        vs = [self.rv(c, st, fr) for c in n.get("inner") or () if c.get("kind")]
        v = mk("addr", mk("new", self.intern(self.fstack[-1], "new", n.get("id"))))
        self.event("new", st, n, value=v, args=vs, name="new[]" if n.get("isArray") else "new")
        return v

    def ex_CXXDeleteExpr(self, n, st, fr):
        v = self.rv(n["inner"][0], st, fr)
        self.event("delete", st, n, value=v, name="delete[]" if n.get("isArrayAsWritten") or n.get("isArray") else "delete")
        return mk("void")

    def ex_CXXConstructExpr(self, n, st, fr):
        return self.construct(n, st, fr, None, qt(n))
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def construct(self, n, st, fr, loc, t):
        """value of a constructor call (or None when stored into loc by fields)"""
        args = [c for c in n.get("inner") or () if c.get("kind") and c.get("kind") != "CXXDefaultArgExpr"]
        b = base_type(t)
        if n.get("kind") not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.rv(n, st, fr)
        if is_eigen(t):
            if len(args) == 1:
                at = qt(strip(args[0]))
                if is_eigen(at) or self.sort_of_type(at) == "m":
                    return self.rv(args[0], st, fr)
                v = self.rv(args[0], st, fr)
                if v.sort == "m":
                    return v
                return mk("sized", mk("uninitm"), v, sort="m")
            if len(args) == 2:
                a, c = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
                if a.sort == "s" and c.sort in ("s", "i") or c.sort == "s":
                    return mk("veclit", a, c, sort="m")
                if a.sort == "i" or is_num(a):
                    return mk("sized2", mk("uninitm"), a, c, sort="m")
                return opaque("eigen-ctor", sort="m")
            if not args:
                return mk("uninitm", sort="m")
            return mk("call", "eigen-ctor", *[self.rv(a, st, fr) for a in args], sort="m")
        if len(args) == 1 and (n.get("hadMultipleCandidates") or True):
            ct = (n.get("ctorType") or {}).get("qualType", "")
            p0 = ct[ct.find("(") + 1:ct.rfind(")")]
            if base_type(p0) == b or base_type(p0).split("::")[-1] == b.split("::")[-1] and "," not in p0:
                v = self.rv(args[0], st, fr)     # copy / move
                if self.copyfresh and "&&" not in p0 and re.sub(r"<.*>", "", b).split("::")[-1].strip() in self.copyfresh:
                    return mk("call", "copyof", v, sort=v.sort)
                return v
        if b.startswith(("std::function<", "function<")) and args:
            return self.rv(args[0], st, fr)
        if b.startswith(("std::vector<", "vector<", "std::__cxx11::vector")) or b.startswith("VectorOf"):
            if not args:
                return EMPTY
            vs = [self.rv(a, st, fr) for a in args]
            if len(vs) == 1 and (vs[0].sort == "i" or is_num(vs[0])):
                return mk("sizedv", mk("emptyel"), vs[0])
            if len(vs) == 1:
                return vs[0]
            return mk("call", "vector", *vs)
        if b.startswith(("std::shared_ptr<", "shared_ptr<", "std::unique_ptr<", "unique_ptr<")) and len(args) == 1:
            return self.rv(args[0], st, fr)
        if "__normal_iterator<" in b and len(args) == 1:
            return self.rv(args[0], st, fr)
        if b.startswith(("xyz::polymorphic<", "polymorphic<")) and len(args) == 1:
            return mk("call", "polymorphic", self.rv(args[0], st, fr))
        # project constructor with a body
        rn = front.strip_type(t)
        f = self.find_ctor(rn, n, len(args))
        if f is not None and len(self.callstack) < self.maxdepth and f.name not in self.noinline \
                and f not in self.callstack:
            oloc = loc if loc is not None else mk("obj", rn[0], self.intern(self.fstack[-1], "obj", n.get("id")))
            self.kill_under(st, oloc)
            st.store.pop(oloc, None)
            self.call_func(f, oloc, n.get("inner") or (), st, fr, n, ctor=True)
            if loc is not None:
                st.store[oloc] = mk("objval", rn[0])
                return None
            v = mk("objval", rn[0])
            for k, x in list(st.store.items()):
                if k.op == "fld" and k.args[0] is oloc:
                    v = mk("with", v, k.args[1], x)
            if not contains(v, oloc):
                self.kill_under(st, oloc)
            return v
        vs = [self.rv(a, st, fr) for a in args]
        return mk("call", "ctor:" + rn[0], *vs, sort=self.sort_of_type(t))

    def find_ctor(self, rn, n, nargs):
        ct = (n.get("ctorType") or {}).get("qualType")
        cands = []
        for r in self.u.recname.get(rn[0], ()):
            for m in r.methods:
                if m.kind == "CXXConstructorDecl" and (m.body is not None or m.inits) and not m.deleted:
                    if m.type == ct:
                        cands.append(m)
        if len(cands) == 1:
            return cands[0]
        cands2 = [m for m in cands if m.rec.targs and ",".join(m.rec.targs).replace(" ", "") == rn[1].replace(" ", "")]
        if len(cands2) >= 1:
            return cands2[0]
        return cands[0] if cands else None

    def ctor_inits(self, st, fr, f):
        for i in f.inits:
            inner = i.get("inner") or ()
            e = inner[0] if inner else None
            if i.get("anyInit"):
                name = i["anyInit"].get("name")
                floc = mk("fld", fr.this, name)
                t = (i["anyInit"].get("type") or {})
                t = t.get("desugaredQualType") or t.get("qualType") or ""
                if e is None:
                    continue
                ee = strip(e)
                if ee.get("kind") == "CXXDefaultInitExpr" and not ee.get("inner"):
                    fd = self.u.nodes.get(i["anyInit"].get("id"))
                    sub = [c for c in (fd or {}).get("inner") or () if c.get("kind") and not c["kind"].endswith("Comment")]
                    if sub:
                        ee = strip(sub[-1])
                    else:
                        self.assign(st, floc, mk("defaultinit", sort=self.sort_of_type(t)), i)
                        continue
                if t.rstrip().endswith("&") or is_viewtype(t):
                    l = self.lv(ee, st, fr)
                    if l is not None:
                        self.assign(st, floc, mk("addr", l), i if i.get("range") else e)
                        continue
                if ee.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    v = self.construct(ee, st, fr, None, t)
                else:
                    v = self.rv(ee, st, fr)
                self.assign(st, floc, v, e)
            elif i.get("baseInit") is not None or e is not None:
                ee = strip(e) if e is not None else None
                if ee is not None and ee.get("kind") == "CXXConstructExpr":
                    t = qt(ee)
                    rn = front.strip_type(t)
                    g = self.find_ctor(rn, ee, 0)
                    if g is not None and g not in self.callstack:
                        self.call_func(g, fr.this, ee.get("inner") or (), st, fr, ee, ctor=True)
                    else:
                        vs = [self.rv(c, st, fr) for c in ee.get("inner") or () if c.get("kind")]
                        self.event("basector", st, ee, name=rn[0], args=vs)

    # ------------------------------------------------------------------
    # expressions: locations
    def lv(self, n, st, fr):
        n = strip(n)
        k = n.get("kind")
        m = getattr(self, "lv_" + k, None) if k else None
        if m is None:
            return None
        return m(n, st, fr)

    def lv_DeclRefExpr(self, n, st, fr):
        d = n["referencedDecl"]
        did = d["id"]
        f = fr
        while f is not None:
            if did in f.refs:
                return self.deref_ref(f.refs[did], st)
            if did in f.lazy:
                return None
            l = mk("local", did, f.id)
            if l in st.store or getattr(f, "owns", None) and did in f.owns:
                return l
            f = f.parent
        if did in self.u.vars and not self.is_local_var(did):
            return mk("global", self.u.vars[did][0].get("name"))
        if d["kind"] in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            return mk("local", did, fr.id)
        return None

    def is_local_var(self, did):
        return False

    def deref_ref(self, loc, st):
        return loc

    def lv_CXXThisExpr(self, n, st, fr):
        return fr.this

    def lv_MemberExpr(self, n, st, fr):
        base = n["inner"][0]
        b = self.baseloc(base, st, fr)
        if b is None:
            v = self.rv(base, st, fr)
            b = mk("val", v)
        loc = mk("fld", b, n.get("name", ""))
        t = qt(n)
        if t.rstrip().endswith("&") or True:
            # reference members: follow when bound
            v = st.store.get(loc)
            if v is not None and v.op == "addr" and (is_viewtype(t) or self.sort_of_type(t) != "o" or v.args[0].op != "x") and not t.rstrip().endswith("*"):
                return v.args[0]
        return self.canon(loc)

    def baseloc(self, base, st, fr):
        """location of the object a member expression is applied to"""
        b = strip(base)
        t = qt(b)
        if t.rstrip().endswith("*"):
            return self.ptrloc(b, st, fr)
        return self.lv(b, st, fr)

    def ptrloc(self, n, st, fr):
        """location pointed to by pointer-valued expression n"""
        n = strip(n)
        k = n.get("kind")
        if k == "CXXThisExpr":
            return fr.this
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr", "CXXReinterpretCastExpr"):
            return self.ptrloc(n["inner"][0], st, fr)
        if k == "UnaryOperator" and n.get("opcode") == "&":
            return self.lv(n["inner"][0], st, fr)
        if k == "CXXOperatorCallExpr":
            nm = callee_name(n)
            if nm == "operator->":
                return self.objloc(n["inner"][1], st, fr)
        if k == "CXXMemberCallExpr" and callee_name(n) in ("get",):
            me = strip(n["inner"][0])
            return self.objloc(me["inner"][0], st, fr)
        v = self.rv(n, st, fr)
        if v.op == "addr":
            return v.args[0]
        return self.target(v)

    def iterloc(self, n, st, fr):
        """element a container iterator stands at"""
        if "_iterator" not in front.desugared(strip(n)):
            return None
        v = self.rv(n, st, fr)
        bs = [x for x in subterms(v) if x.op == "begin"]
        if len(bs) != 1 or v.sort != "i":
            return None
        k = add(v, neg(bs[0]))
        return None if contains_op(k, {"begin"}) else mk("idx", bs[0].args[0], k)

    def objloc(self, n, st, fr):
        """location of the object owned by smart pointer / polymorphic expr n"""
        l = self.iterloc(n, st, fr)
        if l is not None:
            return l
        l = self.lv(n, st, fr)
        if l is None:
            v = self.rv(n, st, fr)
            return self.target(v)
        v = st.store.get(l)
        if v is None:
            v = self.load_fam(st, l)
        if v is not None:
            if v.op == "init":
                return v.args[0]
            if v.op == "addr":
                return v.args[0]
            return mk("val", v) if v.op not in ("phi", "objval") else l
        return l

    def lv_UnaryOperator(self, n, st, fr):
        op = n["opcode"]
        c = n["inner"][0]
        if op == "*":
            l = self.ptrloc(c, st, fr)
            if l is not None and l.op != "idx" and l.op != "deref" and self.sort_of_type(qt(n)) in ("i", "s", "b") and \
                    qt(strip(c)).rstrip().endswith("*") and self.target(self.load(st, l, "o")) is l:
                return mk("idx", l, ZERO)       # a pointer into an array: its first element
            return l
        if op in ("++", "--") and not n.get("isPostfix"):
            self.rv(n, st, fr)
            return self.lv(c, st, fr)
        return None

    def lv_ArraySubscriptExpr(self, n, st, fr):
        a, i = n["inner"]
        iv = self.rv(i, st, fr)
        a2 = strip(a)
        if a2.get("kind") == "ImplicitCastExpr" and a2.get("castKind") == "ArrayToPointerDecay":
            l = self.lv(a2["inner"][0], st, fr)
        else:
            l = self.ptrloc(a2, st, fr)
        if l is None:
            l = mk("val", self.rv(a, st, fr))
        return mk("idx", l, iv)

    def lv_ImplicitCastExpr(self, n, st, fr):
        if n.get("castKind") in ("LValueToRValue", "ConstructorConversion", "UserDefinedConversion",
                                 "NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived",
                                 "LValueBitCast", None):
            return self.lv(n["inner"][0], st, fr)
        return None

    lv_CXXStaticCastExpr = lv_CStyleCastExpr = lv_CXXConstCastExpr = lv_CXXFunctionalCastExpr = lv_ImplicitCastExpr
    lv_CXXDynamicCastExpr = lv_CXXReinterpretCastExpr = lv_ImplicitCastExpr

    def lv_CXXConstructExpr(self, n, st, fr):
        # Ref<> constructed over an lvalue; copies of views
        args = [c for c in n.get("inner") or () if c.get("kind") and c.get("kind") != "CXXDefaultArgExpr"]
        if is_viewtype(qt(n)) and len(args) == 1:
            return self.lv(args[0], st, fr)
        if len(args) == 1 and n.get("elidable"):
            return self.lv(args[0], st, fr)
        return None

    def lv_ConditionalOperator(self, n, st, fr):
        c, a, b = n["inner"]
        if n.get("valueCategory") != "lvalue" and not is_viewtype(qt(n)):
            return None
        cv = self.tobool(self.rv(c, st, fr))
        if cv in (TRUE, FALSE):
            return self.lv(a if cv is TRUE else b, st, fr)
        x, y = self.lv(a, st, fr), self.lv(b, st, fr)
        if x is None or y is None:
            return None
        if x is y:
            return x
        v = ite(cv, mk("addr", x), mk("addr", y))
        if v.op == "addr":
            return v.args[0]
        return mk("deref", v)

    def lv_BinaryOperator(self, n, st, fr):
        if n["opcode"] == "=":
            self.rv(n, st, fr)
            return self.lv(n["inner"][0], st, fr)
        if n["opcode"] == ",":
            self.rv(n["inner"][0], st, fr)
            return self.lv(n["inner"][1], st, fr)
        return None

    def lv_CompoundAssignOperator(self, n, st, fr):
        self.rv(n, st, fr)
        return self.lv(n["inner"][0], st, fr)

    def lv_CXXOperatorCallExpr(self, n, st, fr):
        nm = callee_name(n)
        args = n["inner"][1:]
        o0t = qt(strip(args[0]))
        if nm == "operator*" and len(args) == 1:
            return self.objloc(args[0], st, fr)
        if nm == "operator->":
            return self.objloc(args[0], st, fr)
        if nm in ("operator[]", "operator()"):
            if self.find_callee(n) is not None and nm == "operator()":
                f = self.find_callee(n)
                return self.call_lv(n, st, fr)
            ot = o0t
            if is_eigen(ot) and not base_type(ot).startswith("std::"):
                l = self.lv(args[0], st, fr)
                ix = [self.rv(a, st, fr) for a in args[1:]]
                if l is None:
                    return None
                return self.vw(l, mk("velt", *ix))
            l = self.lv(args[0], st, fr)
            if nm == "operator[]":
                i = self.rv(args[1], st, fr)
                if l is None:
                    v = self.rv(args[0], st, fr)
                    l = mk("val", v)
                return self.elem_loc(st, mk("idx", l, i))
        if nm in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator<<", "operator,", "operator|=", "operator&="):
            self.rv(n, st, fr)
            return self.lv(args[0], st, fr)
        return self.call_lv(n, st, fr)

    def call_lv(self, n, st, fr):
        """call returning a reference/view -> location"""
        f = self.find_callee(n)
        if f is not None:
            rt = f.type.split("(")[0].strip()
            v = self.rv(n, st, fr)
            if v is not None and v.op == "addr":
                return v.args[0]
            if v is not None and v.op == "ite" and all(x.op == "addr" for x in leaves(v)):
                return mk("deref", v)
            if v is not None and v.op == "init" and rt.endswith("&"):
                return v.args[0]
            if v is not None and v.op in ("call", "xcall") and (rt.endswith("&") or is_viewtype(qt(n))):
                return mk("val", v)
            if v is not None:
                return mk("val", v)
        return None

    EIG_ID = {"noalias", "array", "matrix", "derived", "const_cast_derived", "eval", "nestedExpression", "const_derived"}

    def lv_CXXMemberCallExpr(self, n, st, fr):
        me = strip(n["inner"][0])
        args = [a for a in n["inner"][1:]]
        nm = me.get("name", "")
        base = me["inner"][0] if me.get("inner") else None
        bt = qt(strip(base)) if base is not None else ""
        f = self.find_callee(n)
        if f is not None:
            return self.call_lv(n, st, fr)
        if base is not None and is_eigen(bt) and not base_type(bt).startswith(("std::", "vector<")):
            l = self.baseloc(base, st, fr)
            if l is None:
                return None
            if nm in self.EIG_ID:
                return l
            d = self.eig_view(nm, l, args, st, fr, n)
            if d is not None:
                return self.vw(l, d)
            if nm in ("setZero", "setOnes", "setIdentity", "setConstant", "fill"):
                self.rv(n, st, fr)
                return l
            return None
        if nm in ("at",):
            l = self.baseloc(base, st, fr)
            if l is None:
                l = mk("val", self.rv(base, st, fr))
            return self.elem_loc(st, mk("idx", l, self.rv(args[0], st, fr)))
        if nm in ("back", "front"):
            l = self.baseloc(base, st, fr)
            if l is not None:
                i = ZERO if nm == "front" else add(self.container_size(st, l), num(-1))
                return self.elem_loc(st, mk("idx", l, i))
        if nm == "get" and not args:
            return None
        if n.get("valueCategory") == "lvalue":
            v = self.rv(n, st, fr)
            return mk("val", v) if v.op != "addr" else v.args[0]
        return None

    def lv_CallExpr(self, n, st, fr):
        nm = callee_name(n)
        if nm in ("move", "forward", "as_const"):
            return self.lv(n["inner"][1], st, fr)
        if nm == "get" and len(n["inner"]) > 1:
            l = self.lv(n["inner"][1], st, fr)
            if l is not None:
                return mk("fld", l, "get" + targ_text(n))
        f = self.find_callee(n)
        if f is not None:
            return self.call_lv(n, st, fr)
        if n.get("valueCategory") == "lvalue":
            v = self.rv(n, st, fr)
            return mk("val", v) if v.op != "addr" else v.args[0]
        return None

    # Eigen views
    celldims = None

    def shape(self, st, l):
        """(rows, cols, size) of the object at l; a view or a cell of known layout keeps its
        dimensions whatever constant fills it"""
        cell, ds = self.decomp(self.canon(l))
        if ds:
            d = ds[-1]
            if d.op == "vseg":
                return (lambda: d.args[1]), (lambda: ONE), (lambda: d.args[1])
            if d.op == "vblk":
                return (lambda: d.args[2]), (lambda: d.args[3]), (lambda: mul(d.args[2], d.args[3]))
            if d.op in ("vdiag", "vT"):
                p = l.args[0] if l.op == "vw" and l.args[1] is d else self.canon(l).args[0]
                r, c, k = self.shape(st, p)
                if d.op == "vT":
                    return c, r, k
                if r() is c():
                    return r, (lambda: ONE), r
        elif self.celldims is not None:
            c = self.celldims(cell)
            if c is not None:
                return (lambda: c[0]), (lambda: c[1]), (lambda: mul(*c))
        v = self.load(st, l, "m")
        if v.op in ("num", "ONES") or (v.op == "sum" and not any(m for _, _, m in v.args[0])):
            v = self.init(cell, "m")
            for d in ds:
                v = view(v, d)
        return (lambda: rows(v)), (lambda: cols(v)), (lambda: size(v))

    def eig_view(self, nm, l, args, st, fr, n):
        A = lambda i: self.rv(args[i], st, fr)
        na = len([a for a in args if a.get("kind") != "CXXDefaultArgExpr"])

        def val():
            return self.load(st, l, "m")
        if nm in ("head", "tail", "segment") and na < (2 if nm == "segment" else 1):
            t = targ_text(n)
            if t is None:
                return None
            k = ntp(t)
            if nm == "head":
                return mk("vseg", ZERO, k)
            if nm == "tail":
                return mk("vseg", add(self.shape(st, l)[2](), neg(k)), k)
            return mk("vseg", A(0), k)
        if nm == "segment":
            return mk("vseg", A(0), A(1))
        if nm == "head":
            return mk("vseg", ZERO, A(0))
        if nm == "tail":
            k = A(0)
            return mk("vseg", add(self.shape(st, l)[2](), neg(k)), k)
        if nm == "row":
            return mk("vblk", A(0), ZERO, ONE, self.shape(st, l)[1]())
        if nm == "col":
            return mk("vblk", ZERO, A(0), self.shape(st, l)[0](), ONE)
        if nm == "topRows" and na == 1:
            return mk("vblk", ZERO, ZERO, A(0), self.shape(st, l)[1]())
        if nm == "bottomRows" and na == 1:
            k = A(0)
            return mk("vblk", add(self.shape(st, l)[0](), neg(k)), ZERO, k, self.shape(st, l)[1]())
        if nm == "middleRows" and na == 2:
            return mk("vblk", A(0), ZERO, A(1), self.shape(st, l)[1]())
        if nm == "leftCols" and na == 1:
            return mk("vblk", ZERO, ZERO, self.shape(st, l)[0](), A(0))
        if nm == "rightCols" and na == 1:
            k = A(0)
            return mk("vblk", ZERO, add(self.shape(st, l)[1](), neg(k)), self.shape(st, l)[0](), k)
        if nm == "middleCols" and na == 2:
            return mk("vblk", ZERO, A(0), self.shape(st, l)[0](), A(1))
        if nm == "block" and na == 4:
            return mk("vblk", A(0), A(1), A(2), A(3))
        if nm.endswith("Corner") and na == 2:
            a, b = A(0), A(1)
            r = ZERO if nm.startswith("top") else add(self.shape(st, l)[0](), neg(a))
            c = ZERO if "Left" in nm else add(self.shape(st, l)[1](), neg(b))
            return mk("vblk", r, c, a, b)
        if nm == "diagonal" and na == 0:
            return mk("vdiag")
        if nm == "triangularView" and na == 0:
            m = tri_mode(n)
            return mk("vtri", m) if m is not None else None
        if nm == "indices" and na == 0:
            return mk("vperm")
        if nm in ("transpose", "adjoint") and na == 0:
            return mk("vT")
        if nm in ("coeff", "coeffRef", "operator()", "operator[]"):
            return mk("velt", *[A(i) for i in range(na)])
        if nm == "x":
            return mk("velt", ZERO)
        if nm in ("conjugate", "real"):
            return None
        return None

    # ------------------------------------------------------------------
    # calls
    def find_callee(self, n):
        """repository function (with body) called by n, non-virtual or devirtualised"""
        k = n.get("kind")
        c = strip(n["inner"][0])
        fid = None
        qualified = False
        if k == "CXXMemberCallExpr":
            if c.get("kind") != "MemberExpr":
                return None
            fid = c.get("referencedMemberDecl")
        else:
            while c.get("kind") == "ImplicitCastExpr":
                c = strip(c["inner"][0])
            if c.get("kind") == "DeclRefExpr":
                fid = c["referencedDecl"]["id"]
        if fid is None:
            return None
        f = self.u.func_by_id(fid)
        if f is None:
            return None
        return f

    def ex_CallExpr(self, n, st, fr):
        nm = callee_name(n)
        f = self.find_callee(n)
        args = n["inner"][1:]
        if f is not None and nm != "apply_visitor":
            return self.call_func(f, None, args, st, fr, n)
        # call through closure variable?
        c0 = strip(n["inner"][0])
        return self.std_call(nm, args, st, fr, n)

    def std_call(self, nm, args, st, fr, n):
        if nm in ("max", "min") and len(args) == 2:
            return maxmin(nm, [self.rv(a, st, fr) for a in args])
        if nm in ("max", "min", "quiet_NaN", "infinity", "epsilon", "lowest") and not args:
            txt = "const:" + nm
            return mk("const", txt, sort="s") if nm != "infinity" else INF
        if nm in ("move", "forward", "as_const", "ref", "cref"):
            return self.rv(args[0], st, fr)
        if nm in ("addressof", "__addressof"):
            l = self.lv(args[0], st, fr)
            return mk("addr", l) if l is not None else opaque("addressof")
        if nm in ("abs", "fabs"):
            x = self.rv(args[0], st, fr)
            return maxmin("max", [x, neg(x)])
        if nm == "sqrt":
            return mk("call", "sqrt", self.rv(args[0], st, fr), sort="s")
        if nm in ("real", "conj") and len(args) == 1 and self.sort_of_type(qt(strip(args[0]))) in ("s", "i"):
            return self.rv(args[0], st, fr)
        if nm == "abs2" and len(args) == 1:
            x = self.rv(args[0], st, fr)
            if x.sort in ("s", "i"):
                return mul(x, x)
        if nm in ("maxi", "mini") and len(args) == 2:
            return maxmin("max" if nm == "maxi" else "min", [self.rv(a, st, fr) for a in args])
        if nm == "pow":
            a, b = [self.rv(x, st, fr) for x in args]
            if b.op == "num" and b.args[0].denominator == 1 and 0 <= b.args[0] <= 4:
                r = ONE
                for _ in range(int(b.args[0])):
                    r = mul(r, a)
                return r
            return mk("call", "pow", a, b, sort="s")
        if nm in ("Zero", "Ones", "Identity", "Constant") and is_eigen(qt(n)) or nm in ("Zero", "Ones", "Identity") \
                and "CwiseNullaryOp" in qt(n):
            vs = [self.rv(a, st, fr) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            if nm == "Constant":
                return mul(vs[-1], ONES) if vs and vs[-1].sort != "m" else opaque("Constant", sort="m")
            if vs:
                self.event("dims", st, n, name=nm, args=vs)
            return {"Zero": mul(ZERO, ONES), "Ones": ONES, "Identity": EYE}[nm]
        if nm in ("isnan", "isfinite", "isinf"):
            return mk("call", nm, self.rv(args[0], st, fr), sort="b")
        if nm == "swap" and len(args) == 2:
            a, b = self.lv(args[0], st, fr), self.lv(args[1], st, fr)
            if a is not None and b is not None:
                so = self.sort_of_type(qt(strip(args[0])))
                x, y = self.load(st, a, so), self.load(st, b, so)
                self.assign(st, a, y, n)
                self.assign(st, b, x, n)
                return mk("void")
        if nm == "apply_visitor" and len(args) >= 2:
            lam = find_lambda(strip(args[0]))
            v = self.lv(args[1], st, fr)
            vl = v if v is not None else mk("val", self.rv(args[1], st, fr))
            tgt = mk("fld", vl, "visited")
            if lam is not None:
                return self.call_lambda(lam, fr, [("loc", tgt)], st, n)
            return self.visit_functor(args[0], tgt, st, fr, n)
        if nm in ("getL", "getU") and len(args) == 1:
            m = tri_mode(n)
            if m is not None:
                v = self.rv(args[0], st, fr)
                return tri(transpose(v) if "Transpose<" in qt(n) else v, m)
        if nm in ("printf", "print", "println", "format", "cout", "puts", "style", "fg", "emphasis", "vprint"):
            vs = []
            if nm == "format":
                vs = [self.rv(a, st, fr) for a in args[1:] if strip(a).get("kind") in ("MemberExpr", "DeclRefExpr", "IntegerLiteral")]
            e = self.event("call", st, n, name=nm, recv=None, args=[])
            return mk("call", "io", *vs, sort="o")
        if nm in ("make_shared", "make_unique", "allocate_shared"):
            v = self.make_object(qt(n), args, st, fr, n)
            if v is not None:
                return v
        if nm == "accumulate" and len(args) == 3:
            b, e_ = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            r = self.range_sum(b, e_, st)
            if r is not None:
                return add(self.rv(args[2], st, fr), r)
        # generic opaque call
        fty = ""
        c = strip(n["inner"][0])
        while c.get("kind") == "ImplicitCastExpr":
            c = strip(c["inner"][0])
        if c.get("kind") == "DeclRefExpr":
            fty = (c["referencedDecl"].get("type") or {}).get("qualType", "")
        ptypes = split_params(fty)
        return self.opaque_call(nm, None, None, args, ptypes, st, fr, n, qt(n))

    def make_object(self, t, args, st, fr, n):
        """make_shared<T>(args...): a new T"""
        b = base_type(t)
        if "<" not in b:
            return None
        inner = front.split_targs(b[b.find("<") + 1:b.rfind(">")])[0]
        rn = front.strip_type(inner)
        recs = list(self.u.recname.get(rn[0], ()))
        if len(recs) > 1:
            recs = [r for r in recs if ",".join(r.targs).replace(" ", "") == rn[1].replace(" ", "")]
        if len(recs) != 1:
            return None
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        loc = mk("new", self.intern(self.fstack[-1], "new", n.get("id")))
        tys = [front.strip_type(qt(strip(a))) for a in args]
        if len(args) == 1 and tys[0][0] == rn[0]:
            self.kill_under(st, loc)
            self.assign(st, loc, self.rv(args[0], st, fr), n)
            return mk("addr", loc)
        cands = [m for m in recs[0].methods if m.kind == "CXXConstructorDecl" and not m.deleted and (m.body is not None or m.inits)
                 and len(m.params) >= len(args) and all(any(c.get("kind") for c in p.get("inner") or ()) for p in m.params[len(args):])]
        if len(cands) > 1:
            cands = [m for m in cands if not (len(m.params) == 1 and front.strip_type(qt(m.params[0]))[0] == rn[0])] or cands
        if len(cands) > 1:
            cands = [m for m in cands if all(front.strip_type(qt(p))[0] == y[0] for p, y in zip(m.params, tys))] or cands
        if len(cands) != 1 or len(self.callstack) >= self.maxdepth or cands[0] in self.callstack:
            return None
        self.kill_under(st, loc)
        st.store.pop(loc, None)
        self.call_func(cands[0], loc, args, st, fr, n, ctor=True)
        st.store[loc] = mk("objval", rn[0])
        return mk("addr", loc)

    def range_sum(self, b, e, st):
        """sum over the iterator range [b, e)"""
        bs = [x for x in subterms(b) if x.op == "begin"]
        if len(bs) != 1 or b.sort != "i" or e.sort != "i":
            return None
        x, y = add(b, neg(bs[0])), add(e, neg(bs[0]))
        if any(t.op == "begin" for t in subterms(x) | subterms(y)):
            return None
        bv = mk("bv", "acc", sort="i")
        el = self.load(st, mk("idx", bs[0].args[0], bv), "i")
        return add(psum(bv, y, el), neg(psum(bv, x, el)))

    def visit_functor(self, a, tgt, st, fr, n):
        v = self.rv(a, st, fr)
        t = front.strip_type(qt(strip(a)))[0]
        out = []
        for f in self.u.byname.get("operator()", ()):
            if f.rec is not None and f.rec.name == t and f.body is not None:
                out.append(f)
        self.event("call", st, n, name="visit:" + t, recv=tgt, args=[v])
        # outputs of the visitor object: its reference fields
        c = mk("call", "visit:" + t, self.load(st, tgt, "o"), sort="o")
        done = set()
        for x in self.functor_refs(a, t, st, fr):
            done.add(x)
            self.assign(st, x, mk("out", len(done) - 1, c, sort="m"), n)
        if not done and v.op in ("with", "struct", "list", "call", "xcall"):
            for x in subterms(v):
                if x.op == "addr" or x.op == "init" and x.sort == "m":
                    self.assign(st, x.args[0], mk("out", 0, c, sort="m"), n)
        return mk("void")

    def functor_refs(self, a, t, st, fr):
        """locations bound to the non-const reference members of a functor object"""
        il = [a]
        while il and il[0].get("kind") != "InitListExpr":
            x = il.pop(0)
            il += [y for y in x.get("inner") or () if y.get("kind")]
        out = []
        if not il:
            return out
        recs = self.u.recname.get(t, ())
        flds = [y for r in recs for y in (r.node.get("inner") or ()) if y.get("kind") == "FieldDecl"]
        for y, fd in zip(il[0].get("inner") or (), flds):
            ty = qtw(fd)
            if ty.strip().endswith("&") and not ty.strip().startswith("const"):
                l = self.lv(strip(y), st, fr)
                if l is not None:
                    out.append(l)
        return out

    def call_lambda(self, lam, lfr, argvals, st, n):
        f = lambda_func(lam)
        if f is None:
            return opaque("lambda")
        params = [c for c in f.get("inner") or () if c.get("kind") == "ParmVarDecl"]
        body = [c for c in f.get("inner") or () if c.get("kind") == "CompoundStmt"]
        if not body:
            return opaque("lambda")
        g = Frame(self.intern(self.fstack[-1], n.get("id"), f.get("id")), LambdaFunc(f), lfr.this)
        g.parent = lfr
        for p, a in zip(params, argvals):
            if isinstance(a, tuple):
                g.refs[p["id"]] = a[1]
            else:
                st.store[mk("local", p["id"], g.id)] = a
        self.callstack.append(g.func)
        self.fstack.append(g.id)
        out = self.exec(body[0], st.copy(), g)
        self.callstack.pop()
        self.fstack.pop()
        if out is not None and out.pc is not FALSE:
            g.returns.append((out, None))
        if not g.returns:
            st.pc = FALSE
            return opaque("noreturn")
        s2, v = self.merge_returns(g.returns)
        st.store, st.pc, st.fams = s2.store, s2.pc, s2.fams
        return v if v is not None else mk("void")

    def ex_CXXMemberCallExpr(self, n, st, fr):
        me = strip(n["inner"][0])
        args = list(n["inner"][1:])
        nm = me.get("name", "")
        base = me["inner"][0] if me.get("inner") else None
        f = self.find_callee(n)
        if f is not None:
            this = self.baseloc(base, st, fr) if base is not None else fr.this
            if this is None:
                this = mk("val", self.rv(base, st, fr))
            return self.call_func(f, this, args, st, fr, n, base=base, member=me)
        bt = qt(strip(base)) if base is not None else ""
        if base is not None and is_eigen(bt) and not base_type(bt).startswith(("std::", "vector<")):
            return self.eigen_method(nm, base, args, st, fr, n)
        return self.std_method(nm, base, args, st, fr, n)

    def recv_value(self, base, st, fr):
        l = self.baseloc(base, st, fr)
        if l is None:
            return self.rv(base, st, fr), None
        return self.load(st, l, self.sort_of_type(qt(strip(base)))), l

    def std_method(self, nm, base, args, st, fr, n):
        l = self.baseloc(base, st, fr) if base is not None else None
        if l is None and base is not None:
            l = mk("val", self.rv(base, st, fr))
        l = self.canon(l) if l is not None else None
        bt = base_type(qt(strip(base))) if base is not None else ""
        if nm == "size" and not args:
            return self.container_size(st, l)
        if nm == "empty" and not args:
            return eq(self.container_size(st, l), ZERO)
        if nm in ("begin", "cbegin", "data") and not args:
            return mk("begin", l, sort="i") if nm != "data" else mk("addr", l)
        if nm in ("end", "cend") and not args:
            return add(mk("begin", l, sort="i"), self.container_size(st, l))
        if nm in ("back", "front"):
            ll = self.lv(n, st, fr)
            return self.load(st, ll, self.sort_of_type(qt(n)))
        if nm == "at":
            ll = self.lv(n, st, fr)
            return self.load(st, ll, self.sort_of_type(qt(n)))
        if nm in ("push_back", "emplace_back"):
            vs = []
            for a in args:
                at = qt(strip(a))
                x = None
                if "Ref<" in bt or "VectorOfRef" in bt or "Eigen::Ref" in bt:
                    x = self.lv(a, st, fr)
                    if x is not None:
                        x = mk("addr", x)
                if x is None:
                    x = self.rv(a, st, fr)
                vs.append(x)
            v = vs[0] if len(vs) == 1 else mk("tuple", *vs)
            cur = self.load(st, l, "o")
            self.assign(st, l, mk("app", cur, v), n)
            self.event("call", st, n, name=nm, recv=l, args=vs)
            return mk("void")
        if nm == "insert" and len(args) == 3 and "vector" in bt:
            p, a, b = [self.rv(x, st, fr) for x in args]
            cur = self.load(st, l, "o")
            ba = [x for x in subterms(a) if x.op == "begin"]
            if p is add(mk("begin", l, sort="i"), self.container_size(st, l)) and a.op == "begin":
                src = a.args[0]
                if b is add(a, self.container_size(st, src)):
                    o = self.load(st, src, "o")
                    self.assign(st, l, mk("cat", cur, o), n)
                    self.event("call", st, n, name=nm, recv=l, args=[o])
                    return mk("begin", l, sort="i")
        if nm == "clear":
            self.assign(st, l, EMPTY, n)
            return mk("void")
        if nm in ("reserve", "shrink_to_fit"):
            for a in args:
                self.rv(a, st, fr)
            return mk("void")
        if nm == "get" and not args:
            return mk("addr", l)
        if nm == "resize" and args:
            v = self.rv(args[0], st, fr)
            self.assign(st, l, mk("call", "resize", self.load(st, l, "o"), v), n)
            return mk("void")
        if nm in ("operator bool",):
            v = self.load(st, l, "o")
            return ne(v, NULL)
        if nm == "operator()" or nm == "":
            pass
        if nm in ("str", "c_str", "what", "length"):
            return mk("call", nm, mk("str", "?"))
        vs = [self.rv(a, st, fr) for a in args]
        mfty = ""
        e = self.opaque_call(nm, l, self.load(st, l, "o") if l is not None else None, args, None, st, fr, n, qt(n), argvals=vs)
        return e

    def eigen_method(self, nm, base, args, st, fr, n):
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        l = self.baseloc(base, st, fr)
        A = lambda i: self.rv(args[i], st, fr)
        if nm in ("setZero", "setOnes", "setIdentity", "setConstant", "fill", "setRandom", "resize",
                  "conservativeResize", "resizeLike", "conservativeResizeLike", "swap", "resize_for_overwrite",
                  "setLinSpaced"):
            if l is None:
                for i in range(len(args)):
                    A(i)
                return opaque("eigmut")
            old = self.load(st, l, "m")
            if nm == "setZero":
                v = ZERO
                for i in range(len(args)):
                    A(i)
            elif nm == "setOnes":
                v = ONES
            elif nm == "setIdentity":
                v = EYE
            elif nm in ("setConstant", "fill"):
                v = mul(A(len(args) - 1), ONES)
            elif nm == "swap":
                l2 = self.lv(args[0], st, fr)
                o2 = A(0)
                if l2 is not None:
                    self.assign(st, l2, old, n)
                v = o2
            elif nm == "setLinSpaced":
                a = [A(i) for i in range(len(args))]
                v = mk("linspaced", size(old) if len(a) == 2 else a[0], a[-2], a[-1], sort="m")
            elif nm == "resize":
                dims = [A(i) for i in range(len(args))]
                v = mk("sized" if len(dims) == 1 else "sized2", mk("uninitm"), *dims, sort="m")
            else:
                v = mk("call", nm, old, *[A(i) for i in range(len(args))], sort="m")
            self.assign(st, l, v, n)
            return v
        v = self.load(st, l, "m") if l is not None else self.rv(base, st, fr)
        if nm in self.EIG_ID or nm in ("conjugate", "real", "cast", "nestedExpression"):
            return v
        if l is not None:
            d = self.eig_view(nm, l, args, st, fr, n)
        else:
            d = self.eig_view_val(nm, v, args, st, fr, n)
        if d is not None:
            return view(v, d)
        if nm == "size":
            return size(v)
        if nm == "rows":
            return rows(v) if True else None
        if nm == "cols":
            return cols(v)
        if nm == "dot":
            return dot(v, A(0))
        if nm == "squaredNorm":
            return dot(v, v)
        if nm == "norm":
            return mk("call", "sqrt", dot(v, v), sort="s")
        if nm in ("normalized", "normalize"):
            r = mul(inv(mk("call", "sqrt", dot(v, v), sort="s")), v)
            if nm == "normalized":
                return r
            if l is not None:
                self.assign(st, l, r, n)
            return mk("void")
        if nm == "cwiseProduct":
            return had(v, A(0))
        if nm in ("cwiseMax", "cwiseMin", "max", "min"):
            x = A(0)
            if x.sort != "m":
                x = mul(x, ONES)
            return maxmin("max" if "ax" in nm else "min", [v, x])
        if nm in ("cwiseAbs", "abs"):
            return maxmin("max", [v, neg(v)])
        if nm == "asDiagonal":
            return asdiag(v)
        if nm == "inverse":
            return minv(v)
        if nm == "lpNorm":
            t = targ_text(n) or "?"
            if "Infinity" in t or t.strip() == "-1":
                return infnorm(v)
            if t.strip() == "2":
                return mk("call", "sqrt", dot(v, v), sort="s")
            if t.strip() == "1":
                return vecsum(maxmin("max", [v, neg(v)]))
            return mk("call", "lpnorm" + t, v, sort="s")
        if nm in ("maxCoeff", "minCoeff", "sum", "prod", "mean"):
            vs = []
            for a in args:
                ll = None
                x = strip(a)
                if x.get("kind") == "UnaryOperator" and x.get("opcode") == "&":
                    ll = self.lv(x["inner"][0], st, fr)
                    if ll is not None:
                        self.assign(st, ll, mk("call", "arg" + nm, v, sort="i"), n)
            if nm == "maxCoeff" and v.op == "max":
                xs = list(v.args)
                if len(xs) == 2 and add(xs[0], xs[1]) is ZERO:
                    return infnorm(xs[0])
            return mk("call", nm, v, sort="s" if v.sort != "b" else "b")
        if nm == "select":
            a, b = A(0), A(1)
            if a.sort != "m":
                a = mul(a, ONES)
            if b.sort != "m":
                b = mul(b, ONES)
            return mk("sel", v, a, b, sort="m")
        if nm in ("hasNaN", "allFinite", "all", "any", "isZero", "isApprox"):
            return mk("call", nm, v, *[A(i) for i in range(len(args))], sort="b")
        if nm in ("cwiseInverse", "cwiseSqrt", "square", "exp", "log", "cwiseSign", "sign"):
            return mk("cw", nm, v, sort="m")
        if nm in ("cwiseQuotient",):
            return mk("cw2", "/", v, A(0), sort="m")
        if nm == "selfadjointView":
            m = tri_mode(n)
            return mk("symm", m, v, sort="m") if m is not None else mk("call", nm, v, sort="m")
        if nm in ("solveInPlace", "solve") and len(args) == 1 and "TriangularView" in qt(strip(base)):
            right = (targ_text(n) or "").strip() in ("2", "Eigen::OnTheRight", "OnTheRight")
            x = A(0)
            r = mul(x, minv(v)) if right else mul(minv(v), x)
            if nm == "solve":
                return r
            l2 = self.lv(args[0], st, fr)
            if l2 is not None:
                self.assign(st, l2, r, n)
            return mk("void")
        if nm == "data":
            return mk("addr", l) if l is not None else opaque("data")
        if nm in ("innerStride", "outerStride"):
            return mk("call", nm, v, sort="i")
        return self.opaque_call(nm, l, v, args, None, st, fr, n, qt(n))

    def eig_view_val(self, nm, v, args, st, fr, n):
        loc = mk("val", v)
        return self.eig_view(nm, loc, args, st, fr, n)

    def mv(self, a, st, fr):
        """value of a matrix operand, also when it is a reference returned by a call"""
        v = self.rv(a, st, fr)
        if is_eigen(qt(strip(a))) and any(x.op == "addr" for x in leaves(v)):
            v = map_leaves(v, lambda x: self.load(st, x.args[0], "m") if x.op == "addr" else x)
        return v

    def ex_CXXOperatorCallExpr(self, n, st, fr):
        nm = callee_name(n)
        args = n["inner"][1:]
        f = self.find_callee(n)
        op = nm[len("operator"):]
        t0 = qt(strip(args[0]))
        # closure call
        if op == "()":
            c = strip(args[0])
            while c.get("kind") == "ImplicitCastExpr":
                c = strip(c["inner"][0])
            if c.get("kind") == "DeclRefExpr":
                cl = self.find_closure(fr, c["referencedDecl"]["id"])
                if cl is None:
                    v = self.closure_value(c, st, fr)
                    cl = v
                if cl is not None:
                    vals = [self.rv(a, st, fr) for a in args[1:]]
                    return self.call_lambda(cl[0], cl[1], vals, st, n)
        if f is not None:
            if f.rec is not None and f.kind == "CXXMethodDecl":
                base = args[0]
                this = self.lv(base, st, fr)
                if this is None:
                    this = mk("val", self.rv(base, st, fr))
                if f.defaulted or f.implicit:
                    if op == "=":
                        v = self.rv(args[1], st, fr)
                        self.assign(st, this, v, n)
                        return v
                return self.call_func(f, this, args[1:], st, fr, n, base=base, opcall=True)
            return self.call_func(f, None, args, st, fr, n)
        e0 = is_eigen(t0) and not base_type(t0).startswith(("std::", "vector<"))
        e1 = len(args) > 1 and is_eigen(qt(strip(args[1]))) and not base_type(qt(strip(args[1]))).startswith(("std::", "vector<"))
        if op == "=":
            l = self.lv(args[0], st, fr)
            v = self.rv(args[1], st, fr)
            if l is None:
                return v
            if e0 and v.sort in ("s", "i") and not is_num(v):
                v = mul(v, ONES)
            self.assign(st, l, v, n)
            return v
        if op in ("+=", "-=", "*=", "/=", "|=", "&=") and len(args) == 2:
            v = self.mv(args[1], st, fr)
            l = self.lv(args[0], st, fr)
            old = self.load(st, l, self.sort_of_type(t0)) if l is not None else self.rv(args[0], st, fr)
            if e0 and v.sort in ("s", "i") and op in ("+=", "-="):
                v = mul(v, ONES)
            if op == "+=":
                new = add(old, v)
            elif op == "-=":
                new = add(old, neg(v))
            elif op == "*=":
                if isarray(t0) and v.sort == "m":
                    new = had(old, v)
                else:
                    new = mul(old, v)
            elif op == "/=":
                new = mul(old, inv(v)) if v.sort != "m" else mk("cw2", "/", old, v, sort="m")
            else:
                new = opaque(op, sort="m")
            if l is not None:
                self.assign(st, l, new, n, old=old)
            return new
        if op in ("+", "-", "*", "/") and (e0 or e1):
            x = self.mv(args[0], st, fr)
            if len(args) == 1:
                return neg(x) if op == "-" else x
            y = self.mv(args[1], st, fr)
            arr = isarray(t0) or (len(args) > 1 and isarray(qt(strip(args[1]))))
            if op in ("+", "-"):
                if x.sort != "m" and not is_num(x) or (is_num(x) and x is not ZERO):
                    x = mul(x, ONES)
                if y.sort != "m" and not is_num(y) or (is_num(y) and y is not ZERO):
                    y = mul(y, ONES)
                return add(x, y) if op == "+" else add(x, neg(y))
            if op == "*":
                if arr and x.sort == "m" and y.sort == "m":
                    return had(x, y)
                return mul(x, y)
            if y.sort != "m":
                return mul(x, inv(y))
            return mk("cw2", "/", x, y, sort="m")
        if op in self.CMP and (e0 or e1) and len(args) == 2:
            x, y = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            if base_type(qt(n)) == "bool":
                return mk("call", "meq", *sorted((x, y), key=lambda t: t.id), sort="b") if op == "==" else \
                    not_(mk("call", "meq", *sorted((x, y), key=lambda t: t.id), sort="b"))
            return cwcmp(op, x, y)
        if op in ("&&", "||") and (e0 or e1):
            x, y = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            return cwand(x, y) if op == "&&" else cwnot(cwand(cwnot(x), cwnot(y)))
        if op == "!" and e0:
            return cwnot(self.rv(args[0], st, fr))
        if op in ("[]", "()"):
            if e0:
                l = self.lv(args[0], st, fr)
                ix = [self.rv(a, st, fr) for a in args[1:]]
                if l is not None:
                    v = self.load(st, l, "m")
                else:
                    v = self.rv(args[0], st, fr)
                r = elt(v, *ix)
                s = self.sort_of_type(qt(n))
                if r.op in ("elt",) and s in ("i", "b"):
                    r = mk(r.op, *r.args, sort=s)
                return r
            if op == "[]":
                l = self.lv(n, st, fr)
                if l is not None:
                    return self.read(l, n, st)
        if op == "()":
            # std::function or unknown functor
            l = self.lv(args[0], st, fr)
            v = self.load(st, l, "o") if l is not None else self.rv(args[0], st, fr)
            if v.op == "closure":
                cl = closure_of(v)
                vals = [self.rv(a, st, fr) for a in args[1:]]
                return self.call_lambda(cl[0], cl[1], vals, st, n)
            return self.opaque_call("operator()", l, v, args[1:], None, st, fr, n, qt(n))
        if op == "*" and len(args) == 1 or op == "->":
            l = self.objloc(args[0], st, fr)
            t = qt(n)
            if op == "->":
                return mk("addr", l)
            return self.load(st, l, self.sort_of_type(t))
        if op in ("==", "!=") and len(args) == 2:
            x, y = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            return self.CMP[op](x, y)
        if op in ("<", ">", "<=", ">="):
            x, y = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            return self.CMP[op](x, y)
        if op in ("++", "--"):
            l = self.lv(args[0], st, fr)
            if l is not None:
                old = self.load(st, l, "i")
                new = add(old, ONE if op == "++" else num(-1))
                self.assign(st, l, new, n)
                return new
        if op in ("+", "-") and len(args) == 2:
            x, y = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            if x.sort == "i" or y.sort == "i":
                return add(x, y) if op == "+" else add(x, neg(y))
            return mk("call", op, x, y)
        if op == "<<":
            for a in args:
                self.rv(a, st, fr)
            l = self.lv(args[0], st, fr)
            if l is not None and e0:
                vs = [self.rv(a, st, fr) for a in args[1:]]
                self.assign(st, l, self.comma_value(vs, front.desugared(args[0]), self.load(st, l, "m"), args[1:]), n)
            return mk("call", "<<")
        if op == ",":
            # matrix << a, b, c
            items, x = [], n
            while x.get("kind") == "CXXOperatorCallExpr" and callee_name(x) == "operator,":
                xi = [c for c in x.get("inner") or () if c.get("kind")]
                items.insert(0, xi[-1])
                x = strip(xi[1])
            if x.get("kind") == "CXXOperatorCallExpr" and callee_name(x) == "operator<<":
                xi = [c for c in x.get("inner") or () if c.get("kind")]
                if is_eigen(qt(strip(xi[1]))):
                    items.insert(0, xi[2])
                    vs = [self.rv(a, st, fr) for a in items]
                    l = self.lv(xi[1], st, fr)
                    if l is not None:
                        self.assign(st, l, self.comma_value(vs, front.desugared(xi[1]), self.load(st, l, "m"), items), n)
                    return mk("call", "<<")
            vs = [self.rv(a, st, fr) for a in args]
            return mk("call", ",", *vs)
        vs = [self.rv(a, st, fr) for a in args]
        return self.opaque_call(nm, None, None, args, None, st, fr, n, qt(n), argvals=vs)

    def comma_value(self, vs, t="", cur=None, nodes=()):
        scal = [self.sort_of_type(qt(strip(a))) in ("s", "i") for a in nodes] if len(nodes) == len(vs) else [v.sort in ("s", "i") for v in vs]
        m = re.search(r"Matrix<[\w ]+, ([2-6]), ([2-6])\b", t)
        if m and all(scal) and len(vs) == int(m.group(1)) * int(m.group(2)):
            r = mk("uninitm")
            for k, v in enumerate(vs):          # row by row
                r = upd(r, mk("velt", num(k // int(m.group(2))), num(k % int(m.group(2)))), v)
            return r
        if vs and all(scal):
            return mk("veclit", *vs, sort="m")
        if cur is not None and re.search(r"Matrix<[\w ]+, -?\d+, 1\b", t):
            # a vector: part after part; one part of unknown length takes what the others leave
            ns = [ONE if sc else None if v.op == "num" or v is ONES else size(v) for v, sc in zip(vs, scal)]
            if ns.count(None) <= 1:
                tot = size(cur)
                rest = tot
                for k in ns:
                    rest = add(rest, neg(k)) if k is not None else rest
                r, off = mk("sized", mk("uninitm"), tot, sort="m"), ZERO
                for v, k, sc in zip(vs, ns, scal):
                    k = rest if k is None else k
                    r = upd(r, mk("velt", off) if sc else mk("vseg", off, k), v)
                    off = add(off, k)
                return r
        return mk("xcall", "comma", mk("list", *vs), sort="m")

    def closure_value(self, c, st, fr):
        l = self.lv_DeclRefExpr(c, st, fr)
        if l is None:
            return None
        v = st.store.get(l)
        if v is not None and v.op == "closure":
            return closure_of(v)
        return None

    def should_inline(self, f, base, member, n):
        key = f.qual
        if f.name in self.noinline or key in self.noinline:
            return False
        if f.body is None:
            return False
        if f in self.callstack:
            return False
        if len(self.callstack) >= self.maxdepth:
            return False
        if f.virtual:
            if f.name in self.inline_virtual or key in self.inline_virtual:
                return True
            # Base::f() is dispatched statically
            return member is not None and "::" in src_text(member).split("<")[0]
        return True

    def call_func(self, f, this, args, st, fr, n, base=None, member=None, ctor=False, opcall=False):
        if f.static or (f.kind == "FunctionDecl"):
            this = None if f.rec is None or f.static else this
        if f.name in self.intrinsics:
            self.itr_this, self.itr_node = this, n
            r = self.intrinsics[f.name](self, f, [self.rv(a, st, fr) for a in args], st, n)
            if r is not None:
                return r
        inline = ctor or self.should_inline(f, base, member, n)
        if not inline:
            ptypes = [qt(p) for p in f.params]
            rv = self.load(st, this, "o") if this is not None else None
            return self.opaque_call(f.name, this, rv, args, ptypes, st, fr, n, qt(n), decl=f)
        self.inlined.add(f.qual)
        g = self.new_frame(f, this if this is not None else (fr.this if f.rec is None else mk("nothis")), n)
        # bind parameters
        for i, p in enumerate(f.params):
            t = qt(p)
            a = args[i] if i < len(args) else None
            if a is None or a.get("kind") == "CXXDefaultArgExpr" and not a.get("inner"):
                dv = [c for c in p.get("inner") or () if c.get("kind")]
                v = self.rv(dv[-1], st, g) if dv else mk("default", sort=self.sort_of_type(t))
                st.store[self.local(p["id"], g)] = v
                continue
            lam = find_lambda(strip(a))
            if lam is not None:
                g.closures[p["id"]] = (lam, fr)
                continue
            sa = strip(a)
            while sa.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr") and len([c for c in sa.get("inner") or () if c.get("kind")]) >= 1 and not is_eigen(qt(sa)):
                if sa.get("kind") == "CXXConstructExpr" and not base_type(qt(sa)).startswith(("std::function<", "function<")):
                    break
                sa = strip(sa["inner"][0])
            if sa.get("kind") == "DeclRefExpr":
                cl = self.find_closure(fr, sa["referencedDecl"]["id"])
                if cl is not None:
                    g.closures[p["id"]] = cl
                    continue
            if t.rstrip().endswith("&") or is_viewtype(t):
                l = self.lv(a, st, fr)
                if l is not None:
                    g.refs[p["id"]] = l
                    continue
            v = self.rv(a, st, fr)
            v = self.coerce(v, t)
            st.store[self.local(p["id"], g)] = v
        g.refs_entry = dict(g.refs)
        self.callstack.append(f)
        self.fstack.append(g.id)
        s0 = st.copy()
        if ctor:
            self.ctor_inits(s0, g, f)
        g.retref = False
        out = self.exec(f.body, s0, g) if f.body is not None else s0
        self.callstack.pop()
        self.fstack.pop()
        if out is not None and out.pc is not FALSE:
            g.returns.append((out, None))
        if not g.returns:
            st.pc = FALSE
            return opaque("noreturn")
        s2, v = self.merge_returns(g.returns)
        # drop the callee's locals
        for k in [k for k in s2.store if k.op == "local" and k.args[1] == g.id]:
            if not any(contains(x, k) for x in ([v] if v is not None else [])):
                del s2.store[k]
        st.store, st.pc, st.fams = s2.store, s2.pc, s2.fams
        if v is None:
            return mk("void")
        rt = f.type.split("(")[0].strip()
        if v.op == "addr" or (v.op == "ite" and all(x.op == "addr" for x in leaves(v))):
            # reference/view result: r-value callers load it
            if getattr(self, "_want_loc", False):
                return v
            return self.maybe_load(v, n, st)
        v = self.coerce(v, rt) if rt not in ("auto",) else v
        return v

    def maybe_load(self, v, n, st):
        return v

    # result of rv for reference-returning calls: load through
    def rv_loaded(self, v, n, st):
        return v

    def opaque_call(self, nm, l, recv, args, ptypes, st, fr, n, rtype, decl=None, argvals=None):
        if not self.trystack or nm in NOTHROW:
            return self.opaque_call_(nm, l, recv, args, ptypes, st, fr, n, rtype, decl, argvals)
        before = st.copy()
        r = self.opaque_call_(nm, l, recv, args, ptypes, st, fr, n, rtype, decl, argvals)
        for k, v in st.store.items():
            if before.store.get(k) is not v:
                before.store[k] = mk("maybe", len(self.trystack), k, sort=v.sort)
        self.trystack[-1].append(before)
        return r

    def opaque_call_(self, nm, l, recv, args, ptypes, st, fr, n, rtype, decl=None, argvals=None):
        """call with unknown body; effects on arguments by parameter mode"""
        key = (decl.rec.name + "::" + nm) if decl is not None and decl.rec is not None else nm
        modes = self.modes.get(key) or self.modes.get(nm)
        vals = []
        locs = []
        clos = []
        for i, a in enumerate(args):
            if a.get("kind") == "CXXDefaultArgExpr" and not a.get("inner"):
                continue
            lam = find_lambda(strip(a))
            if lam is not None:
                clos.append((lam, fr))
            x = None
            t = ptypes[i] if ptypes and i < len(ptypes) else None
            mode = modes[i] if modes and i < len(modes) else None
            if mode is None:
                if t is not None:
                    mode = "io" if is_mutable_ref(t) else "in"
                elif argvals is not None:
                    mode = "in"
                else:
                    mode = "in"
            if mode != "in":
                x = self.lv(a, st, fr)
                if x is None:
                    sa = strip(a)
                    if sa.get("kind") == "UnaryOperator" and sa.get("opcode") == "&":
                        x = self.lv(sa["inner"][0], st, fr)
            locs.append((x, mode, self.sort_of_type(t) if t else "o"))
            if argvals is not None:
                vals.append(argvals[i])
            elif mode == "out" and x is not None:
                vals.append(mk("slot", i))
            else:
                vals.append(self.deref_val(self.rv(a, st, fr), t, st, a))
        rs = self.sort_of_type(rtype)
        cargs = ([recv] if recv is not None else []) + vals
        # a function outside the repository without a model: a difference that hinges on it is not decided
        if decl is None and nm in self.intrinsics:
            self.itr_this, self.itr_node = l, n
            r = self.intrinsics[nm](self, None, vals, st, n)
            if r is not None:
                return r
        call = mk("call", key, *cargs, sort=rs) if decl is not None else mk("call" if nm == "operator()" else "xcall", nm, *cargs, sort=rs)
        e = self.event("call", st, n, name=nm, recv=l, args=vals, value=call, decl=decl)
        outs = []
        was = {}
        k = 0
        nout = 0
        for (x, mode, so) in locs:
            if x is not None and mode != "in":
                c, ds = self.decomp(x)
                cur = self.load(st, x, so if so in "sib" else "m")
                was[k] = cur
                o = mk("out", k, call, sort=so if so in "sib" else "m" if so == "m" or cur.sort == "o" else cur.sort)
                outs.append((x, o))
                self.assign(st, x, o, n)
            k += 1
        if e is not None:
            e.outs = outs
            e.was = was                # what the outputs held before: their dimensions
        # non-const method on an object: it may change the object
        if decl is not None and l is not None and decl.rec is not None and not decl.const and not decl.static \
                and nm not in self.modes.get("__pure__", ()):
            self.assign(st, l, mk("after", call), n, quiet=True)
        for cl in clos:
            # effects of a closure passed to unknown code
            rec = self.record
            s2 = st.copy()
            self.record = False
            g = lambda_func(cl[0])
            ps = [c for c in (g or {}).get("inner") or () if c.get("kind") == "ParmVarDecl"]
            self.call_lambda(cl[0], cl[1], [opaque("larg", sort=self.sort_of_type(qt(p))) for p in ps], s2, n)
            self.record = rec
            for kk, v in s2.store.items():
                if kk.op != "local" and st.store.get(kk) is not v:
                    st.store[kk] = mk("clob", call, kk, sort=v.sort)
        return call

    def deref_val(self, v, t, st, a):
        if v.op == "addr" and (t is None or not t.rstrip().endswith("*")):
            if not qt(strip(a)).rstrip().endswith("*"):
                return self.load(st, v.args[0], self.sort_of_type(qt(strip(a))))
        return v


NOTHROW = {"push_back", "solve", "reserve", "clear", "isnan", "abs", "sqrt", "max", "min"}


class LambdaFunc:
    """stand-in Func for a lambda body"""
    def __init__(self, node):
        self.name = "operator()"
        self.rec = None
        self.node = node
        self.type = qtw(node)
        self.virtual = False
        self.qual = "lambda"
        self.params = []
        f, l = loc_of(node)
        self.file, self.line = f, l

    def where(self):
        return "%s:%s" % (rel(self.file), self.line)


class Summary:
    def calls(self, name=None):
        return [e for e in self.events if e.kind == "call" and (name is None or e.name == name)]

    def stores(self, pred=None):
        return [e for e in self.events if e.kind == "store" and (pred is None or pred(e.loc))]

    def throws(self):
        return [e for e in self.events if e.kind == "throw" and not e.caught]

    def value(self, loc, sort="m"):
        if self.final is None:
            return None
        return self.interp.load(self.final, loc, sort)


# helpers --------------------------------------------------------------------


def strip(n):
    while n is not None and n.get("kind") in STRIP and n.get("inner"):
        ch = [c for c in n["inner"] if c.get("kind")]
        if not ch:
            break
        if n["kind"] == "SubstNonTypeTemplateParmExpr":
            n = ch[-1]
        else:
            n = ch[0]
    return n


def find_lambda(n):
    while n is not None and n.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr",
                                              "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr"):
        ch = [c for c in n.get("inner") or () if c.get("kind") and c.get("kind") != "CXXDefaultArgExpr"]
        if len(ch) != 1:
            return None
        n = ch[0]
    if n is not None and n.get("kind") == "LambdaExpr":
        return n
    return None


_closures = {}


def id_of_closure(c):
    key = (c[0]["id"], c[1].id)
    _closures[key] = c
    return key


def closure_of(v):
    return _closures[v.args[0]]


def lambda_func(lam):
    for c in lam.get("inner") or ():
        if c.get("kind") == "CXXRecordDecl":
            for m in c.get("inner") or ():
                if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                    return m
                if m.get("kind") == "FunctionTemplateDecl" and m.get("name") == "operator()":
                    ms = [x for x in m.get("inner") or () if x.get("kind") == "CXXMethodDecl"]
                    inst_ = [x for x in ms[1:] if any(y.get("kind") == "CompoundStmt" for y in x.get("inner") or ())]
                    return inst_[0] if inst_ else (ms[0] if ms else None)
    return None


def integral(v):
    """a term whose value is an integer by construction"""
    if v.sort == "i" or v.op == "b2n":
        return True
    if v.op == "num":
        return v.args[0].denominator == 1
    if v.op == "ite":
        return integral(v.args[1]) and integral(v.args[2])
    if v.op == "sum":
        return all(c.denominator == 1 and not m and all(e > 0 and integral(x) for x, e in sc) for c, sc, m in v.args[0])
    return False


def callee_name(n):
    c = strip(n["inner"][0])
    while c.get("kind") in ("ImplicitCastExpr",):
        c = strip(c["inner"][0])
    if c.get("kind") == "DeclRefExpr":
        return c["referencedDecl"].get("name", "")
    if c.get("kind") == "MemberExpr":
        return c.get("name", "")
    return ""


def targ_text(n):
    """text of explicit template arguments of the callee, or None"""
    c = strip(n["inner"][0])
    while c.get("kind") == "ImplicitCastExpr":
        c = strip(c["inner"][0])
    t = src_text(c)
    if t.endswith(">") and "<" in t:
        d = 0
        for i in range(len(t) - 1, -1, -1):
            if t[i] == ">":
                d += 1
            elif t[i] == "<":
                d -= 1
                if d == 0:
                    return t[i + 1:-1].strip()
    return None


def ntp(t):
    try:
        return num(int(t))
    except ValueError:
        return mk("ntp", t, sort="i")


def split_params(fty):
    if "(" not in fty:
        return []
    i = fty.index("(")
    # last parenthesised group at depth 0
    depth = 0
    start = None
    dep_angle = 0
    for k, ch in enumerate(fty):
        if ch == "<":
            dep_angle += 1
        elif ch == ">" and fty[k - 1] != "-":
            dep_angle -= 1
        elif ch == "(" and dep_angle == 0 and start is None:
            start = k + 1
            depth = 0
        elif ch == "(":
            depth += 1
        elif ch == ")":
            if start is not None and depth == 0 and dep_angle == 0:
                body = fty[start:k]
                break
            depth -= 1
    else:
        return []
    out, cur, d = [], "", 0
    for ch in body:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def struct_parts(v):
    """object value given field by field -> (bare object, {field: value})"""
    if v.op == "with":
        p = struct_parts(v.args[0])
        if p is None:
            return None
        d = dict(p[1])
        d[v.args[1]] = v.args[2]
        return (p[0], d)
    if v.op == "objval":
        return (v, {})
    if v.op == "ite":
        a, b = struct_parts(v.args[1]), struct_parts(v.args[2])
        if a is None or b is None or a[0] is not b[0] or set(a[1]) != set(b[1]):
            return None
        return (a[0], {f: ite(v.args[0], a[1][f], b[1][f]) for f in a[1]})
    return None


def root(k):
    while k.op in ("fld", "idx", "vw"):
        k = k.args[0]
    return k


def is_prefix(a, b):
    """location a is an ancestor of location b"""
    while True:
        if b.op in ("fld", "idx", "vw"):
            b = b.args[0]
            if b is a:
                return True
        else:
            return False


def same_shape(a, b):
    """the same path, up to the indices"""
    while a.op == b.op and a.op in ("fld", "idx") and a is not b:
        if a.op == "fld" and a.args[1] != b.args[1]:
            return False
        a, b = a.args[0], b.args[0]
    return a is b


def meet(pat, cell, var):
    """where the family may hold this cell: False (nowhere), {} (unknown), or the counters that must be zero for it"""
    lv = []
    a, b = pat, cell
    while a.op == b.op and a.op in ("fld", "idx") and a is not b:
        if a.op == "idx" and "m" not in (a.args[1].sort, b.args[1].sort):
            lv.append((a.args[1], b.args[1]))
        a, b = a.args[0], b.args[0]
    zero = {}
    for _ in range(3):
        n = len(zero)
        for p, c in lv:
            p, c = subst(p, zero), subst(c, zero)
            if contains(p, var):
                f = subst(p, {var: ZERO})
                if add(p, neg(var)) is f and sign_of_counters(add(c, neg(f))) == -1:
                    return False
                continue
            d = add(c, neg(p))
            g = sign_of_counters(d)
            if g in (1, -1):
                return False
            if g in (2, -2):
                zero.update({x: ZERO for _, s_, _ in monos(d) for x, _ in s_})
        if len(zero) == n:
            break
    return zero


def match1(pat, cell, var):
    """j such that pat[var:=j] is cell"""
    if pat is cell:
        return var
    if pat.op != cell.op:
        return None
    cands = set()
    c = cell
    while c.op in ("fld", "idx", "vw"):
        if c.op == "idx":
            cands.add(c.args[1])
        c = c.args[0]
    for j in cands:
        if subst(pat, {var: j}) is cell:
            return j
    a, b = pat, cell
    while a.op == b.op and a.op in ("fld", "idx", "vw"):
        if a.op == "idx" and a.args[1] is not var and contains(a.args[1], var) and a.args[1].sort == "i":
            k = add(a.args[1], neg(var))
            if not contains(k, var):
                j = add(b.args[1], neg(k))
                if subst(pat, {var: j}) is cell:
                    return j
            k = add(a.args[1], var)             # counting down: k - var
            if not contains(k, var):
                j = add(k, neg(b.args[1]))
                if subst(pat, {var: j}) is cell:
                    return j
        a, b = a.args[0], b.args[0]
    return None


def pat_shift(pat, var):
    """the pattern's index is the variable plus something"""
    c = pat
    while c.op in ("fld", "idx", "vw"):
        if c.op == "idx" and c.args[1] is var:
            return False
        c = c.args[0]
    return True


def idx_base(pat, var):
    c = pat
    while c.op in ("fld", "idx", "vw"):
        if c.op == "idx" and contains(c.args[1], var):
            return c.args[0]
        c = c.args[0]
    return None


def has_idx_bv(k, bv, mod, closed):
    return contains(k, bv)


def key_varies(k, bv, lid):
    for x in subterms(k):
        if x is bv:
            return True
        if x.op == "phi" and x.args[0] == lid:
            return True
    return False


def pall(bv, N, body):
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return le(N, ZERO)
    if not contains(body, bv):
        return or_(body, le(N, ZERO))
    return bind("pall", bv, N, body, sort="b")


def trip_count(c, bv, lid):
    """number of iterations of a loop with pre-test c (over bv), or None"""
    if c is None or c.op in ("true", "false"):
        return None
    neg_ = False
    if c.op == "ite":
        if c.args[1] is FALSE and c.args[2] is TRUE:
            neg_ = True
            c = c.args[0]
        else:
            return None
    if c.op not in ("lt0", "eq0"):
        return None
    d = c.args[0]
    coef = None
    rest = []
    for k, s, m in monos(d):
        if m:
            return None
        if s == ((bv, 1),):
            coef = k
        else:
            for x, e in s:
                if contains(x, bv) or any(y.op in ("phi", "phiout", "first") and y.args[0] >= lid for y in subterms(x)):
                    return None
            rest.append((k, s, m))
    if coef is None:
        return None
    r = from_monos(rest)
    if c.op == "lt0" and not neg_ and coef > 0:
        if coef == 1:
            return neg(r)
        return None
    if c.op == "lt0" and neg_ and coef < 0:     # -bv + r >= 0
        if coef == -1:
            return add(r, ONE)
        return None
    if c.op == "eq0" and neg_ and abs(coef) == 1:
        return neg(r) if coef == 1 else r
    return None


def any_var(k, *skip):
    """the next unused pattern variable for cell k"""
    i = 0
    while True:
        v = mk("bv", "any%d" % i, sort="i")
        if v not in skip and not contains(k, v):
            return v
        i += 1


def upd_views(b, p):
    """the views of p rewritten in b (b = p with nested updates, under guards), or None"""
    ds = []
    for x in leaves(b):
        while x is not p:
            if x.op != "upd":
                return None
            if x.args[1] not in ds:
                ds.append(x.args[1])
            x = x.args[0]
    return ds


def isarray(t):
    b = base_type(t).replace("Eigen::", "")
    if b.startswith(("ArrayWrapper<", "Array<", "ArrayBase<")):
        return True
    return b.startswith(("CwiseBinaryOp<", "CwiseUnaryOp<", "CwiseNullaryOp<", "Block<")) and "ArrayWrapper<" in b


def isdiagish(v):
    return v.op == "asdiag"


def minv(v):
    return mk("minv", v, sort="m") if not isdiagish(v) else mk("cwinv", v, sort="m")


TRI_MODE = {1: "Lower", 2: "Upper", 5: "UnitLower", 6: "UnitUpper", 9: "StrictlyLower", 10: "StrictlyUpper"}


def tri_mode(n):
    """the part a triangular or self-adjoint view refers to, from its type"""
    m = re.search(r"(?:TriangularView|SelfAdjointView)<.*?,\s*(\d+)(?:U)?\s*>[\s&]*$", qt(n))
    if m:
        return TRI_MODE.get(int(m.group(1)))
    t = (targ_text(n) or "").strip().split("::")[-1]
    if t.isdigit():
        return TRI_MODE.get(int(t))
    return t if t in TRI_MODE.values() else None


def asdiag(v):
    return map_leaves(v, lambda x: from_monos(
        [(c, s, (mk("asdiag", from_monos([(1, (), m)]), sort="m"),)) for c, s, m in monos(x)]))




def cwcmp(op, x, y):
    def L(a, b):
        if a.sort != "m":
            a = mul(a, ONES)
        if b.sort != "m":
            b = mul(b, ONES)
        return mk("cwlt", add(a, neg(b)), sort="m")
    if op == "<":
        return L(x, y)
    if op == ">":
        return L(y, x)
    if op == "<=":
        return cwnot(L(y, x))
    if op == ">=":
        return cwnot(L(x, y))
    d = add(x if x.sort == "m" else mul(x, ONES), neg(y if y.sort == "m" else mul(y, ONES)))
    d = canon_sign(d)
    e = mk("cweq", d, sort="m")
    return e if op == "==" else cwnot(e)


def cwnot(x):
    if x.op == "cwnot":
        return x.args[0]
    return mk("cwnot", x, sort="m")


def cwand(x, y):
    xs = set()
    for t in (x, y):
        if t.op == "cwand":
            xs |= set(t.args)
        else:
            xs.add(t)
    return mk("cwand", *sorted(xs, key=lambda t: t.id), sort="m")


def const_bool(n):
    if n.get("kind") == "ConstantExpr" and "value" in n:
        return n["value"] in ("true", "1", True)
    for c in n.get("inner") or ():
        if c and c.get("kind") in ("ConstantExpr", "CXXBoolLiteralExpr", "ImplicitCastExpr", "ParenExpr"):
            return const_bool(c)
    if n.get("kind") == "CXXBoolLiteralExpr":
        return bool(n.get("value"))
    return None
