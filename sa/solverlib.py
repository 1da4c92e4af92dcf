"""What the rules about ProxNLPSolverTpl share: the vocabulary of cells and operator
terms, the representation facts proved by the layout rule (A06), and one summary of
`solve` with every repository helper expanded in place."""
from .terms import *
from .interp import Interp
from . import interp as _i
from .front import qt

constrain = under        # rules simplify inside operands too
THIS = mk("this")
RS = mk("fld", THIS, "results_")
WS = mk("fld", THIS, "workspace_")
PB = mk("fld", THIS, "problem_")
CS = mk("fld", PB, "constraints_")
NB = size(mk("init", CS, sort="o"))


def F(base, *names):
    for n in names:
        base = mk("fld", base, n)
    return base


MF = mk("fld", THIS, "merit_fun")


def S(n): return F(THIS, n)
def R(n): return F(RS, n)
def W(n): return F(WS, n)
def ini(c, sort="o"): return mk("init", c, sort=sort)


MAN = F(PB, "manifold_")
ND = mk("call", "ManifoldAbstractTpl::ndx", ini(MAN), sort="i")
NC = ini(F(PB, "nc_total_"), "i")


def IDX(i): return ini(mk("idx", F(PB, "indices_"), i), "i")
def DIM(i): return ini(mk("idx", F(PB, "ncs_"), i), "i")
def STARTS(i):
    """the first row of constraint i: as recorded, or summed up on the way (the layout rule proves them equal)"""
    b = mk("bv", "start", sort="i")
    return [IDX(i), psum(b, i, DIM(b))]


def CON(i): return mk("idx", CS, i)
def FUNC(i): return ini(F(CON(i), "func_"))
def SET(i): return ini(F(CON(i), "set_"))


VECTORS = {"lams_prev": "data_lams_prev", "lams_trial": "data_lams_trial",
           "cstr_values": "data_cstr_values", "lams_plus": "data_lams_plus",
           "lams_plus_reproj": "data_lams_plus_reproj", "shift_cstr_values": "data_shift_cstr_values",
           "lams_pdal": "data_lams_pdal", "lams_pdal_reproj": "data_lams_pdal_reproj",
           "shift_cstr_pdal": "data_shift_cstr_pdal", "lams_opt": "data_lams_opt"}
JACS = {"cstr_jacobians": "data_jacobians", "cstr_jacobians_proj": "data_jacobians_proj"}


def alias(loc):
    """views into the workspace/results buffers (layout proved by A06)"""
    if loc.op == "idx" and loc.args[0].op == "fld":
        L, i = loc.args
        n, o = L.args[1], L.args[0]
        if o.op != "fld" or o.args[1] not in ("workspace_", "results_"):
            return None
        if n in VECTORS:
            return mk("vw", mk("fld", o, VECTORS[n]), mk("vseg", IDX(i), DIM(i)))
        if n in JACS:
            return mk("vw", mk("fld", o, JACS[n]), mk("vblk", IDX(i), ZERO, DIM(i), ND))
        if n == "cstr_vector_hessian_prod":
            return mk("vw", mk("fld", o, "data_hessians"), mk("vblk", mul(i, ND), ZERO, ND, ND))
        return None
    if loc.op == "fld" and loc.args[0] is MF:       # bound by the constructor (A06)
        if loc.args[1] == "problem_":
            return PB
        if loc.args[1] == "beta_":
            return S("pdal_beta_")
    if loc.op == "fld" and loc.args[0] is WS:
        if loc.args[1] == "prim_step":
            return mk("vw", W("pd_step"), mk("vseg", ZERO, ND))
        if loc.args[1] == "dual_step":
            return mk("vw", W("pd_step"), mk("vseg", ND, NC))
    return None


PRE = {W("numblocks"): NB, W("ndx"): ND, W("numdual"): NC}

VEC_NC = set(VECTORS.values()) | {"signature_dual"}
VEC_ND = {"objective_gradient", "merit_gradient", "dual_residual", "prox_grad"}
VEC_KKT = {"kkt_rhs", "kkt_rhs_corr", "kkt_err", "pd_step", "signature"}
MAT_ND = {"objective_hessian", "prox_hess"}


def dims(cell):
    if cell.op != "fld" or cell.args[0] not in (WS, RS):
        return None
    n = cell.args[1]
    if n in VEC_NC or n == "merit_dual_gradient":
        return NC, ONE
    if n in VEC_ND:
        return ND, ONE
    if n in VEC_KKT:
        return add(ND, NC), ONE
    if n in MAT_ND:
        return ND, ND
    if n == "kkt_matrix":
        return add(ND, NC), add(ND, NC)
    if n in ("data_jacobians", "data_jacobians_proj"):
        return NC, ND
    if n == "data_hessians":
        return mul(NB, ND), ND
    if n == "constraint_violations":
        return NB, ONE
    return None


def size_hook(what, v):
    c = None
    if v.op == "init":
        c = v.args[0]
    elif v.op == "phi":
        c = v.args[1]
    if isinstance(c, Term):
        d = dims(c)
        if d is not None:
            return d[0] if what == "rows" else d[1] if what == "cols" else mul(*d)
    return None


MODES = {"projection": ["in", "out"], "normalConeProjection": ["in", "out"],
         "applyProjectionJacobian": ["in", "io"], "applyNormalConeProjectionJacobian": ["in", "io"],
         "computeActiveSet": ["in", "out"], "computeGradient": ["in", "out"],
         "computeJacobian": ["in", "out"], "computeHessian": ["in", "out"],
         "vectorHessianProduct": ["in", "in", "out"], "integrate": ["in", "in", "out"],
         "integrate_impl": ["in", "in", "out"], "difference": ["in", "in", "out"],
         "difference_impl": ["in", "in", "out"], "Jdifference": ["in", "in", "out", "in"],
         "compute": ["in"], "solveInPlace": ["io"], "run": ["in", "in", "in", "out"],
         "BFGSStrategy::update": ["in", "in", "io"]}


def _infnorm(it, f, vals, st, n):
    return infnorm(vals[0]) if vals and vals[0].sort == "m" else None


def _isbad(it, f, vals, st, n):
    return mk("call", "isbad", vals[0], sort="b")


INTRINSICS = {"infty_norm": _infnorm, "check_value": _isbad}
NOINLINE = ("run", "compute", "solveInPlace", "log", "update", "checkInertia", "computeInertiaTuple",
            "start", "finish", "signature")


def solve_fn(u):
    fs = [f for f in u.find("ProxNLPSolverTpl", "solve")
          if len(f.params) >= 2 and "vector" not in qt(f.params[1]) and "VectorOf" not in qt(f.params[1])]
    if len(fs) != 1:
        from .front import AnalysisBroken
        raise AnalysisBroken("expected one solve(x0, lams) overload, found %d" % len(fs))
    return fs[0]


_positive = {}


def positive_members(u):
    """scalar members of the solver whose in-class default is a non-negative literal;
    assumed to keep that sign (they are regularisation sizes and factors)"""
    if u not in _positive:
        d = {}
        for r in u.recname.get("ProxNLPSolverTpl", ()):
            for f in r.node.get("inner") or ():
                if f.get("kind") == "FieldDecl" and f.get("hasInClassInitializer"):
                    v = _literal(f)
                    if v is not None:
                        d[f.get("name")] = v
        _positive[u] = d
    return _positive[u]


def _literal(n):
    if n.get("kind") in ("FloatingLiteral", "IntegerLiteral"):
        try:
            return float(n["value"])
        except ValueError:
            return None
    if n.get("kind") == "BinaryOperator" and n.get("opcode") in ("/", "*", "+"):
        a, b = [_literal(x) for x in n["inner"]]
        if a is None or b is None or a < 0 or b < 0 or (n["opcode"] == "/" and b == 0):
            return None
        return a / b if n["opcode"] == "/" else a * b if n["opcode"] == "*" else a + b
    ks = [c for c in n.get("inner") or () if c.get("kind") and not c["kind"].endswith("Comment")]
    return _literal(ks[-1]) if len(ks) == 1 else None


def interp(u, keep=(), weak=True, noinline=NOINLINE, **kw):
    SIZE_HOOK[0] = size_hook
    # overriders of setProxParameter also update the set's own parameter (B01, B02)
    it = Interp(u, modes=MODES, alias=alias, noinline=noinline, intrinsics=INTRINSICS,
                inline_virtual=("setProxParameter",), weak_throw=weak, keep=keep, **kw)
    it.celldims = dims
    pos = positive_members(u)
    it.nonneg = lambda c: c.op == "fld" and c.args[0] is THIS and pos.get(c.args[1], -1) >= 0
    return it


def summary(u, func, keep=(), weak=True, pre=None, **kw):
    it = interp(u, keep, weak, **kw)
    p = dict(PRE)
    p.update(pre or {})
    return it.run(func, pre=p)


# operator terms -------------------------------------------------------------
def call(name, *args, sort="m"): return mk("call", name, *args, sort=sort)
def out(k, c, sort="m"): return mk("out", k, c, sort=sort)
def slot(k): return mk("slot", k)
def cval(i, x): return call("BaseFunctionTpl::operator()", FUNC(i), x)
def cjac(i, x): return out(1, call("C1FunctionTpl::computeJacobian", FUNC(i), x, slot(1), sort="o"))
def vhp(i, x, l): return out(2, call("C2FunctionTpl::vectorHessianProduct", FUNC(i), x, l, slot(2), sort="o"))
def proj(i, z): return out(1, call("ConstraintSetTpl::projection", SET(i), z, slot(1), sort="o"))
def ncproj(i, z): return out(1, call("ConstraintSetTpl::normalConeProjection", SET(i), z, slot(1), sort="o"))


def apj(i, z, v): return out(1, call("ConstraintSetTpl::applyProjectionJacobian", SET(i), z, v, sort="o"))
def ancpj(i, z, v): return out(1, call("ConstraintSetTpl::applyNormalConeProjectionJacobian", SET(i), z, v, sort="o"))


class At:
    """the state at an event, simplified by the condition the event is reached under"""

    def __init__(self, s, e):
        self.s, self.e = s, e

    def __call__(self, cell, so="m"):
        return constrain(self.s.interp.load(self.e.st, cell, so), self.e.pc)

    def val(self, t):
        return constrain(t, self.e.pc)


def enum(u, name, default=None):
    """value of an enumerator of the repository"""
    for k, v in u.enums.items():
        if v[1] == name if isinstance(v, tuple) and len(v) > 1 else False:
            return num(v[2])
    return num(default) if default is not None else None


def solve_summary(ctx, keep=("store", "call", "throw")):
    u = ctx.unit("solver")
    f = solve_fn(u)
    return u, f, ctx.saw(summary(u, f, keep=keep))


def ev(s, kind=None, name=None, loc=None):
    return [e for e in s.events if (kind is None or e.kind == kind) and (name is None or e.name == name)
            and (loc is None or e.loc is loc)]
