"""Workspace and results: every per-constraint view is the rows of that constraint in its own buffer,
the step views split the primal-dual step, buffers are not moved after views were taken, and a
freshly set up solver starts from zeroed data built from its problem and its configuration."""
from sa.terms import *
from sa.modlib import *
from sa import solverlib as SL

TITLE = "Layout of the solver's working memory"
FLOOR = 20
# per-constraint views <- buffer of stacked values
VIEWS = {"lams_prev": "data_lams_prev", "lams_trial": "data_lams_trial", "cstr_values": "data_cstr_values",
         "shift_cstr_values": "data_shift_cstr_values", "lams_plus": "data_lams_plus",
         "lams_plus_reproj": "data_lams_plus_reproj", "lams_pdal": "data_lams_pdal",
         "lams_pdal_reproj": "data_lams_pdal_reproj", "shift_cstr_pdal": "data_shift_cstr_pdal"}
JACS = {"cstr_jacobians": "data_jacobians", "cstr_jacobians_proj": "data_jacobians_proj"}
ZEROED = ("kkt_matrix", "kkt_rhs", "kkt_rhs_corr", "pd_step", "signature", "x_prev", "x_trial", "prox_grad", "prox_hess", "dual_residual",
          "objective_gradient", "objective_hessian", "merit_gradient", "merit_dual_gradient", "tmp_dx_scaled")
Q = "ManifoldAbstractTpl::"


class Prob:
    def __init__(self, base):
        self.base = base
        cs = mk("fld", base, "constraints_")
        man = mk("init", mk("fld", base, "manifold_"), sort="o")
        self.n = size(mk("init", cs, sort="o"))
        self.nc = mk("init", mk("fld", base, "nc_total_"), sort="i")
        self.nx, self.nd = vcall(Q + "nx", man, so="i"), vcall(Q + "ndx", man, so="i")
        self.neutral = vcall(Q + "neutral", man, so="m")

    def ix(self, k): return mk("init", mk("idx", mk("fld", self.base, "indices_"), k), sort="i")
    def dim(self, k): return mk("init", mk("idx", mk("fld", self.base, "ncs_"), k), sort="i")


def run(ctx):
    u = ctx.unit("solver")
    for f in ctor(u, u.record("WorkspaceTpl"), 2):
        s = summary(ctx, u, f)
        workspace(ctx, u, f, s, THIS, Prob(cell(f, 0)), "workspace")
        scalars(ctx, u, u.record("WorkspaceTpl"), f, s, "workspace")
    for f in ctor(u, u.record("ResultsTpl"), 1):
        s = summary(ctx, u, f)
        results(ctx, u, f, s, THIS, Prob(cell(f, 0)), "results")
        scalars(ctx, u, u.record("ResultsTpl"), f, s, "results")
    solver(ctx, u)


def views(ctx, key, f, s, o, pb, m, d, kind):
    """member m of object o: one view per constraint, on buffer d"""
    where = f.where()
    V, D = mk("fld", o, m), mk("fld", o, d)
    J = ranged("J", pb.n)
    ctx.same("%s/%s/count" % (key, m), where, s.interp.container_size(s.final, V), pb.n, "one view per constraint")
    got = elem_(s, V, J)
    ncol = None
    if kind == "seg":
        want = mk("vseg", pb.ix(J), pb.dim(J))
    elif kind == "jac":
        want = mk("vblk", pb.ix(J), ZERO, pb.dim(J), pb.nd)
    else:
        want = mk("vblk", mul(J, pb.nd), ZERO, pb.nd, pb.nd)
    loc = viewloc(got)
    if loc is None:
        ctx.ob("%s/%s/view" % (key, m), where, None, show(got, 6)[:300])
    else:
        b, v = loc
        ctx.ob("%s/%s/buffer" % (key, m), where, b is D, "a view of %s instead of %s" % (show(b), d))
        if v.op == "vseg" and v.op == want.op or v.op == "vblk" and want.op == "vblk":
            names = ("first row", "rows") if v.op == "vseg" else ("first row", "first column", "rows", "columns")
            for nm, x, y in zip(names, v.args, want.args):
                x = constrain(x, lt(J, pb.n))
                if nm == "columns" and x.op in ("call", "cols") and x is not y:
                    x = y if x is cols(mk("init", D, sort="m")) else x
                ctx.same("%s/%s/%s" % (key, m, nm.replace(" ", "-")), where, x, y, "%s of the view of a constraint" % nm)
        else:
            ctx.ob("%s/%s/view" % (key, m), where, None if want.op != v.op and v.op not in ("vseg", "vblk") else False, "unexpected view %s" % show(v, 6))
    stable(ctx, "%s/%s/stable" % (key, m), f, s, V, D)


def elem_(s, V, J):
    return s.value(mk("idx", V, J), "o")


def viewloc(v):
    if v.op == "addr":
        v = v.args[0]
    elif v.op == "view":
        v = v.args[0]
    elif v.op == "init" and v.args[0].op == "vw":
        v = v.args[0]
    if v.op == "vw" and v.args[0].op != "vw":
        return v.args[0], v.args[1]
    return None


def reallocs(e):
    return e.value is not None and (e.value.op in ("sized", "sized2", "uninitm") or e.value.op == "call" and e.value.args[:1] == ("uninitm",))


def stable(ctx, key, f, s, V, D):
    """the buffer keeps its memory once views of it exist"""
    first = None
    for e in s.events:
        if e.kind == "store" and e.loc is V and e.value is not None and first is None and has_view(e.value, D):
            first = e
        elif first is not None and e.kind == "store" and e.loc is D and reallocs(e):
            old, new = first_size(s, D, first), e.value
            ctx.ob(key, e.where, False if old is None or old is not new else True, "the buffer is resized after views of it were taken")
            return
    ctx.ob(key, f.where(), True if first is not None else None, "")


def first_size(s, D, upto):
    r = None
    for e in s.events:
        if e is upto:
            return r
        if e.kind == "store" and e.loc is D and reallocs(e):
            r = e.value
    return r


def has_view(v, D):
    return any(x.op == "vw" and x.args[0] is D for x in subterms(v))


def shape_of(s, cell_):
    """(rows, cols) of a dense member at the end, from its last allocation; None if unknown"""
    r = None
    for e in s.events:
        if e.kind == "store" and e.loc is cell_ and e.value is not None:
            v = e.value
            if v.op == "sized":
                r = (v.args[1], ONE)
            elif v.op == "sized2":
                r = (v.args[1], v.args[2])
            elif v.op == "call" and v.args[:1] == ("uninitm",):
                r = None
            elif v.op == "zeros" or v.op == "cst":
                r = (rows(v), cols(v))
    return r


def workspace(ctx, u, f, s, o, pb, key):
    where = f.where()
    g = lambda m, so="i": s.value(mk("fld", o, m), so)
    for m, w in (("nx", pb.nx), ("ndx", pb.nd), ("numblocks", pb.n), ("numdual", pb.nc)):
        ctx.same("%s/%s" % (key, m), where, g(m), w, "dimension of the problem")
    for m, d in VIEWS.items():
        views(ctx, key, f, s, o, pb, m, d, "seg")
    for m, d in JACS.items():
        views(ctx, key, f, s, o, pb, m, d, "jac")
    views(ctx, key, f, s, o, pb, "cstr_vector_hessian_prod", "data_hessians", "hess")
    for m, a, n in (("prim_step", ZERO, pb.nd), ("dual_step", pb.nd, pb.nc)):
        loc = viewloc(g(m, "m"))
        if loc is not None and loc[1].op == "vblk":      # a row range of a vector
            loc = loc[0], mk("vseg", loc[1].args[0], loc[1].args[2])
        if loc is None or loc[1].op != "vseg":
            ctx.ob("%s/%s" % (key, m), where, None, show(g(m, "m"), 5))
            continue
        ctx.ob("%s/%s/buffer" % (key, m), where, loc[0] is mk("fld", o, "pd_step"), "a view of %s" % show(loc[0]))
        ctx.same("%s/%s/first" % (key, m), where, loc[1].args[0], a, "where it starts in the step")
        ctx.same("%s/%s/size" % (key, m), where, loc[1].args[1], n, "its length")
        stable(ctx, "%s/%s/stable" % (key, m), f, s, mk("fld", o, m), mk("fld", o, "pd_step"))
    for m in ZEROED + tuple(sorted(set(VIEWS.values()) | set(JACS.values()) | {"data_hessians"})):
        ctx.same("%s/zero/%s" % (key, m), where, g(m, "m"), ZERO, "working memory starts at zero")
    nk = add(pb.nd, pb.nc)
    want = {"kkt_matrix": (nk, nk), "kkt_rhs": (nk, ONE), "kkt_rhs_corr": (nk, ONE), "kkt_err": (nk, ONE), "pd_step": (nk, ONE), "signature": (nk, ONE),
            "x_prev": (pb.nx, ONE), "x_trial": (pb.nx, ONE), "prox_grad": (pb.nd, ONE), "prox_hess": (pb.nd, pb.nd), "dual_residual": (pb.nd, ONE),
            "objective_gradient": (pb.nd, ONE), "objective_hessian": (pb.nd, pb.nd), "merit_gradient": (pb.nd, ONE), "tmp_dx_scaled": (pb.nd, ONE),
            "merit_dual_gradient": (pb.nc, ONE), "data_jacobians": (pb.nc, pb.nd), "data_hessians": (mul(pb.n, pb.nd), pb.nd)}
    for d in VIEWS.values():
        want[d] = (pb.nc, ONE)
    for m, (a, b) in sorted(want.items()):
        sh = shape_of(s, mk("fld", o, m))
        if sh is None:
            ctx.ob("%s/shape/%s" % (key, m), where, None, "no explicit size")
        else:
            ctx.same("%s/shape/%s/rows" % (key, m), where, sh[0], a, "rows of the buffer")
            ctx.same("%s/shape/%s/cols" % (key, m), where, sh[1], b, "columns of the buffer")
    ctx.same(key + "/dmerit", where, g("dmerit_dir", "s"), ZERO, "no directional derivative yet")


def results(ctx, u, f, s, o, pb, key):
    where = f.where()
    g = lambda m, so="m": s.value(mk("fld", o, m), so)
    ctx.same(key + "/x", where, g("x_opt"), pb.neutral, "the point is the neutral element before a solve")
    views(ctx, key, f, s, o, pb, "lams_opt", "data_lams_opt", "seg")
    ctx.same(key + "/zero/multipliers", where, g("data_lams_opt"), ZERO, "multipliers start at zero")
    sh = shape_of(s, mk("fld", o, "data_lams_opt"))
    if sh:
        ctx.same(key + "/shape/multipliers", where, sh[0], pb.nc, "one multiplier per constraint row")
    for m, so in (("num_iters", "i"), ("al_iters", "i"), ("mu", "s"), ("rho", "s"), ("dual_infeas", "s"), ("prim_infeas", "s")):
        ctx.same("%s/zero/%s" % (key, m), where, g(m, so), ZERO, "counters, parameters and residuals start at zero")
    ctx.ob(key + "/status", where, g("converged", "i") is not (SL.enum(u, "SUCCESS") or ZERO), "success is not reported before a solve")
    ctx.same(key + "/zero/violations", where, g("constraint_violations"), ZERO, "no violation recorded yet")
    sh = shape_of(s, mk("fld", o, "constraint_violations"))
    if sh:
        ctx.same(key + "/shape/violations", where, sh[0], pb.n, "one violation per constraint")
    A = mk("fld", o, "active_set")
    J = ranged("J", pb.n)
    ctx.same(key + "/active/count", where, s.interp.container_size(s.final, A), pb.n, "one active set per constraint")
    put = [e for e in s.events if e.kind == "call" and e.name in ("push_back", "emplace_back") and e.recv is A and e.ctx]
    for k, e in enumerate(put[:1]):
        ds = [d for d in s.events if d.kind == "dims" and d.seq < e.seq and d.ctx and d.ctx[-1] is e.ctx[-1] and len(d.args) == 1]
        lc = e.ctx[-1]
        if ds and lc.bv is not None and e.args and e.args[0] is ZERO:
            got = subst(ds[-1].args[0], {lc.bv: J})
            fn = mk("init", mk("fld", mk("fld", mk("idx", mk("fld", pb.base, "constraints_"), J), "func_"), "nr_"), sort="i")
            ctx.same(key + "/shape/active", e.where, subst(got, {fn: pb.dim(J)}), pb.dim(J), "one flag per row of the constraint")
    ctx.same(key + "/active/zero", where, s.value(mk("idx", A, J), "m"), ZERO, "no constraint is active yet")


ARITH = {"double": "s", "float": "s", "int": "i", "long": "i", "unsigned long": "i", "size_t": "i", "std::size_t": "i", "bool": "b", "Scalar": "s"}


def scalars(ctx, u, r, f, s, key):
    """no number is left with an indeterminate value"""
    for d in r.node.get("inner") or ():
        if d.get("kind") == "FieldDecl":
            ty = (d.get("type") or {})
            so = ARITH.get(ty.get("desugaredQualType", ty.get("qualType", "")).replace("const ", "")) or ARITH.get(ty.get("qualType", "").replace("const ", ""))
            if so:
                v = s.value(mcell(d["name"]), so)
                ctx.ob("%s/initialised/%s" % (key, d["name"]), f.where(), not any(x is mk("init", mcell(d["name"]), sort=so) for x in subterms(v)),
                       "a number is read before it is written: %s" % show(v, 5))


def made(s, m, cls):
    """object newly created for pointer member m"""
    v = s.value(mcell(m), "o")
    for x in subterms(v):
        if x.op == "addr" and x.args[0].op == "new":
            return x.args[0]
    return None


def solver(ctx, u):
    r = u.record("ProxNLPSolverTpl")
    fs = [m for m in r.methods if m.kind == "CXXConstructorDecl" and not m.implicit and len(m.params) > 3 and (m.body is not None or m.inits)]
    for f in fs[:1]:
        s = summary(ctx, u, f)
        pb = cell(f, 0)
        where = f.where()
        names = {p.get("name"): i for i, p in enumerate(f.params)}
        ctx.same("solver/problem", where, s.value(mcell("problem_"), "o"), mk("addr", pb), "the solver works on the problem given")
        ctx.same("solver/merit-problem", where, s.value(mcell("merit_fun", "problem_"), "o"), mk("addr", pb), "the merit function is that of the same problem")
        ctx.same("solver/merit-beta", where, s.value(mcell("merit_fun", "beta_"), "o"), mk("addr", mcell("pdal_beta_")), "and reads the solver's own primal-dual weight")
        for m, p in (("rho_init_", "rho_init"), ("mu_init_", "mu_init"), ("mu_lower_", "mu_lower"), ("target_tol", "tol"),
                     ("ldlt_choice_", "ldlt_choice"), ("verbose", "verbose"), ("rho_", "rho_init"), ("mu_", "mu_init")):
            if p in names:
                so = "i" if m in ("ldlt_choice_", "verbose") else "s"
                ctx.same("solver/option/" + m, where, s.value(mcell(m), so), P(f, names[p], so), "the configured value is the one used")
        if "mu_init" in names:
            ctx.same("solver/option/mu_inv", where, s.value(mcell("mu_inv_"), "s"), inv(P(f, names["mu_init"], "s")), "the inverse belongs to the penalty")
        b = s.value(mcell("bcl_params"), "o")
        if b.op == "struct" and len(b.args) >= 6:
            for i, p in enumerate(b.args[1][:4]):
                if p in names:
                    ctx.same("solver/option/bcl/" + p, where, b.args[2 + i], P(f, names[p], "s"), "the configured exponent is the one used")
        man = mk("init", mk("fld", pb, "manifold_"), sort="o")
        ctx.same("solver/prox/weights", where, s.value(mcell("prox_penalty", "weights_"), "m"),
                 mul(P(f, names["rho_init"], "s"), EYE), "the proximal weight is rho times the identity") if "rho_init" in names else None
        t = s.value(mcell("prox_penalty", "residual_"), "o")
        if t.op == "addr":
            ctx.same("solver/prox/target", where, s.value(mk("fld", t.args[0], "target_"), "m"), vcall(Q + "neutral", man, so="m"), "centred at the neutral element")
            ctx.same("solver/prox/space", where, s.value(mk("fld", t.args[0], "space_"), "o"), mk("call", "polymorphic", man, sort="o"), "on the problem's manifold")
    f = method(u, r, "setup", 0)
    s = summary(ctx, u, f)
    pbs = None
    for e in s.events:
        pass
    base = mk("fld", THIS, "problem_")
    pb = Prob(base)
    w, q = made(s, "workspace_", "WorkspaceTpl"), made(s, "results_", "ResultsTpl")
    if w is None or q is None:
        ctx.ob("setup/objects", f.where(), None, "workspace and results are not visibly created")
        return
    g = lambda o, m, so="i": s.value(mk("fld", o, m), so)
    ctx.ob("setup/fresh", f.where(), w is not q, "a fresh workspace and results")
    for m, x in (("ndx", pb.nd), ("numblocks", pb.n), ("numdual", pb.nc), ("nx", pb.nx)):
        ctx.same("setup/workspace/" + m, f.where(), g(w, m), x, "the workspace is that of the solver's problem")
    ctx.same("setup/results/x", f.where(), g(q, "x_opt", "m"), pb.neutral, "the results are those of the solver's problem")
    J = ranged("J", pb.n)
    loc = viewloc(s.value(mk("idx", mk("fld", q, "lams_opt"), J), "o"))
    if loc is not None and loc[1].op == "vseg":
        ctx.same("setup/results/lams", f.where(), loc[1], mk("vseg", pb.ix(J), pb.dim(J)), "laid out like the solver's problem")
    # the factorisation is the configured one
    L = g(w, "ldlt_", "o")
    ch = ini_choice()
    ctx.ob("setup/factorisation", f.where(), True if contains_(L, ch) else None if unknown(L) and not has_choice(L) else False,
           "the factorisation is chosen by the configured option")


def ini_choice():
    return mk("init", mcell("ldlt_choice_"), sort="i")


def contains_(v, t):
    return any(x is t for x in subterms(v))


def has_choice(L):
    return L.op in ("ite", "sized", "with", "objval")
