"""Quasi-Newton approximation: the update is the documented rank-two formula (with its secant
equation), skipped without curvature, and the solver uses exactly the Hessian it was asked for."""
from sa.terms import *
from sa.modlib import *
from sa import solverlib as SL

TITLE = "Hessian approximation"
FLOOR = 10


def sub(a, b):
    return add(a, neg(b))


def run(ctx):
    u = ctx.unit("solver")
    for r in u.recname.get("BFGSStrategy", ()):
        strategy(ctx, u, r)
    solver(ctx, u)


def strategy(ctx, u, r):
    kind = {"0": "hessian", "1": "inverse"}.get(str(r.targs[-1]) if getattr(r, "targs", None) else "", None)
    if kind is None:
        ctx.ob("type", "", None, "unknown kind of approximation")
        return
    key = kind
    for f in ctor(u, r, 0):
        s = summary(ctx, u, f)
        for m in ("is_init", "is_valid"):
            ctx.same("%s/default/%s" % (key, m), f.where(), s.value(mcell(m), "b"), FALSE, "unusable until given a dimension")
    for f in ctor(u, r, 1):
        s = summary(ctx, u, f)
        ctx.same(key + "/ctor/valid", f.where(), s.value(mcell("is_valid"), "b"), TRUE, "usable once given a dimension")
        ctx.same(key + "/ctor/psd", f.where(), s.value(mcell("is_psd"), "b"), TRUE, "reported positive definite until an update says otherwise")
        ctx.same(key + "/ctor/init", f.where(), s.value(mcell("is_init"), "b"), FALSE, "no previous point yet")
    f = method(u, r, "isValid", 0)
    if f is not None:
        s = summary(ctx, u, f)
        ctx.same(key + "/isValid", f.where(), s.ret, M("is_valid", so="b"), "")
    f = method(u, r, "init", 2)
    if f is not None:
        s = summary(ctx, u, f)
        throws_iff(ctx, key + "/init/refuse", f, s, not_(M("is_valid", so="b")), "refused without a dimension")
        v = M("is_valid", so="b")
        for m, so, w in (("x_prev", "m", P(f, 0)), ("g_prev", "m", P(f, 1)), ("is_init", "b", TRUE)):
            ctx.same("%s/init/%s" % (key, m), f.where(), constrain(s.value(mcell(m), so), v), w, "the first point and gradient are recorded")
    f = method(u, r, "update", 3)
    s = summary(ctx, u, f)
    where = f.where()
    x, g, H = P(f, 0), P(f, 1), P(f, 2)
    xp, gp = M("x_prev"), M("g_prev")
    init = M("is_init", so="b")
    valid = M("is_valid", so="b")
    ds, dy = sub(x, xp), sub(g, gp)
    sy = dot(ds, dy)
    got = outp(s, 2)
    a, b = (dy, ds) if kind == "hessian" else (ds, dy)
    V = sub(EYE, mul(mul(a, transpose(b)), inv(sy)))
    want = add(mul(mul(V, H), transpose(V)), mul(mul(a, transpose(a)), inv(sy)))
    pos = and_(init, lt(ZERO, sy))
    # assume symmetry of nothing: the formula itself
    new = constrain(got, pos)
    ctx.same(key + "/update", where, new, want, "V H V' + r r' / s'y with V = I - r q' / s'y")
    ctx.same(key + "/skip", where, constrain(got, and_(init, not_(lt(ZERO, sy)))), H, "no update without positive curvature")
    ctx.same(key + "/first", where, constrain(got, and_(not_(init), valid)), H, "the first call only records the point")
    ctx.under(key + "/psd", where, init, s.value(mcell("is_psd"), "b"), lt(ZERO, sy), "positive definiteness is reported only with positive curvature")
    ctx.under(key + "/first/psd", where, and_(not_(init), valid), s.value(mcell("is_psd"), "b"), M("is_psd", so="b"), "nor does the first call judge the curvature")
    throws_iff(ctx, key + "/refuse", f, s, and_(not_(init), not_(valid)), "refused without a dimension")
    for m, w in (("x_prev", x), ("g_prev", g)):
        ctx.same("%s/memory/%s" % (key, m), where, constrain(s.value(mcell(m), "m"), or_(init, valid)), w, "the point and gradient given are the previous ones of the next call")
    ctx.under(key + "/memory/init", where, or_(init, valid), s.value(mcell("is_init"), "b"), TRUE, "and are used from then on")


def solver(ctx, u):
    r = u.record("ProxNLPSolverTpl")
    f = method(u, r, "setup", 0)
    s = summary(ctx, u, f)
    prob = mk("fld", THIS, "problem_")
    man = mk("init", mk("fld", prob, "manifold_"), sort="o")
    nx, nd = [vcall("ManifoldAbstractTpl::" + n, man, so="i") for n in ("nx", "ndx")]
    ha = M("hess_approx", so="i")
    B = enum_val(u, "BFGS")
    asked = eq(ha, B)
    t, other = FALSE, FALSE            # throws of the factorisation's allocation come before and are not these
    for e in s.events:
        if e.kind == "throw" and not e.caught:
            if mentions(e.pcabs, ha):
                t = or_(t, e.pcabs)
            else:
                other = or_(other, e.pcabs)
    ctx.under("setup/refuse", f.where(), not_(other), t, and_(asked, not_(eq(nx, nd))), "BFGS is refused on manifolds whose points and steps differ in dimension")
    ok = and_(asked, eq(nx, nd))
    for m, w in (("is_valid", TRUE), ("is_init", FALSE)):
        ctx.under("setup/%s" % m, f.where(), ok, s.value(mcell("bfgs_strategy_", m), "b"), w, "setup starts a fresh approximation")
        ctx.under("setup/keep/%s" % m, f.where(), not_(asked), s.value(mcell("bfgs_strategy_", m), "b"), M("bfgs_strategy_", m, so="b"), "the approximation is otherwise left alone")
    ws = s.value(mcell("workspace_"), "o")
    base = next((x.args[0] for x in subterms(ws) if x.op == "addr" and x.args[0].op == "new"), None)
    if base is not None:
        hess = s.value(mk("fld", base, "objective_hessian"), "m")
        if any(x.op == "alias" for x in subterms(hess)):
            hess = None
        direct = s.value(mk("fld", mcell("workspace_"), "objective_hessian"), "m")
        got = hess if hess is not None and mentions(hess, ha) else direct
        ctx.same("setup/identity", f.where(), constrain(got, ok), EYE, "the approximation starts at the identity")
    else:
        ctx.ob("setup/identity", f.where(), None, "no workspace")
    fs = [m for m in r.methods if m.name == "computeProblemDerivatives" and "true" in qt(m.params[-1])]
    for f in fs[:1]:
        s = summary(ctx, u, f, noinline=("update", "computeHessians", "computeDerivatives"),
                    modes={"computeHessians": ["in", "out", "in"], "computeDerivatives": ["in", "out"]})
        calls = [e for e in s.events if e.kind == "call"]
        x = P(f, 0)
        W = cell(f, 1)
        D = [e for e in calls if e.name == "computeDerivatives"]
        H = [e for e in calls if e.name == "computeHessians"]
        U = [e for e in calls if e.name == "update"]
        where = f.where()
        ex = enum_val(u, "EXACT")
        ident = enum_val(u, "IDENTITY")
        if not (D and H and U):
            ctx.ob("select", where, None, "calls not recognised")
            return
        pcd = or_(*[e.pcabs for e in D])
        ctx.under("select/derivatives", where, TRUE, pcd, TRUE, "first derivatives are always computed")
        ctx.under("select/bfgs", where, TRUE, or_(*[e.pcabs for e in U]), eq(ha, B), "the BFGS update is applied exactly when asked for")
        ctx.under("select/hessians", where, TRUE, or_(*[e.pcabs for e in H]), and_(not_(eq(ha, B)), not_(eq(ha, ident))),
                  "second derivatives are computed exactly when exact or Gauss-Newton Hessians are asked for")
        for e in H:
            ctx.same("select/hessians/point", e.where, e.args[0], x, "at the point given")
            if len(e.args) > 2:
                ctx.under("select/hessians/all", e.where, e.pcabs, e.args[2], eq(ha, ex), "those of every constraint exactly for exact Hessians")
        for e in D:
            ctx.same("select/derivatives/point", e.where, e.args[0], x, "at the point given")
        for e in U:
            ctx.same("select/bfgs/point", e.where, e.args[0], x, "BFGS sees the point given")
        # value of the Hessian for the identity
        f_ = f
        s2 = summary(ctx, u, f_, noinline=("update",))
        got = s2.value(mk("fld", W, "objective_hessian"), "m")
        ctx.same("select/identity", where, constrain(got, eq(ha, ident)), EYE, "the identity is used exactly when asked for")
        grad = s2.value(mk("fld", W, "objective_gradient"), "m")
        for e in s2.events:
            if e.kind == "call" and e.name == "update":
                ctx.same("select/bfgs/gradient", e.where, e.args[1], grad, "and the gradient there")


def mentions(t, x):
    return any(y is x for y in subterms(t))


def enum_val(u, name):
    return SL.enum(u, name) or num({"EXACT": 0, "GAUSS_NEWTON": 1, "BFGS": 2, "IDENTITY": 3}[name])
