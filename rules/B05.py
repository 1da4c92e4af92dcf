"""Quadratic costs of a residual: value, gradient and Hessian formulas at the point given, whatever was
evaluated before; defaults and target handling of the quadratic distance."""
from sa.terms import *
from sa.modlib import *

TITLE = "Quadratic residual costs"
FLOOR = 8
OP, JAC, VHP = "BaseFunctionTpl::operator()", "C1FunctionTpl::computeJacobian", "C2FunctionTpl::vectorHessianProduct"
CLS = "QuadraticResidualCostTpl"


def run(ctx):
    u = ctx.unit("functions")
    r = u.record(CLS)
    RES, W, S, C = M("residual_", so="o"), M("weights_"), M("slope_"), M("constant_", so="s")
    GN = mk("init", mcell("gauss_newton_"), sort="b")

    def e(x): return vcall(OP, RES, x, so="m")
    def J(x): return vout(1, JAC, RES, x)
    f = method(u, r, "call", 1)
    s = summary(ctx, u, f)
    x = P(f, 0)
    want = add(add(mul(HALF, dot(e(x), mul(W, e(x)))), dot(e(x), S)), C)
    ctx.same("value", f.where(), s.ret, want, "half the weighted square, plus slope, plus constant")
    f = method(u, r, "computeGradient", 2)
    s = summary(ctx, u, f)
    x = P(f, 0)
    want = add(mul(transpose(J(x)), mul(W, e(x))), mul(transpose(J(x)), S))
    ctx.same("gradient", f.where(), outp(s, 1), want, "gradient at the point given")
    f = method(u, r, "computeHessian", 2)
    s = summary(ctx, u, f)
    x = P(f, 0)
    gn = mul(transpose(J(x)), mul(W, J(x)))
    ctx.same("hessian/gauss-newton", f.where(), constrain(outp(s, 1), GN), gn, "Gauss-Newton Hessian at the point given")
    full = add(gn, vout(2, VHP, RES, x, add(mul(W, e(x)), S)))
    ctx.same("hessian/exact", f.where(), constrain(outp(s, 1), not_(GN)), full, "Hessian with the residual's curvature at the point given")
    # a value does not depend on what was evaluated before: no mutable member is read before it is written
    for name, n in (("call", 1), ("computeGradient", 2), ("computeHessian", 2)):
        f = method(u, r, name, n)
        s = summary(ctx, u, f)
        v = s.ret if name == "call" else outp(s, 1)
        used = {t.args[0].args[1] for t in subterms(v) if t.op == "init" and t.args[0].op == "fld" and t.args[0].args[0] is THIS}
        mut = {fd.get("name") for fd in r.fields if fd.get("mutable")}
        bad = sorted(used & mut)
        ctx.ob("fresh/" + name, f.where(), not bad, "the result depends on %s left by an earlier evaluation" % ", ".join(bad))
    # construction
    for n in (4, 3):
        for f in ctor(u, r, n):
            if "QuadraticResidualCostTpl" in qt(f.params[0]):
                continue
            s = summary(ctx, u, f)
            q = mk("init", cell(f, 0), sort="o")
            k = "ctor%d" % n
            ctx.same(k + "/residual", f.where(), outm(s, "residual_", so="o"), q, "residual kept")
            ctx.same(k + "/weights", f.where(), outm(s, "weights_"), P(f, 1), "weights kept")
            if n == 4:
                ctx.same(k + "/slope", f.where(), outm(s, "slope_"), P(f, 2), "slope kept")
            else:
                ctx.same(k + "/slope", f.where(), elt(outm(s, "slope_"), I), ZERO, "no slope by default")
                nullary(ctx, k + "/slope/size", f, s, (mk("init", mk("fld", cell(f, 0), "nr_"), sort="i"),), "one slope entry per residual entry", ("Zero",))
            ctx.same(k + "/constant", f.where(), outm(s, "constant_", so="s"), P(f, n - 1, "s"), "constant kept")
            for d in ("nx_", "ndx_"):
                ctx.same("%s/%s" % (k, d), f.where(), outm(s, d, so="i"), mk("init", mk("fld", cell(f, 0), d), sort="i"), "inputs of the residual")
            ctx.same(k + "/gauss-newton", f.where(), outm(s, "gauss_newton_", so="b"), TRUE, "Gauss-Newton unless asked otherwise")
    distance(ctx, u)


I = mk("bv", "i", sort="i")


def distance(ctx, u):
    r = u.record("QuadraticDistanceCostTpl")
    for n in (1, 2, 3):
        for f in ctor(u, r, n):
            if "QuadraticDistanceCostTpl" in qt(f.params[0]):
                continue
            s = summary(ctx, u, f)
            k = "distance%d" % n
            sp = mk("init", cell(f, 0), sort="o")
            target = P(f, 1) if n >= 2 else vcall("ManifoldAbstractTpl::neutral", sp, so="m")
            w = P(f, 2) if n == 3 else EYE
            res = outm(s, "residual_", so="o")
            if res is None or res.op != "addr":
                ctx.ob(k, f.where(), None, "residual object")
                continue
            b = res.args[0]
            ctx.same(k + "/target", f.where(), s.value(mk("fld", b, "target_")), target, "distance to the target (the neutral element by default)")
            ctx.same(k + "/space", f.where(), deref_poly(s.value(mk("fld", b, "space_"), "o")), sp, "on the space given")
            ctx.same(k + "/weights", f.where(), outm(s, "weights_"), w, "weights (identity by default)")
            ctx.same(k + "/slope", f.where(), elt(outm(s, "slope_"), I), ZERO, "no slope")
            nd = vcall("ManifoldAbstractTpl::ndx", sp, so="i")
            nullary(ctx, k + "/weights/size", f, s, (nd, nd), "one weight per tangent direction", ("Identity",))
            nullary(ctx, k + "/slope/size", f, s, (nd,), "one slope entry per tangent direction", ("Zero",))
            ctx.same(k + "/constant", f.where(), outm(s, "constant_", so="s"), ZERO, "no constant")
    f = u.find("QuadraticDistanceCostTpl", "updateTarget")[0]
    s = summary(ctx, u, f)
    tgt = mk("fld", mcell("residual_"), "target_")
    ctx.same("target/update", f.where(), s.value(tgt), P(f, 0), "the residual measures from the new target")
    f = u.find("QuadraticDistanceCostTpl", "getTarget")[0]
    s = summary(ctx, u, f)
    v = s.ret
    if v is not None and v.op == "addr":
        v = s.value(v.args[0])
    ctx.same("target/get", f.where(), v, mk("init", tgt, sort="m"), "the residual's target")


def deref_poly(v):
    while v is not None and v.op == "call" and v.args[0] == "polymorphic":
        v = v.args[1]
    return v
