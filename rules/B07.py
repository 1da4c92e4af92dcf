"""Finite-difference derivatives: column i is the central difference along the i-th tangent direction."""
from sa.terms import *
from sa.modlib import *

TITLE = "Finite differences"
FLOOR = 4
OP, JAC = "BaseFunctionTpl::operator()", "C1FunctionTpl::computeJacobian"
INT = "ManifoldAbstractTpl::integrate_impl"


def run(ctx):
    u = ctx.unit("functions")
    for r in u.recname["finite_difference_wrapper"]:
        lvl = "TOC2" if r.targs[-1] == "1" else "TOC1"
        FN, SP, H = M("func", so="o"), M("space", so="o"), M("fd_eps", so="s")
        ND = mk("init", mk("fld", mcell("func"), "ndx_"), sort="i")
        J = ranged("j", ND)
        inr = and_(not_(lt(J, ZERO)), lt(J, ND))
        f = method(u, r, "operator()", 1)
        s = summary(ctx, u, f)
        ctx.same(lvl + "/value", f.where(), s.ret, vcall(OP, FN, P(f, 0), so="m"), "the function's own value")
        f = method(u, r, "computeJacobian", 2)
        s = summary(ctx, u, f)
        x = P(f, 0)
        if lvl == "TOC2":
            ctx.same(lvl + "/jacobian", f.where(), outp(s, 1), vout(1, JAC, FN, x), "the function's own Jacobian")
        else:
            p, m = points(SP, x, J, H)
            want = mul(mul(HALF, inv(H)), add(vcall(OP, FN, p, so="m"), neg(vcall(OP, FN, m, so="m"))))
            nr = rows(P(f, 1))
            ctx.same(lvl + "/jacobian", f.where(), constrain(blk(outp(s, 1), ZERO, J, nr, ONE), inr), want, "central difference of the values")
        g = method(u, r, "vectorHessianProduct", 3)
        if lvl == "TOC2":
            s = summary(ctx, u, g)
            x, v = P(g, 0), P(g, 1)
            p, m = points(SP, x, J, H)
            want = mul(mul(HALF, inv(H)), mul(transpose(add(vout(1, JAC, FN, p), neg(vout(1, JAC, FN, m)))), v))
            ctx.same(lvl + "/vhp", g.where(), constrain(blk(outp(s, 2), ZERO, J, rows(P(g, 2)), ONE), inr), want, "central difference of the Jacobians, applied to the vector")
        for f in ctor(u, r, 3):
            s = summary(ctx, u, f)
            ctx.same(lvl + "/step", f.where(), outm(s, "fd_eps", so="s"), P(f, 2, "s"), "step kept")
            for n, i in (("space", 0), ("func", 1)):
                v = outm(s, n, so="o")
                ctx.same("%s/%s" % (lvl, n), f.where(), v, mk("addr", cell(f, i)), "refers to what it is given")
            sp = mk("init", cell(f, 0), sort="o")
            for n, w in (("nx_", vcall("ManifoldAbstractTpl::nx", sp, so="i")), ("ndx_", vcall("ManifoldAbstractTpl::ndx", sp, so="i")),
                         ("nr_", mk("init", mk("fld", cell(f, 1), "nr_"), sort="i"))):
                ctx.same("%s/%s" % (lvl, n), f.where(), outm(s, n, so="i"), w, "dimensions")


def points(SP, x, j, h):
    e = upd(ZERO, mk("velt", j), h)
    return vout(2, INT, SP, x, e), vout(2, INT, SP, x, neg(e))
