"""Composition of functions: value of the left function at the value of the right one, Jacobian by the
chain rule, dimensions of the outer and the inner one, refused when they do not fit."""
from sa.terms import *
from sa.modlib import *

TITLE = "Function composition"
FLOOR = 4
OP = "BaseFunctionTpl::operator()"


def run(ctx):
    u = ctx.unit("functions")
    r = u.record("ComposeFunctionTpl")
    L, R = M("left_", so="o"), M("right_", so="o")
    f = method(u, r, "operator()", 1)
    s = summary(ctx, u, f)
    x = P(f, 0)
    ctx.same("value", f.where(), s.ret, vcall(OP, L, vcall(OP, R, x, so="m"), so="m"), "left of right of x")
    f = method(u, r, "computeJacobian", 2)
    s = summary(ctx, u, f)
    x = P(f, 0)
    J = "C1FunctionTpl::computeJacobian"
    want = mul(vout(1, J, L, vcall(OP, R, x, so="m")), vout(1, J, R, x))
    ctx.same("jacobian", f.where(), outp(s, 1), want, "chain rule, the left Jacobian at the right value")
    for f in ctor(u, r, 2):
        s = summary(ctx, u, f)
        l, rr = cell(f, 0), cell(f, 1)
        built(ctx, "ctor", f, s, THIS, l, rr)
    for f in u.byname.get("use_compose", ()):
        s = summary(ctx, u, f)
        b = s.ret.args[0] if s.ret is not None and s.ret.op == "addr" and root(s.ret.args[0]).op == "new" else None
        if b is None:
            ctx.ob("compose/new", f.where(), None, "a new object")
            continue
        built(ctx, "compose", f, s, b, cell(f, 0), cell(f, 1))
    # what a function that has no Hessian information reports
    f = method(u, u.record("C2FunctionTpl"), "vectorHessianProduct", 3)
    s = summary(ctx, u, f)
    ctx.same("default-vhp", f.where(), outp(s, 2), mul(ZERO, ONES), "zero unless overridden")
    f = method(u, u.record("C1FunctionTpl"), "computeJacobian", 1)
    s = summary(ctx, u, f)
    g = lambda n: M(n, so="i")
    ctx.same("allocated-jacobian", f.where(), s.ret, vout(1, J, SELF, P(f, 0)), "the function's own Jacobian")
    allocates(ctx, "allocated-jacobian/dims", f, s, 1, (g("nr_"), g("ndx_")), "outputs by tangent directions")
    for n, so in (("C2FunctionTpl", 3), ("C1FunctionTpl", 3), ("BaseFunctionTpl", 3), ("C2FunctionTpl", 2), ("C1FunctionTpl", 2), ("BaseFunctionTpl", 2)):
        for f in ctor(u, u.record(n), so):
            s = summary(ctx, u, f)
            if so == 3:
                want = [mk("init", cell(f, i), sort="i") for i in range(3)]
            else:
                m = mk("init", cell(f, 0), sort="o")
                want = [vcall("ManifoldAbstractTpl::nx", m, so="i"), vcall("ManifoldAbstractTpl::ndx", m, so="i"), mk("init", cell(f, 1), sort="i")]
            for d, w in zip(("nx_", "ndx_", "nr_"), want):
                ctx.same("%s%d/%s" % (n, so, d), f.where(), outm(s, d, so="i"), w, "dimensions of a function")


def built(ctx, key, f, s, base, l, r):
    g = lambda c, n: mk("init", mk("fld", c, n), sort="i")
    pre = throws(s)
    for d, w in (("nx_", g(r, "nx_")), ("ndx_", g(r, "ndx_")), ("nr_", g(l, "nr_"))):
        ctx.same("%s/%s" % (key, d), f.where(), s.value(mk("fld", base, d), "i"), w, "inputs of the right function, outputs of the left one")
    ctx.same(key + "/left", f.where(), s.value(mk("fld", base, "left_"), "o"), mk("init", l, sort="o"), "left function")
    ctx.same(key + "/right", f.where(), s.value(mk("fld", base, "right_"), "o"), mk("init", r, sort="o"), "right function")
    throws_iff(ctx, key + "/throws", f, s, ne(g(l, "nx_"), g(r, "nr_")), "refused exactly when the left inputs are not the right outputs")
