"""Residual functions: affine map, difference to a target on a manifold, and their composition."""
from sa.terms import *
from sa.modlib import *

TITLE = "Residual functions"
FLOOR = 5
I = mk("bv", "i", sort="i")


def run(ctx):
    u = ctx.unit("functions")
    r = u.record("LinearFunctionTpl")
    A, b = M("mat"), M("b")
    f = method(u, r, "operator()", 1)
    s = summary(ctx, u, f)
    ctx.same("linear/value", f.where(), s.ret, add(mul(A, P(f, 0)), b), "A x + b")
    f = method(u, r, "computeJacobian", 2)
    s = summary(ctx, u, f)
    ctx.same("linear/jacobian", f.where(), outp(s, 1), A, "A")
    for n in (1, 2):
        for f in ctor(u, r, n):
            if "LinearFunctionTpl" in qt(f.params[0]):
                continue
            s = summary(ctx, u, f)
            k = "linear%d" % n
            linear_built(ctx, k, f, s, THIS, P(f, 0), P(f, 1) if n == 2 else None)
            nullary(ctx, k + "/vector/size", f, s, (rows(P(f, 0)),), "one entry per row")
    r = u.record("ManifoldDifferenceToPoint")
    SP, T = M("space_", so="o"), M("target_")
    f = method(u, r, "operator()", 1)
    s = summary(ctx, u, f)
    ctx.same("difference/value", f.where(), s.ret, vout(2, "ManifoldAbstractTpl::difference_impl", SP, T, P(f, 0)), "the tangent vector from the target to the point")
    f = method(u, r, "computeJacobian", 2)
    s = summary(ctx, u, f)
    got = outp(s, 1)
    want = mk("out", 2, mk("call", "ManifoldAbstractTpl::Jdifference_impl", SP, T, P(f, 0), P(f, 1), ONE, sort="o"), sort="m")
    ctx.same("difference/jacobian", f.where(), got, want, "derivative of that vector with respect to the point")
    for f in ctor(u, r, 2):
        s = summary(ctx, u, f)
        diff_built(ctx, "difference", f, s, THIS, 0, 1, True)
    r = u.record("LinearFunctionDifferenceToPoint")
    for f in ctor(u, r, 4):
        s = summary(ctx, u, f)
        l, rr = outm(s, "left_", so="o"), outm(s, "right_", so="o")
        if l is None or rr is None or l.op != "addr" or rr.op != "addr":
            ctx.ob("affine-difference", f.where(), None, "outer and inner function")
            continue
        linear_built(ctx, "affine-difference/outer", f, s, l.args[0], P(f, 2), P(f, 3))
        diff_built(ctx, "affine-difference/inner", f, s, rr.args[0], 0, 1, False)
        sp = mk("init", cell(f, 0), sort="o")
        ctx.same("affine-difference/nx", f.where(), outm(s, "nx_", so="i"), vcall("ManifoldAbstractTpl::nx", sp, so="i"), "inputs: points of the space")
        ctx.same("affine-difference/ndx", f.where(), outm(s, "ndx_", so="i"), vcall("ManifoldAbstractTpl::ndx", sp, so="i"), "inputs: points of the space")
        ctx.same("affine-difference/nr", f.where(), outm(s, "nr_", so="i"), rows(P(f, 2)), "outputs: rows of the matrix")
        t = throws(s)
        bad = ne(size(P(f, 1)), vcall("ManifoldAbstractTpl::nx", sp, so="i"))
        ctx.ob("affine-difference/target-size", f.where(), (True if constrain(t, bad) is TRUE else None if unsure(constrain(t, bad)) else False), "a target of the wrong size is refused")
        bad = ne(cols(P(f, 2)), vcall("ManifoldAbstractTpl::ndx", sp, so="i"))
        ctx.ob("affine-difference/matrix-size", f.where(), (True if constrain(t, bad) is TRUE else None if unsure(constrain(t, bad)) else False), "a matrix that does not fit the tangent space is refused")


def unsure(t):
    return any(x.op in ("opaque", "clob", "xcall") for x in subterms(t))


def linear_built(ctx, k, f, s, base, A, b):
    g = lambda n, so="m": s.value(mk("fld", base, n), so)
    ctx.same(k + "/matrix", f.where(), g("mat"), A, "matrix kept")
    if b is not None:
        ctx.same(k + "/vector", f.where(), g("b"), b, "vector kept")
    else:
        ctx.same(k + "/vector", f.where(), elt(g("b"), I), ZERO, "zero by default")
    for n, w in (("nx_", cols(A)), ("ndx_", cols(A)), ("nr_", rows(A))):
        ctx.same("%s/%s" % (k, n), f.where(), g(n, "i"), w, "dimensions of the matrix")


def diff_built(ctx, k, f, s, base, si, ti, thr):
    g = lambda n, so="m": s.value(mk("fld", base, n), so)
    sp = mk("init", cell(f, si), sort="o")
    ctx.same(k + "/target", f.where(), g("target_"), P(f, ti), "target kept")
    v = g("space_", "o")
    while v is not None and v.op == "call" and v.args[0] == "polymorphic":
        v = v.args[1]
    ctx.same(k + "/space", f.where(), v, sp, "space kept")
    nx, nd = [vcall("ManifoldAbstractTpl::" + n, sp, so="i") for n in ("nx", "ndx")]
    for n, w in (("nx_", nx), ("ndx_", nd), ("nr_", nd)):
        ctx.same("%s/%s" % (k, n), f.where(), g(n, "i"), w, "dimensions of the space")
    if thr:
        want = not_(vcall("ManifoldAbstractTpl::isNormalized", sp, P(f, ti), so="b"))
        throws_iff(ctx, k + "/throws", f, s, want, "refused exactly when the target is not an element of the space")
