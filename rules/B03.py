"""Sums and multiples of cost functions, and the adapters between costs and functions: what an
expression of costs evaluates to is the sum of the weighted terms, for values, gradients, Hessians."""
from sa.terms import *
from sa.modlib import *

TITLE = "Cost algebra"
FLOOR = 15
CF = "CostFunctionBaseTpl"
COMP, W = mcell("components_"), mcell("weights_")
NC = size(mk("init", COMP, sort="o"))
K = mk("bv", "k", sort="i")
I = mk("bv", "i", sort="i")
DIMS = ("nx_", "ndx_")


def inv_dims(c):
    """a sum has as many weights as terms (asserted by its constructor)"""
    if c.op == "fld" and c.args[1] == "weights_":
        return size(mk("init", mk("fld", c.args[0], "components_"), sort="o")), ONE
    return None


def summ(ctx, u, f):
    return summary(ctx, u, f, dims=inv_dims)


def w_(k): return mk("init", mk("idx", W, k), sort="s")
def c_(k): return mk("init", mk("idx", COMP, k), sort="o")


def el(s, base, fld, i, so):
    return s.value(mk("idx", mk("fld", base, fld), i), so)


def count(s, base, fld):
    return s.interp.container_size(s.final, mk("fld", base, fld))


def weights(ctx, key, f, s, base, terms, what):
    """the sum at `base` is made of exactly these (weight, cost) pairs"""
    n = num(len(terms))
    for fld in ("components_", "weights_"):
        ctx.same("%s/size:%s" % (key, fld), f.where(), count(s, base, fld), n, what + ": number of terms")
    for i, (w, c) in enumerate(terms):
        ctx.same("%s/weight%d" % (key, i), f.where(), el(s, base, "weights_", num(i), "s"), w, what)
        ctx.same("%s/term%d" % (key, i), f.where(), el(s, base, "components_", num(i), "o"), c, what)


def fresh(ctx, key, f, s, what):
    """location of the newly made object returned"""
    r = s.ret
    if r is not None and r.op == "addr" and root(r.args[0]).op == "new":
        return r.args[0]
    ctx.ob(key, f.where(), False if r is not None and r.op == "addr" else None, "%s: the result is not a new object (%s)" % (what, show(r, 4) if r is not None else "?"))
    return None


def pv(f, i, so="o"):
    return mk("init", cell(f, i), sort=so)


def dims(ctx, key, f, s, base, src):
    for d in DIMS:
        ctx.same("%s/%s" % (key, d), f.where(), s.value(mk("fld", base, d), "i"), mk("init", mk("fld", src, d), sort="i"), "dimensions of the result")
    ctx.same("%s/nr" % key, f.where(), s.value(mk("fld", base, "nr_"), "i"), ONE, "a cost has one output")


def run(ctx):
    u = ctx.unit("functions")
    sums(ctx, u)
    builders(ctx, u)
    adapters(ctx, u)


def sums(ctx, u):
    r = u.record("CostSumTpl")
    f = method(u, r, "call", 1)
    s = summ(ctx, u, f)
    ctx.same("sum/value", f.where(), s.ret, psum(K, NC, mul(w_(K), vcall(CF + "::call", c_(K), P(f, 0), so="s"))), "value of a sum")
    for name, so in (("computeGradient", "m"), ("computeHessian", "m")):
        f = method(u, r, name, 2)
        s = summ(ctx, u, f)
        want = psum(K, NC, mul(w_(K), vout(1, CF + "::" + name, c_(K), P(f, 0))))
        ctx.same("sum/" + name, f.where(), outp(s, 1), want, "derivative of a sum")
    # constructors keep what they are given
    for f in ctor(u, r, 4):
        s = summ(ctx, u, f)
        ctx.same("ctor/components", f.where(), outm(s, "components_", so="o"), pv(f, 2), "terms kept")
        ctx.same("ctor/weights", f.where(), outm(s, "weights_", so="o"), pv(f, 3), "weights kept")
    for n in (2, 4):
        for f in ctor(u, r, n):
            s = summ(ctx, u, f)
            for i, d in enumerate(DIMS):
                ctx.same("ctor%d/%s" % (n, d), f.where(), outm(s, d, so="i"), pv(f, i, "i"), "dimensions kept")
            if n == 2:
                ctx.same("ctor/empty", f.where(), count(s, THIS, "components_"), ZERO, "an empty sum")
                ctx.same("ctor/empty-weights", f.where(), count(s, THIS, "weights_"), ZERO, "an empty sum")
    # appending
    for f in [g for g in u.find("CostSumTpl", "addComponent")]:
        appended(ctx, u, f, "add", pv(f, 1, "s"))
    for f in u.find("CostSumTpl", "operator+="):
        if "CostSumTpl" in qt(f.params[0]):
            s = summ(ctx, u, f)
            o = cell(f, 0)
            for fld, so in (("components_", "o"), ("weights_", "s")):
                n1 = size(mk("init", mcell(fld), sort="o"))
                n2 = size(mk("init", mk("fld", o, fld), sort="o"))
                ctx.same("append-sum/size:" + fld, f.where(), count(s, THIS, fld), add(n1, n2), "terms of both")
                got = el(s, THIS, fld, I, so)
                inr = and_(not_(lt(I, ZERO)), lt(I, add(n1, n2)))
                want = ite(lt(I, n1), mk("init", mk("idx", mcell(fld), I), sort=so), mk("init", mk("idx", mk("fld", o, fld), add(I, neg(n1))), sort=so))
                ctx.same("append-sum/" + fld, f.where(), constrain(got, inr), constrain(want, inr), "terms of both, with their weights")
            ctx.same("append-sum/self", f.where(), s.ret, mk("addr", THIS), "returns the sum itself")
        else:
            appended(ctx, u, f, "append", ONE)
    for f in u.find("CostSumTpl", "operator*="):
        s = summ(ctx, u, f)
        n = size(mk("init", W, sort="o"))
        inr = and_(not_(lt(I, ZERO)), lt(I, n))
        ctx.same("scale", f.where(), constrain(el(s, THIS, "weights_", I, "s"), inr), mul(pv(f, 0, "s"), w_(I)), "every weight is scaled")
        ctx.same("scale/size", f.where(), count(s, THIS, "weights_"), n, "no weight added or dropped")
        ctx.same("scale/terms", f.where(), outm(s, "components_", so="o"), M("components_", so="o"), "same terms")
        ctx.same("scale/self", f.where(), s.ret, mk("addr", THIS), "returns the sum itself")


def appended(ctx, u, f, key, w):
    s = summ(ctx, u, f)
    for fld, so, x in (("components_", "o", pv(f, 0)), ("weights_", "s", w)):
        n = size(mk("init", mcell(fld), sort="o"))
        ctx.same("%s/size:%s" % (key, fld), f.where(), count(s, THIS, fld), add(n, ONE), "one more term")
        inr = and_(not_(lt(I, ZERO)), lt(I, n))
        ctx.same("%s/last:%s" % (key, fld), f.where(), el(s, THIS, fld, n, so), x, "the new term comes last")
        ctx.same("%s/kept:%s" % (key, fld), f.where(), constrain(el(s, THIS, fld, I, so), inr), mk("init", mk("idx", mcell(fld), I), sort=so), "earlier terms kept")


def builders(ctx, u):
    def use(nm):
        fs = [g for g in u.byname.get(nm, ()) if g.body is not None]
        if not fs:
            ctx.ob(nm, "", None, "missing")
            return None, None
        return fs[0], summ(ctx, u, fs[0])
    for nm, ai, fac in (("use_scale", 0, lambda f: pv(f, 1, "s")), ("use_scale_left", 1, lambda f: pv(f, 0, "s")), ("use_neg", 0, lambda f: num(-1))):
        f, s = use(nm)
        if f is None:
            continue
        a = cell(f, ai)
        b = fresh(ctx, nm, f, s, "scaling a sum")
        unchanged(ctx, nm + "/operand", f, s, {a}, "scaling makes a new sum and leaves its operand alone")
        if b is None:
            continue
        n = size(mk("init", mk("fld", a, "weights_"), sort="o"))
        inr = and_(not_(lt(I, ZERO)), lt(I, n))
        ctx.same(nm + "/weights", f.where(), constrain(el(s, b, "weights_", I, "s"), inr), mul(fac(f), mk("init", mk("idx", mk("fld", a, "weights_"), I), sort="s")), "every weight is scaled")
        ctx.same(nm + "/size", f.where(), count(s, b, "weights_"), n, "same number of weights")
        ctx.same(nm + "/terms", f.where(), el(s, b, "components_", I, "o"), mk("init", mk("idx", mk("fld", a, "components_"), I), sort="o"), "same terms")
        ctx.same(nm + "/count", f.where(), count(s, b, "components_"), size(mk("init", mk("fld", a, "components_"), sort="o")), "same number of terms")
        for d in DIMS:
            ctx.same("%s/%s" % (nm, d), f.where(), s.value(mk("fld", b, d), "i"), mk("init", mk("fld", a, d), sort="i"), "dimensions of the result")
    f, s = use("use_add")
    if f is not None:
        b = fresh(ctx, "use_add", f, s, "the sum of two costs")
        if b is not None:
            weights(ctx, "use_add", f, s, b, [(ONE, pv(f, 0)), (ONE, pv(f, 1))], "the sum of two costs")
            dims(ctx, "use_add", f, s, b, cell(f, 0))
    f, s = use("use_scale_cost")
    if f is not None:
        b = fresh(ctx, "use_scale_cost", f, s, "a multiple of a cost")
        if b is not None:
            weights(ctx, "use_scale_cost", f, s, b, [(pv(f, 0, "s"), pv(f, 1))], "a multiple of a cost")
            dims(ctx, "use_scale_cost", f, s, b, cell(f, 1))
    f, s = use("use_add_move")
    if f is not None:
        a = cell(f, 0)
        for fld, so, x in (("components_", "o", pv(f, 1)), ("weights_", "s", ONE)):
            l = mk("fld", a, fld)
            n = size(mk("init", l, sort="o"))
            ctx.same("use_add_move/size:" + fld, f.where(), count(s, a, fld), add(n, ONE), "one more term")
            ctx.same("use_add_move/last:" + fld, f.where(), el(s, a, fld, n, so), x, "the new term comes last")
        ctx.same("use_add_move/ret", f.where(), s.ret, mk("addr", a), "returns the sum it was given")
    f, s = use("use_downcast")
    if f is not None:
        fn = cell(f, 0)
        throws_iff(ctx, "downcast/throws", f, s, ne(mk("init", mk("fld", fn, "nr_"), sort="i"), ONE), "refused exactly when the function has not one output")
        b = fresh(ctx, "downcast", f, s, "the cost made from a function")
        if b is not None:
            ctx.same("downcast/function", f.where(), s.value(mk("fld", b, "underlying_"), "o"), pv(f, 0), "wraps the function given")
            dims(ctx, "downcast", f, s, b, fn)


def adapters(ctx, u):
    r = u.record(CF)
    x = lambda f: P(f, 0)
    f = method(u, r, "operator()", 1)
    s = summary(ctx, u, f)
    ctx.same("as-function/value", f.where(), elt(s.ret, ZERO), vcall(CF + "::call", SELF, x(f), so="s"), "the one output of a cost is its value")
    ctx.same("as-function/size", f.where(), size(s.ret), ONE, "one output")
    f = method(u, r, "computeJacobian", 2)
    g = vout(1, CF + "::computeGradient", SELF, P(f, 0))
    s = summary(ctx, u, f, dims=lambda c: (ONE, M("ndx_", so="i")) if c is cell(f, 1) else None)
    C = mk("bv", "c", sort="i")
    ctx.same("as-function/jacobian", f.where(), elt(outp(s, 1), ZERO, C), elt(g, C, ZERO), "the Jacobian's row is the gradient")
    f = method(u, r, "vectorHessianProduct", 3)
    s = summary(ctx, u, f)
    ctx.same("as-function/vhp", f.where(), outp(s, 2), mul(elt(P(f, 1), ZERO), vout(1, CF + "::computeHessian", SELF, P(f, 0))), "Hessian scaled by the vector's entry")
    for name in ("computeGradient", "computeHessian"):
        f = method(u, r, name, 1)
        s = summary(ctx, u, f)
        ctx.same("allocating/" + name, f.where(), s.ret, vout(1, CF + "::" + name, SELF, P(f, 0)), "same as the version with an output argument")
        nd = M("ndx_", so="i")
        allocates(ctx, "allocating/%s/dims" % name, f, s, 1, (nd,) if name == "computeGradient" else (nd, nd), "one entry per tangent direction")
    f = method(u, u.record("C1FunctionTpl"), "computeJacobian", 1)
    s = summary(ctx, u, f)
    ctx.same("allocating/computeJacobian", f.where(), s.ret, vout(1, "C1FunctionTpl::computeJacobian", SELF, P(f, 0)), "same as the version with an output argument")
    allocates(ctx, "allocating/computeJacobian/dims", f, s, 1, (M("nr_", so="i"), M("ndx_", so="i")), "outputs by tangent directions")
    r = u.record("func_to_cost")
    UN = M("underlying_", so="o")
    f = method(u, r, "call", 1)
    s = summary(ctx, u, f)
    ctx.same("from-function/value", f.where(), s.ret, elt(vcall("BaseFunctionTpl::operator()", UN, P(f, 0), so="m"), ZERO), "the function's one output")
    f = method(u, r, "computeGradient", 2)
    s = summary(ctx, u, f)
    J = vout(1, "C1FunctionTpl::computeJacobian", UN, P(f, 0))
    ctx.same("from-function/gradient", f.where(), elt(outp(s, 1), C, ZERO), elt(J, ZERO, C), "the transposed Jacobian")
    f = method(u, r, "computeHessian", 2)
    s = summary(ctx, u, f)
    out = outp(s, 1)
    ok = None
    if out.op == "out" and out.args[0] == 2 and out.args[1].args[0] == "C2FunctionTpl::vectorHessianProduct":
        a = out.args[1].args
        ok = a[1] is UN and a[2] is P(f, 0) and elt(a[3], ZERO) is ONE
    elif out.op == "out":
        ok = False
    for e in s.events:
        if e.kind == "dims":
            ctx.ob("from-function/hessian/dims", f.where(), True if all(x is ONE for x in e.args) else None if contains_op(e.args[0], "opaque", "xcall") else False, "the vector along which the Hessian is taken has one entry")
    ctx.ob("from-function/hessian", f.where(), ok, "the vector-Hessian product of the function along 1: %s" % show(out, 6)[:300])
    for f in ctor(u, r, 1):
        s = summary(ctx, u, f)
        dims(ctx, "from-function/dims", f, s, THIS, cell(f, 0))
        ctx.same("from-function/kept", f.where(), outm(s, "underlying_", so="o"), pv(f, 0), "wraps the function given")
