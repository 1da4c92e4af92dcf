"""Each constraint set: projection, normal-cone projection, active set, Jacobian application, value
and Moreau envelope computed by the code are the documented operators of that set, element by element."""
from sa.terms import *
from sa.modlib import *

TITLE = "Constraint set operators"
FLOOR = 12
N, MC = mk("init", mk("n"), sort="i"), mk("init", mk("m"), sort="i")
K = ranged("k", N)
J = mk("bv", "j", sort="i")
VECS, MATS = {"z", "zout"}, {"Jout"}
RANGE = and_(not_(lt(K, ZERO)), lt(K, N), not_(lt(J, ZERO)), lt(J, MC))


def dims_of(f):
    d = {}
    for i in range(len(f.params)):
        t = qt(f.params[i])
        if "MatrixRef" in t or "-1, -1" in t or t.count("Dynamic") > 1:
            d[cell(f, i)] = (N, MC)
        elif "Vector" in t or "Matrix" in t or "Ref" in t:
            d[cell(f, i)] = (N, ONE)
    return lambda c: d.get(c) or ((N, ONE) if c.op == "fld" and c.args[1] in ("upper_limit", "lower_limit") else None)


def at(v, *ix):
    return None if v is None else constrain(elt(v, *ix) if v.sort == "m" else v, RANGE)


def sgn(z): return ite(lt(ZERO, z), ONE, ite(lt(z, ZERO), num(-1), ZERO))


# what the documentation says about element k:  (projection, active, premise)
def spec(cls, z):
    lo, hi = elt(M("lower_limit"), K), elt(M("upper_limit"), K)
    mu = M("mu_", so="s")
    if cls == "EqualityConstraintTpl":
        return ZERO, TRUE, TRUE
    if cls == "NegativeOrthantTpl":
        return maxmin("min", [z, ZERO]), lt(ZERO, z), TRUE
    if cls == "BoxConstraintTpl":
        return ite(lt(z, lo), lo, ite(lt(hi, z), hi, z)), or_(lt(hi, z), lt(z, lo)), not_(lt(hi, lo))
    if cls == "NonsmoothPenaltyL1Tpl":
        return (ite(lt(mu, z), z - mu, ite(lt(z, neg(mu)), z + mu, ZERO)),
                not_(or_(lt(mu, z), lt(z, neg(mu)))), not_(lt(mu, ZERO)))
    return None, None, TRUE


def run(ctx):
    u = ctx.unit("functions")
    for r in records(u, "ConstraintSetTpl"):
        if r.name == "ConstraintSetProductTpl":
            continue            # B02
        one(ctx, u, r)
    base(ctx, u)


def go(ctx, u, r, name):
    f = method(u, r, name)
    if f is None:
        return None, None
    # the class's own operators (no set derives from another)
    own = {"%s::%s" % (r.name, m) for m in ("projection", "normalConeProjection", "computeActiveSet") if method(u, r, m) is not None}
    return f, summary(ctx, u, f, dims=dims_of(f), inline_virtual=own if name in ("projection", "normalConeProjection", "computeActiveSet") else ())


def one(ctx, u, r):
    n = r.name
    f, s = go(ctx, u, r, "projection")
    g, t = go(ctx, u, r, "normalConeProjection")
    h, a = go(ctx, u, r, "computeActiveSet")
    if f is None or g is None or h is None:
        ctx.ob(n, r.file, None, "operator missing")
        return
    z = elt(P(f, 0), K)
    ren = {P(x, 0): P(f, 0) for x in (g, h)}
    p, q = at(outp(s, 1), K), at(subst(outp(t, 1), ren), K)
    act = as_bool(at(subst(outp(a, 1), ren), K))
    wp, wa, pre = spec(n, z)
    if wp is not None:
        ctx.under(n + "/projection", f.where(), pre, p, wp, "element of the projection / proximal operator")
        ctx.under(n + "/active", h.where(), pre, act, wa, "element of the active set")
    ctx.under(n + "/moreau", g.where(), pre, p + q, z, "projection and normal-cone projection sum to the point (Moreau)")
    if n == "EqualityConstraintTpl":
        jac(ctx, u, r, n, TRUE)
    elif wp is not None:
        jac(ctx, u, r, n, None)
    value(ctx, u, r)


def jac(ctx, u, r, n, active):
    for name, zero_if in (("applyProjectionJacobian", True), ("applyNormalConeProjectionJacobian", False)):
        f, s = go(ctx, u, r, name)
        if f is None:
            ctx.ob("%s/%s" % (n, name), r.file, None, "missing")
            continue
        Jin = elt(P(f, 1), K, J)
        got = at(outp(s, 1), K, J)
        c = active
        if c is None:       # whatever computeActiveSet says (decided above)
            c = mk("elt", mk("out", 1, mk("call", "ConstraintSetTpl::computeActiveSet", mk("init", THIS, sort="o"), P(f, 0), mk("slot", 1), sort="o"), sort="m"), K, sort="b")
            cs = [x for x in subterms(got) if x.op == "elt" and x.sort == "b"]
            c = cs[0] if len(cs) == 1 and "computeActiveSet" in show(cs[0], 6) and arg_is(cs[0], P(f, 0)) else c
        want = ite(c, ZERO if zero_if else Jin, Jin if zero_if else ZERO)
        ctx.under("%s/%s" % (n, name), f.where(), TRUE, got, want,
                  "row k of the result is %s iff component k is active at z" % ("zero" if zero_if else "kept"))


def arg_is(e, z):
    return z in subterms(e) and e.args[1] is K


def value(ctx, u, r):
    f, s = go(ctx, u, r, "evaluate")
    if f is None:
        ctx.ob(r.name + "/value", r.file, None, "missing")
        return
    z = P(f, 0)
    if r.name in ("EqualityConstraintTpl", "NegativeOrthantTpl", "BoxConstraintTpl"):
        ctx.same(r.name + "/value", f.where(), s.ret, ZERO, "an indicator function is zero on the set")
    elif r.name == "NonsmoothPenaltyL1Tpl":
        ctx.same(r.name + "/value", f.where(), s.ret, vecsum(maxmin("max", [z, neg(z)])), "the 1-norm")


def base(ctx, u):
    C = "ConstraintSetTpl"
    r = u.record(C)
    for f in u.find(C, "setProxParameter")[:1]:
        s = summary(ctx, u, f)
        m = P(f, 0, "s")
        ctx.same("prox/mu", f.where(), outm(s, "mu_", so="s"), m, "penalty stored")
        ctx.same("prox/mu_inv", f.where(), outm(s, "mu_inv_", so="s"), inv(m), "inverse penalty stored")
    for n in ("mu", "mu_inv"):
        for f in u.find(C, n, 0)[:1]:
            ctx.same("prox/get-" + n, f.where(), summary(ctx, u, f).ret, M(n + "_", so="s"), "penalty returned")
    for f in u.find(C, "evaluateMoreauEnvelope", 2)[:1]:
        s = summary(ctx, u, f)
        z, p = P(f, 0), P(f, 1)
        ctx.same("envelope/value", f.where(), s.ret, evaluate(z - p) + Fraction(1, 2) * M("mu_inv_", so="s") * dot(p, p),
                 "value of the set at the projected point plus 1/(2 mu) |normal-cone part|^2")
    for f in u.find(C, "computeMoreauEnvelope", 2)[:1]:
        s = summary(ctx, u, f)
        z = P(f, 0)
        p = mk("out", 1, mk("call", C + "::normalConeProjection", mk("init", THIS, sort="o"), z, mk("slot", 1), sort="o"), sort="m")
        ctx.same("envelope/projection", f.where(), outp(s, 1), p, "the normal-cone projection is returned through the argument")
        ctx.same("envelope/compute", f.where(), s.ret, evaluate(z - p) + Fraction(1, 2) * M("mu_inv_", so="s") * dot(p, p),
                 "envelope of the point from its own normal-cone projection")
    for f in u.find(C, "applyProjectionJacobian")[:1]:
        jac(ctx, u, r, C, None)


def evaluate(z): return mk("call", "ConstraintSetTpl::evaluate", mk("init", THIS, sort="o"), z, sort="s")
