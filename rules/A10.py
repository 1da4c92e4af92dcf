"""The problem: the layout of its constraints is recomputed whenever they change, and its evaluation
methods fill the workspace with the cost and each constraint at the given point, in order."""
from sa.terms import *
from sa.modlib import *
from sa.front import AnalysisBroken

TITLE = "Problem layout and evaluation"
FLOOR = 12
C, F1, F2 = "BaseFunctionTpl::operator()", "C1FunctionTpl::computeJacobian", "C2FunctionTpl::vectorHessianProduct"
COST = "CostFunctionBaseTpl::"
CS = mcell("constraints_")
NB = size(mk("init", CS, sort="o"))
COSTV = mk("init", mcell("cost_"), sort="o")
KV = mk("bv", "k", sort="i")


def run(ctx):
    u = ctx.unit("solver")
    r = u.record("ProblemTpl")
    layout(ctx, u, r)
    accessors(ctx, u, r)
    evaluation(ctx, u, r)
    packing(ctx, u)


def nr_(base): return mk("fld", mk("fld", base, "func_"), "nr_")


def layout(ctx, u, r):
    """sizes, offsets and total always describe the constraints held"""
    done = 0
    fs = [f for f in r.methods if f.kind == "CXXConstructorDecl" and not f.implicit and not f.defaulted and f.body is not None and len(f.params) == 3]
    fs += [f for f in r.methods if f.name == "addConstraint" and f.body is not None]
    for n, f in enumerate(fs):
        key = ("ctor" if f.kind == "CXXConstructorDecl" else "add") + "/%d" % n
        s = summary(ctx, u, f)
        it = s.interp
        i = len(f.params) - 1
        arg = mk("init", cell(f, i), sort="o")
        where = f.where()
        N = it.container_size(s.final, CS)
        if f.kind == "CXXConstructorDecl":
            ctx.same(key + "/count", where, N, size(arg), "the problem holds the constraints given")
            J = ranged("J", size(arg))
            ctx.same(key + "/constraints", where, at(s, mk("idx", CS, J), "o"), mk("init", mk("idx", cell(f, i), J), sort="o"), "in the given order")
            ctx.same(key + "/cost", where, at(s, mcell("cost_"), "o"), mk("init", cell(f, 1), sort="o"), "the cost given")
            ctx.same(key + "/manifold", where, at(s, mcell("manifold_"), "o"), mk("call", "polymorphic", mk("init", cell(f, 0), sort="o"), sort="o"), "the manifold given")

            def nr(k):
                return mk("init", nr_(mk("idx", cell(f, i), k)), sort="i")
        else:
            ctx.same(key + "/count", where, N, add(NB, ONE), "one constraint is added")
            ctx.same(key + "/last", where, at(s, mk("idx", CS, NB), "o"), arg, "the constraint given comes last")
            J = ranged("J", NB)
            ctx.same(key + "/others", where, constrain(at(s, mk("idx", CS, J), "o"), lt(J, NB)), mk("init", mk("idx", CS, J), sort="o"), "the others stay in place")
            for m in ("cost_", "manifold_"):
                ctx.same(key + "/" + m, where, at(s, mcell(m), "o"), mk("init", mcell(m), sort="o"), "cost and manifold stay")

            def nr(k):
                return ite(eq(k, NB), mk("init", nr_(cell(f, i)), sort="i"), mk("init", nr_(mk("idx", CS, k)), sort="i"))
        J = ranged("J2", N)
        pre = (lambda t: split(held(t)) if t is not None else None) if key.startswith("add") else (lambda t: t)
        for m, w in (("ncs_", nr(J)), ("indices_", psum(KV, J, nr(KV)))):
            ctx.same("%s/size:%s" % (key, m), where, pre(it.container_size(s.final, mcell(m))), N, "one entry per constraint")
            ctx.under("%s/%s" % (key, m), where, TRUE, pre(at(s, mk("idx", mcell(m), J), "i")), pre(w), "the %s of each constraint" % ("dimension" if m == "ncs_" else "first row"))
        ctx.same(key + "/total", where, pre(at(s, mcell("nc_total_"), "i")), pre(psum(KV, N, nr(KV))), "the total dimension is the sum of the dimensions")
        done += 1
    ctx.ob("layout/methods", r.where() if hasattr(r, "where") else "", True if done >= 2 else None, "%d" % done)


def split(t):
    """sums over the constraints after one was added: the last term apart"""
    for _ in range(4):
        mp = {}
        for x in subterms(t):
            if x.op == "psum":
                n, body, bv = x.args[-2], x.args[-1], binder_var(x)
                if n is add(NB, ONE):
                    mp[x] = add(psum(KV, NB, constrain(subst(body, {bv: KV}), lt(KV, NB))), subst(body, {bv: NB}))
                else:
                    b = subst(body, {eq(bv, NB): FALSE})
                    if b is not body:
                        mp[x] = psum(KV, n, subst(b, {bv: KV}))
        if not mp:
            return t
        t = subst(t, mp)
    return t


def held(t):
    """what was recorded for the constraints held before one is added (the property, inductively)"""
    if t is None:
        return None
    t = subst(t, {size(mk("init", mcell("ncs_"), sort="o")): NB, size(mk("init", mcell("indices_"), sort="o")): NB})
    mp = {M("nc_total_", so="i"): psum(KV, NB, mk("init", nr_(mk("idx", CS, KV)), sort="i"))}
    for x in subterms(t):
        if x.op == "init" and x.args[0].op == "idx" and x.args[0].args[0] is mcell("ncs_"):
            mp[x] = mk("init", nr_(mk("idx", CS, x.args[0].args[1])), sort="i")
        elif x.op == "init" and x.args[0].op == "idx" and x.args[0].args[0] is mcell("indices_"):
            mp[x] = psum(KV, x.args[0].args[1], mk("init", nr_(mk("idx", CS, KV)), sort="i"))
    return subst(t, mp)


def accessors(ctx, u, r):
    ix = lambda m, f, so="i": mk("init", mk("idx", mcell(m), P(f, 0, "i")), sort=so)
    want = {("getConstraintDim", 1): lambda f: ix("ncs_", f), ("getIndex", 1): lambda f: ix("indices_", f),
            ("getTotalConstraintDim", 0): lambda f: M("nc_total_", so="i"), ("getNumConstraints", 0): lambda f: NB,
            ("nx", 0): lambda f: vcall("ManifoldAbstractTpl::nx", M("manifold_", so="o"), so="i"),
            ("ndx", 0): lambda f: vcall("ManifoldAbstractTpl::ndx", M("manifold_", so="o"), so="i")}
    for f in r.methods:
        w = want.get((f.name, len(f.params)))
        if w is None or f.body is None:
            continue
        s = summary(ctx, u, f)
        ctx.same("get/" + f.name, f.where(), s.ret, w(f), "accessor of the layout")
        unchanged(ctx, "get/%s/pure" % f.name, f, s, (THIS,), "an accessor changes nothing")
    for name in ("getSegment", "getConstSegment"):
        for f in [x for x in r.methods if x.name == name and x.body is not None]:
            s = summary(ctx, u, f)
            v = s.ret
            if v is None:
                continue
            i = P(f, 1, "i")
            st, n = mk("init", mk("idx", mcell("indices_"), i), sort="i"), mk("init", mk("idx", mcell("ncs_"), i), sort="i")
            if v.op == "addr":
                ctx.same("get/" + name, f.where(), v, mk("addr", mk("vw", cell(f, 0), mk("vseg", st, n)), sort=v.sort), "the rows of one constraint")
            else:
                ctx.same("get/" + name, f.where(), v, seg(P(f, 0), st, n), "the rows of one constraint")


def evaluation(ctx, u, r):
    wcell = lambda f, m: mk("fld", cell(f, 1), m)
    J = ranged("J", NB)
    func = mk("init", mk("fld", mk("idx", CS, J), "func_"), sort="o")
    gn = vcall("ConstraintSetTpl::disableGaussNewton", mk("init", mk("fld", mk("idx", CS, J), "set_"), sort="o"), so="b")

    def fam(f, s, m):
        return constrain(at(s, mk("idx", wcell(f, m), J)), lt(J, NB))

    def only(key, f, s, *names):
        bad, und = [], []
        ok = {wcell(f, m) for m in names}
        for k, v in list(s.final.store.items()) + [(k, None) for k in s.final.fams]:
            if root(k) is cell(f, 1) or root(k) is THIS:
                b = k
                while b not in ok and b.op in ("idx", "vw", "fld"):
                    b = b.args[0]
                if b not in ok and not (v is not None and v.op == "init" and v.args[0] is k):
                    (bad if k is not cell(f, 1) else und).append(show(k, 5))
        ctx.ob(key, f.where(), None if und and not bad else not bad, "also writes %s" % ", ".join((bad + und)[:4]))

    f = method(u, r, "evaluate", 2)
    s = summary(ctx, u, f)
    x = P(f, 0)
    ctx.same("evaluate/objective", f.where(), at(s, wcell(f, "objective_value"), "s"), vcall(COST + "call", COSTV, x, so="s"), "the cost at the point")
    ctx.same("evaluate/constraints", f.where(), fam(f, s, "cstr_values"), mk("call", C, func, x, sort="m"), "each constraint at the point, in its own slot")
    only("evaluate/only", f, s, "objective_value", "cstr_values")
    f = method(u, r, "computeDerivatives", 2)
    s = summary(ctx, u, f)
    x = P(f, 0)
    ctx.same("derivatives/objective", f.where(), at(s, wcell(f, "objective_gradient")), vout(1, COST + "computeGradient", COSTV, x), "gradient of the cost at the point")
    ctx.same("derivatives/constraints", f.where(), fam(f, s, "cstr_jacobians"), vout(1, F1, func, x), "the Jacobian of each constraint, in its own slot")
    only("derivatives/only", f, s, "objective_gradient", "cstr_jacobians")
    f = method(u, r, "computeHessians", 3)
    s = summary(ctx, u, f)
    x = P(f, 0)
    ctx.same("hessians/objective", f.where(), at(s, wcell(f, "objective_hessian")), vout(1, COST + "computeHessian", COSTV, x), "Hessian of the cost at the point")
    lam = mk("init", mk("idx", wcell(f, "lams_pdal"), J), sort="m")
    old = mk("init", mk("idx", wcell(f, "cstr_vector_hessian_prod"), J), sort="m")
    on = or_(not_(gn), P(f, 2, "b"))
    got = fam(f, s, "cstr_vector_hessian_prod")
    ctx.same("hessians/used", f.where(), constrain(got, on), vout(2, F2, func, x, lam),
             "Hessian of each constraint along its primal-dual multiplier, if its set needs it or all are asked for")
    ctx.same("hessians/unused", f.where(), constrain(got, not_(on)), old, "left alone when the set does without (Gauss-Newton) and not all are asked for")
    only("hessians/only", f, s, "objective_hessian", "cstr_vector_hessian_prod")


def packing(ctx, u):
    """multipliers given one vector per constraint are laid out like the problem's constraints"""
    from sa import solverlib as SL
    fs = [f for f in u.find("ProxNLPSolverTpl", "solve") if len(f.params) == 2 and ("vector" in qt(f.params[1]) or "VectorOf" in qt(f.params[1]))]
    if len(fs) != 1:
        raise AnalysisBroken("expected one solve(x0, vector of multipliers), found %d" % len(fs))
    f = fs[0]
    it = SL.interp(u, keep=("call", "throw"), noinline=SL.NOINLINE + ("solve",))
    s = ctx.saw(it.run(f, pre=dict(SL.PRE)))
    L = cell(f, 1)
    n0 = size(mk("init", L, sort="o"))
    calls = [e for e in s.events if e.kind == "call" and e.name == "solve"]
    ctx.ob("solve/once", f.where(), len(calls) == 1 if calls else None, "one solve")
    bad = not_(eq(SL.NB, n0))
    t = FALSE
    for e in s.events:
        if e.kind == "throw" and not e.caught:
            t = or_(t, e.pcabs)
    ctx.under("solve/refuse", f.where(), TRUE, t, bad, "refused exactly when the number of multipliers is not the number of constraints")
    for e in calls[:1]:
        J = ranged("J", SL.NB)
        ctx.same("solve/point", e.where, e.args[0], P(f, 0), "the initial point is passed on")
        v = e.args[1]
        want = mk("init", mk("idx", L, J), sort="m")
        for at in reversed(SL.STARTS(J)):
            got = constrain(seg(v, at, SL.DIM(J)), and_(e.pcabs, and_(lt(J, SL.NB), lt(J, n0))))
            if got is want:
                break
        ctx.same("solve/segment", e.where, got, want, "segment J of the packed vector is multiplier J")
    r = s.ret
    if r is not None and calls:
        ctx.ob("solve/status", f.where(), True if any(x.op == "call" and x.args and str(x.args[0]).endswith("::solve") for x in subterms(r)) else None, "the status of that solve is returned")
