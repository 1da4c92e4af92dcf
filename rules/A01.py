"""Reported success is a certificate: at every store of SUCCESS the guard implies both
recorded residuals are below the tolerance, the recorded residuals are the formulas of the
returned primal-dual pair, and nothing changes between that store and the return."""
from sa import solverlib as L
from sa.terms import *
from sa.solverlib import *

TITLE = "Success certifies the returned point"
FLOOR = 6


def run(ctx):
    u = ctx.unit("solver")
    f = L.solve_fn(u)
    s = ctx.saw(L.summary(u, f, keep=("store",)))
    ok = [e for e in s.events if e.kind == "store" and e.loc is R("converged") and e.value.op == "num" and e.value.args[0] == 0]
    ctx.ob("success/reported", f.where(), True if ok else None, "solve reports SUCCESS somewhere")
    tol = ini(S("target_tol"), "s")
    for k, e in enumerate(ok):
        w = e.where

        def ld(cell, so="m"):
            return constrain(s.interp.load(e.st, cell, so), e.pc)
        prim, dual = ld(R("prim_infeas"), "s"), ld(R("dual_infeas"), "s")
        x, lam = ld(R("x_opt")), ld(R("data_lams_opt"))
        for nm, v in (("primal", prim), ("dual", dual)):
            ctx.holds("success/%s<=tol/%d" % (nm, k), w, or_(not_(e.pcabs), le(v, tol)),
                      "SUCCESS is stored only when the %s infeasibility is within target_tol" % nm)
        i = ranged("i", NB)
        mu = None
        # primal: distance of c(x) to the set, measured at the projected shifted constraint
        pr = prim
        mu = s.interp.load(e.st, S("mu_"), "s")
        residual_obs(ctx, s, e, k, prim, dual, x, lam)
        # nothing changes afterwards
        for e2 in s.events:
            if e2.kind in ("store", "call") and e2.seq > e.seq:
                locs = [e2.loc] if e2.kind == "store" else [o[0] for o in (e2.outs or ())]
                for c in locs:
                    c = s.interp.decomp(c)[0]
                    if c in (R("x_opt"), R("data_lams_opt"), R("prim_infeas"), R("dual_infeas"), R("converged")):
                        dead = and_(e.pcabs, e2.pcabs) is FALSE
                        ctx.ob("success/final/%s/%d" % (c.args[1], k), e2.where, True if dead else False,
                               "%s is overwritten after SUCCESS was stored" % c.args[1])
    # the status survives: no loop carries SUCCESS around, and the status is what is returned
    for lc in s.loops:
        back = lc.recs[1]
        if back is None or R("converged") not in lc.phis:
            continue
        b = constrain(lc.back[R("converged")], back.pc)
        bad = [x for x in leaves(b) if x is ZERO]
        ctx.ob("success/leaves-loop/%s" % lc.where.split("/")[-1].split(":")[0], lc.where, not bad,
               "iterations continue after SUCCESS was stored")
    if s.ret is not None:
        ctx.same("success/returned", f.where(), s.ret, s.interp.load(s.final, R("converged"), "i"),
                 "solve returns the status it stored")


def residual_obs(ctx, s, e, k, prim, dual, x, lam):
    i = ranged("i", NB)
    mus = [mk("phi", lc.id, S("mu_"), sort="s") for lc in s.loops] + [ini(S("mu_"), "s"), s.interp.load(e.st, S("mu_"), "s")]
    mu = next((m for m in mus if contains(prim, m)), mus[-1])

    def viol(mu, lam):
        z = cval(i, x) + mu * seg(lam, IDX(i), DIM(i))
        return bind("comp", i, NB, infnorm(cval(i, x) - proj(i, z)), sort="m")
    want = infnorm(viol(mu, lam))
    ctx.same("success/primal-formula/%d" % k, e.where, prim, want,
             "recorded primal infeasibility = max_i |c_i(x) - P_i(c_i(x) + mu*lam_i)| at the returned pair")
    J = s.interp.load(e.st, W("data_jacobians"), "m")
    J = constrain(J, e.pc)
    ctx.same("success/jacobian/%d" % k, e.where, blk(J, IDX(i), ZERO, DIM(i), ND), cjac(i, x),
             "constraint Jacobian rows of constraint i are evaluated at the returned point")
    g = out(1, call("CostFunctionBaseTpl::computeGradient", ini(F(PB, "cost_")), x, slot(1), sort="o"))
    ctx.same("success/dual-formula/%d" % k, e.where, dual, infnorm(g + J.T * lam),
             "recorded dual infeasibility = |grad f(x) + J(x)^T lam| at the returned pair")
