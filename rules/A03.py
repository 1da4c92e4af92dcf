"""Outer-loop schedule: what every outer iteration hands to the next one is the documented
update of penalty, multipliers, tolerances, proximal weight and centre, and the three places
that hold the penalty (solver, its inverse, every constraint set) stay equal."""
from sa.terms import *
from sa.solverlib import *
from sa import loops as LP

TITLE = "Penalty, tolerance and proximal schedule"
FLOOR = 12
I = ranged("i", NB)


def bp(n): return ini(F(S("bcl_params"), n), "s")
def pw(a, b): return mk("call", "pow", a, b, sort="s")
def inv_(a): return ONE / a
def sv(n): return ini(S(n), "s")


def run(ctx):
    u, f, s = solve_summary(ctx)
    outs = [lc for lc in s.loops if lc.N is None and R("al_iters") in lc.phis]
    if len(outs) != 1:
        ctx.ob("outer", f.where(), None, "no outer loop recognised")
        return
    lc = outs[0]
    it = s.interp
    w = lc.where
    en, back = lc.entry, lc.recs[1]

    def at0(c, so="s"): return it.load(en, c, so)
    def end(c, so="s"): return constrain(it.load(back, c, so), back.pc)
    def ph(c): return LP.phi_of(lc, c)
    mu0, rho0 = sv("mu_init_"), sv("rho_init_")

    # -- start ------------------------------------------------------------
    ctx.same("start/mu", w, at0(S("mu_")), mu0, "the penalty starts at its initial value")
    ctx.same("start/mu-inverse", w, at0(S("mu_inv_")), inv_(mu0), "and so does its inverse")
    ctx.same("start/mu-sets", w, at0(F(CON(I), "set_", "mu_")), mu0, "every constraint set gets the initial penalty")
    ctx.same("start/mu-inverse-sets", w, at0(F(CON(I), "set_", "mu_inv_")), inv_(mu0), "every constraint set gets the initial inverse penalty")
    ctx.same("start/rho", w, at0(S("rho_")), rho0, "the proximal weight starts at its initial value")
    W0 = at0(F(S("prox_penalty"), "weights_"), "m")
    ctx.same("start/prox-weight", w, diagv(W0), rho0 * ONES, "proximal weight matrix: rho on the diagonal")
    ctx.same("start/prox-weight-offdiag", w, upd(W0, mk("vdiag"), ZERO), ZERO, "proximal weight matrix: zero elsewhere")
    ctx.same("start/prim-tol", w, at0(S("prim_tol_")), maxmin("max", [sv("prim_tol0") * pw(mu0, bp("prim_alpha")), sv("target_tol")]), "first primal tolerance")
    ctx.same("start/inner-tol", w, at0(S("inner_tol_")), maxmin("max", [sv("inner_tol0") * pw(mu0, bp("dual_alpha")), sv("inner_tol_min")]), "first subproblem tolerance")
    x0 = f.params[0]
    xt = at0(R("x_opt"), "m")
    ctx.same("start/x-prev", w, at0(W("x_prev"), "m"), xt, "the reference point starts at the initial guess")
    ctx.same("start/prox-target", w, at0(F(S("prox_penalty"), "residual_", "target_"), "m"), xt, "the proximal centre starts at the initial guess")

    # -- one outer iteration ----------------------------------------------
    mu, mui, rho = ph(S("mu_")), ph(S("mu_inv_")), ph(S("rho_"))
    pt, it_ = ph(S("prim_tol_")), ph(S("inner_tol_"))
    pinf = end(R("prim_infeas"))
    ok = lt(pinf, pt)
    fail_mu = ite(eq(mu, sv("mu_lower_")), mu0, maxmin("max", [mu * bp("mu_update_factor"), sv("mu_lower_")]))
    nmu = end(S("mu_"))
    ctx.same("update/mu", w, nmu, ite(ok, mu, fail_mu),
             "penalty: kept after sufficient feasibility, otherwise decreased by the factor down to the bound, restarted once it is there")
    co = {mui: inv_(mu)}
    ctx.same("update/mu-inverse", w, subst(end(S("mu_inv_")), co), inv_(nmu), "the inverse penalty is the inverse of the penalty")
    for nm, ex in (("mu_", 1), ("mu_inv_", -1)):
        c = F(CON(I), "set_", nm)
        v = end(c)
        mp = {}
        for x in subterms(v):
            if x.op == "phi" and x.args[0] == lc.id and x.args[1].op == "fld" and x.args[1].args[1] == nm and x.args[1].args[0].op == "fld":
                mp[x] = (mu if ex > 0 else inv_(mu))
        v = subst(v, mp)
        ctx.same("update/sets-%s" % nm.strip("_"), w, subst(v, co), (nmu if ex > 0 else inv_(nmu)), "every constraint set carries the solver's penalty")
    ctx.same("update/rho", w, end(S("rho_")), rho * bp("rho_update_factor"), "proximal weight times its factor")
    Wn = end(F(S("prox_penalty"), "weights_"), "m")
    ctx.same("update/prox-weight", w, diagv(Wn), end(S("rho_")) * ONES, "proximal weight matrix follows the weight")
    ctx.same("update/prox-weight-offdiag", w, upd(Wn, mk("vdiag"), ZERO), ZERO, "proximal weight matrix stays diagonal")
    ratio = mu * inv_(sv("mu_upper_"))
    ctx.same("update/prim-tol", w, end(S("prim_tol_")),
             maxmin("max", [ite(ok, pt * pw(ratio, bp("prim_beta")), sv("prim_tol0") * pw(nmu, bp("prim_alpha"))), sv("target_tol")]),
             "primal tolerance: tightened on success, reset from the new penalty on failure, never below the target")
    inn = it_
    got = end(S("inner_tol_"))
    for x in subterms(got):
        if x.op == "ite" and inn in subterms(x.args[0]) and x.args[1] is inn and x.args[2] is ZERO:
            inn = x
    ctx.same("update/inner-tol", w, nonneg_phi(got, it_),
             maxmin("max", [ite(ok, it_ * pw(ratio, bp("dual_beta")), sv("inner_tol0") * pw(nmu, bp("dual_alpha"))), sv("inner_tol_min")]),
             "subproblem tolerance: tightened on success, reset from the new penalty on failure, never below its floor")
    # multipliers
    mode = ini(S("mul_update_mode"), "i")
    lo, lp = end(R("data_lams_opt"), "m"), end(W("data_lams_prev"), "m")
    inner = [l for l in s.loops if l.N is None and R("num_iters") in l.phis and l is not lc]
    plus, pdal = end(W("data_lams_plus"), "m"), end(W("data_lams_pdal"), "m")
    okc = constrain(lo, ok), constrain(lp, ok)
    ctx.same("update/lams-accepted", w, okc[0], okc[1], "after an accepted outer iteration the estimate in use is the reference estimate")
    ctx.same("update/lams-kept", w, constrain(lp, not_(ok)), ph(W("data_lams_prev")), "the reference multipliers are kept when feasibility is insufficient")
    for k, nm, want in ((enum(u, "PRIMAL", 1), "primal", plus), (enum(u, "PRIMAL_DUAL", 2), "primal-dual", pdal)):
        c = and_(ok, eq(mode, k))
        ctx.same("update/lams-%s" % nm, w, constrain(lp, c), constrain(want, c), "accepted multipliers of the %s mode" % nm)
    c = and_(ok, eq(mode, enum(u, "NEWTON", 0)))
    for k, e in enumerate(x for x in s.events if x.kind == "store" and x.loc is W("data_lams_prev") and len(x.ctx) == 1):
        # whatever the accepted estimate, the Newton mode takes the iterate the subproblem ended with
        if constrain(e.pc, eq(mode, enum(u, "NEWTON", 0))) is FALSE:
            continue
        a = At(s, e)
        ctx.same("update/lams-newton/%d" % k, e.where, constrain(lp, and_(c, e.pc)), constrain(constrain(a(R("data_lams_opt")), back.pc), and_(c, e.pc)),
                 "accepted multipliers of the Newton mode")
    x = end(R("x_opt"), "m")
    ctx.same("update/x-prev", w, end(W("x_prev"), "m"), x, "the reference point follows the accepted iterate")
    ctx.same("update/prox-target", w, end(F(S("prox_penalty"), "residual_", "target_"), "m"), x, "the proximal centre follows the accepted iterate")
    ctx.same("report/mu", w, end(R("mu")), mu, "the reported penalty is the one the outer iteration used")
    ctx.same("report/rho", w, end(R("rho")), rho, "the reported proximal weight is the one the outer iteration used")
    # nothing else writes the schedule's parameters inside the Newton loop
    for l in inner:
        for c in (S("mu_"), S("mu_inv_"), S("rho_"), S("prim_tol_"), S("inner_tol_"), W("data_lams_prev"), W("x_prev"), F(S("prox_penalty"), "weights_")):
            bad = c in l.phis and l.recs[1] is not None and not same_in_loop(l, c)
            ctx.ob("fixed-inside/%s" % c.args[1], l.where, not bad, "%s changes within a subproblem" % c.args[1])


def same_in_loop(l, c):
    v = constrain(l.back.get(c), l.recs[1].pc)
    return v is LP.phi_of(l, c) or any(x.op in ("opaque", "clob") for x in subterms(v))


def nonneg_phi(t, p):
    """the engine writes a non-negative loop scalar as max(p,0)"""
    mp = {x: p for x in subterms(t) if x.op == "ite" and x.args[1] is p and x.args[2] is ZERO}
    t2 = subst(t, mp)
    return constrain(t2, lt(ZERO, p))
