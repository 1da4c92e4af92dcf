"""The linear system factorised and solved at every iteration, its right-hand side, the
multiplier estimates and the merit function are the documented primal-dual formulas of the
current iterate: block by block, for every problem, KKT variant and Hessian approximation."""
from sa.terms import *
from sa.solverlib import *

TITLE = "Newton system and merit function match the documented formulas"
FLOOR = 12
I = ranged("i", NB)


def perblock(t):
    """stacked Jacobians transposed times stacked vectors, as the sum over the constraints"""
    k = mk("bv", "kb", sort="i")

    def one(x):
        r = ZERO
        for c, s_, m in monos(x):
            j = m[0].args[0] if len(m) == 2 and m[0].op == "T" else None
            if j is not None and j.op == "updn" and j.args[0] is NB and j.args[1].op == "vblk":
                b = binder_var(j)
                if j.args[1].args == (IDX(b), ZERO, DIM(b), ND):
                    v = seg(m[1], IDX(k), DIM(k))
                    r = r + psum(k, NB, constrain(mul(from_monos([(c, s_, ())]), subst(j.args[2], {b: k}).T * v), and_(le(ZERO, k), lt(k, NB))))
                    continue
            r = r + from_monos([(c, s_, m)])
        return r
    return map_leaves(t, one)


class Model:
    """the formulas, over the values an iteration starts from"""

    def __init__(self, u, at):
        self.u = u
        self.x, self.lam = at(R("x_opt")), at(R("data_lams_opt"))
        self.lamp, self.mu, self.mui = at(W("data_lams_prev")), at(S("mu_"), "s"), at(S("mu_inv_"), "s")
        self.rho, self.beta = at(S("rho_"), "s"), at(S("pdal_beta_"), "s")
        self.kkt, self.ha = at(S("kkt_system_"), "i"), at(S("hess_approx"), "i")
        self.classic = eq(self.kkt, enum(u, "KKT_CLASSIC", 0))
        self.pd = eq(self.kkt, enum(u, "KKT_PRIMAL_DUAL", 1))
        self.exact = eq(self.ha, enum(u, "EXACT", 0))
        self.bfgs = eq(self.ha, enum(u, "BFGS", 2))
        self.ident = eq(self.ha, enum(u, "IDENTITY", 3))

    def li(self, v, i=I): return seg(v, IDX(i), DIM(i))
    def shift(self, i=I): return cval(i, self.x) + self.mu * self.li(self.lamp, i)
    def shift_pd(self, i=I): return self.shift(i) - Fraction(1, 2) * self.mu * self.li(self.lam, i)
    def plus(self, i=I): return self.mui * ncproj(i, self.shift(i))
    def pdal(self, i=I): return (self.mui / self.beta) * ncproj(i, self.shift_pd(i))

    def jproj(self, i=I):
        J = cjac(i, self.x)
        return ite(self.classic, ancpj(i, self.shift(i), J), ite(self.pd, ancpj(i, self.shift_pd(i), J), J))


def run(ctx):
    u, f, s = solve_summary(ctx)
    for k, e in enumerate(ev(s, "call", "compute")):
        matrix(ctx, u, s, e, e.args[0], "factored/%d" % k, True)
    first = [e for e in ev(s, "call", "solveInPlace")]
    d = min([len(e.ctx) for e in first] or [0])
    for k, e in enumerate([e for e in first if len(e.ctx) == d]):
        at = At(s, e)
        matrix(ctx, u, s, e, at(W("kkt_matrix")), "solved/%d" % k, False)
        rhs(ctx, u, at, e, k)
    for k, e in enumerate(ev(s, "call", "solveInPlace")):
        if len(e.ctx) > d:
            at = At(s, e)
            # refinement solves the residual of the current step
            ctx.same("refine/residual/%d" % k, e.where, at.val(e.args[0]),
                     -at(W("kkt_rhs")) - at(W("kkt_matrix")) * at(W("pd_step")),
                     "the refinement right-hand side is the residual of the current step")
    runs = ev(s, "call", "run")
    for k, e in enumerate(runs):
        merit(ctx, u, s, e, k)


def matrix(ctx, u, s, e, K, key, regularised):
    at = At(s, e)
    K = at.val(K)
    m = Model(u, at)
    BL, TR = blk(K, ND, ZERO, NC, ND), blk(K, ZERO, ND, ND, NC)
    BR, TL = blk(K, ND, ND, NC, NC), blk(K, ZERO, ZERO, ND, ND)
    w = e.where
    ctx.same(key + "/lower-left", w, blk(BL, IDX(I), ZERO, DIM(I), ND), m.jproj(),
             "lower-left rows of constraint i: normal-cone Jacobian of the set at the shifted constraint, applied to J_i")
    ctx.same(key + "/upper-right", w, TR, BL.T, "upper-right block is the transpose of the lower-left block")
    dia = -m.mu * ONES
    want = ite(m.pd, Fraction(1, 2) * (dia + ancpj(I, m.shift_pd(), dia)), dia)
    ctx.same(key + "/lower-right-diag", w, seg(diagv(BR), IDX(I), DIM(I)), want, "dual regularisation block of constraint i")
    ctx.same(key + "/lower-right-offdiag", w, upd(BR, mk("vdiag"), ZERO), ZERO, "dual regularisation block is diagonal")
    ctx.same(key + "/upper-left-offdiag", w, upd(TL, mk("vdiag"), ZERO), upd(hess(u, at, m), mk("vdiag"), ZERO),
             "upper-left block: Lagrangian Hessian (off the diagonal)")
    if regularised:
        # delta I is added on top of the Lagrangian Hessian, and only when positive
        H = hess(u, at, m)
        lc = next((l for l in s.loops if l.node is e.ctx[-1].node), None)
        d = [x for x in subterms(diagv(TL)) if x.op == "phi" and x.sort == "s" and lc is not None and x.args[0] == lc.id]
        d = d[0] if len(set(d)) == 1 else None
        if d is None:
            ctx.ob(key + "/upper-left", w, None, "no inertia correction recognised")
        else:
            ctx.same(key + "/upper-left", w, diagv(TL), diagv(H) + ite(lt(ZERO, d), d, ZERO) * ONES,
                     "upper-left block: Lagrangian Hessian plus the inertia correction on the first ndx diagonal entries")
    else:
        ctx.same(key + "/upper-left", w, TL, hess(u, at, m), "upper-left block: Lagrangian Hessian, without the inertia correction")


def hess(u, at, m):
    base = at(W("objective_hessian"))
    H = ite(m.ident, EYE, ite(m.bfgs, base, out(1, call("CostFunctionBaseTpl::computeHessian", ini(F(PB, "cost_")), m.x, slot(1), sort="o"))))
    gn = call("ConstraintSetTpl::disableGaussNewton", SET(I), sort="b")
    hv = blk(at(W("data_hessians")), mul(I, ND), ZERO, ND, ND)
    fresh = vhp(I, m.x, m.pdal())
    # second-order terms of the constraints are evaluated for the exact Hessian only
    hv = ite(and_(not_(m.bfgs), not_(m.ident), m.exact), fresh, hv)
    H = H + psum(I, NB, ite(or_(not_(gn), m.exact), hv, ZERO))
    P = at(W("prox_hess"))
    return H + ite(lt(ZERO, m.rho), P, ZERO)


def rhs(ctx, u, at, e, k):
    m = Model(u, at)
    w = e.where
    r = at.val(e.args[0])
    g = out(1, call("CostFunctionBaseTpl::computeGradient", ini(F(PB, "cost_")), m.x, slot(1), sort="o"))
    J, Jp = at(W("data_jacobians")), at(W("data_jacobians_proj"))
    ctx.same("rhs/jacobian/%d" % k, w, blk(J, IDX(I), ZERO, DIM(I), ND), cjac(I, m.x), "Jacobian rows at the current iterate")
    ctx.same("rhs/jacobian-proj/%d" % k, w, blk(Jp, IDX(I), ZERO, DIM(I), ND), m.jproj(), "projected Jacobian rows")
    rp, rd = at(W("data_lams_plus_reproj")), at(W("data_lams_pdal_reproj"))
    ctx.same("rhs/reproj/%d" % k, w, m.li(rp), apj(I, m.shift(), m.plus()), "reprojected first-order multiplier")
    ctx.same("rhs/reproj-pdal/%d" % k, w, m.li(rd), apj(I, m.shift_pd(), m.pdal()), "reprojected primal-dual multiplier")
    want = g + Jp.T * m.lam + ite(lt(ZERO, m.rho), at(W("prox_grad")), ZERO) + \
        ite(m.classic, J.T * rp, ite(m.pd, J.T * rd, ZERO))
    ctx.same("rhs/head/%d" % k, w, perblock(seg(-r, ZERO, ND)), perblock(want), "primal right-hand side")
    want = ite(m.classic, m.mu * (m.plus() - m.li(m.lam)),
               ite(m.pd, Fraction(1, 2) * m.mu * (m.pdal() - m.li(m.lam)), ZERO))
    ctx.same("rhs/tail/%d" % k, w, m.li(seg(-r, ND, NC)), want, "dual right-hand side of constraint i")


def merit(ctx, u, s, e, k):
    at = At(s, e)
    m = Model(u, at)
    w = e.where
    if not e.args or len(e.args) < 3:
        ctx.ob("merit/%d" % k, w, None, "")
        return
    v, d = [at.val(a) for a in e.args[1:3]]
    li = m.li(m.lam)
    base, prox = merit_formula(at, m, m.x, m.lam)
    want = base + ite(lt(ZERO, m.rho), prox, ZERO)
    ctx.same("merit/value/%d" % k, w, v, want,
             "merit value handed to the line search: cost + envelopes + multiplier term + proximal term, at the current pair")
    g = out(1, call("CostFunctionBaseTpl::computeGradient", ini(F(PB, "cost_")), m.x, slot(1), sort="o"))
    mg, md, step = at(W("merit_gradient")), at(W("merit_dual_gradient")), at(W("pd_step"))
    J = at(W("data_jacobians"))
    lp = at(W("data_lams_pdal"))
    ctx.same("merit/pdal/%d" % k, w, m.li(lp), m.pdal(), "primal-dual multiplier estimate of constraint i")
    ctx.same("merit/gradient/%d" % k, w, perblock(mg), perblock(g + J.T * lp + ite(lt(ZERO, m.rho), at(W("prox_grad")), ZERO)), "primal merit gradient")
    ctx.same("merit/dual-gradient/%d" % k, w, setmu(m.li(md), m), m.beta * m.mu * (li - m.pdal()), "dual merit gradient")
    ctx.same("merit/slope/%d" % k, w, d, dot(mg, seg(step, ZERO, ND)) + dot(md, seg(step, ND, NC)),
             "directional derivative handed to the line search")


def merit_formula(at, m, x, lam):
    """(cost + envelopes + multiplier term, proximal term) of the merit at a pair"""
    cost = call("CostFunctionBaseTpl::call", ini(F(PB, "cost_")), x, sort="s")
    li = m.li(lam)
    z = cval(I, x) + m.mu * m.li(m.lamp) - Fraction(1, 2) * m.mu * li
    p = ncproj(I, z)
    # the sets carry the penalty of the solver (A03)
    smu, smui = at(F(SET_LOC(I), "mu_"), "s"), at(F(SET_LOC(I), "mu_inv_"), "s")
    env = call("ConstraintSetTpl::evaluate", SET(I), z - p, sort="s") + Fraction(1, 2) * smui * dot(p, p)
    prox = call("QuadraticResidualCostTpl::call", at(S("prox_penalty"), "o"), x, sort="s")
    return cost + psum(I, NB, 2 * env + Fraction(1, 4) * smu * dot(li, li)), prox


def SET_LOC(i): return F(CON(i), "set_")


def setmu(t, m):
    """constraint sets carry the solver's penalty (A03): read set.mu() as mu"""
    mp = {}
    for x in subterms(t):
        c = x.args[0] if x.op == "init" else x.args[1] if x.op == "phi" else None
        if c is not None and c.op == "fld" and c.args[0] is not THIS and c.args[1] in ("mu_", "mu_inv_"):
            mp[x] = m.mu if c.args[1] == "mu_" else m.mui
    return subst(t, mp)
