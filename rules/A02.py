"""Budgets: every loop of a solve is counted or has a measure that strictly progresses towards a
bound; the reported counters are the iterations of this solve; the status says how it ended."""
from sa.terms import *
from sa.solverlib import *
from sa import loops as LP

TITLE = "Iteration budgets and reported status"
FLOOR = 8


def run(ctx):
    u, f, s = solve_summary(ctx)
    pos = positive_members(u)
    NI, AI, CV = R("num_iters"), R("al_iters"), R("converged")
    counted = 0
    prog = {}
    for lc in s.loops:
        if lc.N is not None and not LP.varies(lc.N, lc):
            counted += 1
            continue
        m = measure(ctx, u, s, lc, pos)
        prog[lc] = m
        key = "terminates/%d" % len(prog)
        if m is None:
            # a loop none of whose iterations changes what it tests can be refuted
            ctx.ob(key, lc.where, stuck(lc), "no measure found")
        else:
            ctx.ob(key, lc.where, True, m)
    ctx.ob("terminates/counted", f.where(), True if counted else None, "%d counted loops" % counted)

    def by_counter(cell):
        for lc in s.loops:
            if lc.N is None and cell in lc.back and lc.recs[1] is not None and cell in lc.phis and \
                    any(e.kind == "store" and e.loc is cell and any(c is lc for c in e.ctx) for e in s.events):
                yield lc
    ph = LP.phi_of
    loops = list(by_counter(NI))
    inner = min(loops, key=lambda l: len(l.phis)) if loops else None
    outs = list(by_counter(AI))
    outer = outs[0] if len(outs) == 1 else None
    MI, MA = ini(S("max_iters"), "i"), ini(S("max_al_iters"), "i")
    if inner is not None:
        b = inner.recs[1]
        new = constrain(inner.back[NI], b.pc)
        ctx.same("counter/newton", inner.where, new, add(ph(inner, NI), ONE), "one Newton iteration adds one to the reported count")
        ctx.implied("budget/newton", inner.where, b.pc, lt(new, MI), "another Newton iteration starts only below the budget")
        hv = s.interp.load(inner.entry, NI, "i")
        ctx.implied("budget/newton-entry", inner.where, inner.entry.pc, lt(hv, MI), "the Newton loop is entered only below the budget")
        MX, h = enum(u, "MAX_ITERS_REACHED", 1), ph(inner, NI)
        for k, br in enumerate(list(inner.recs[2]) + [r[0] for r in inner.recs[3]]):
            v = constrain(s.interp.load(br, NI, "i"), br.pc)
            c = constrain(s.interp.load(br, CV, "i"), br.pc)
            took = not_(eq(v, h))
            ctx.same("counter/newton-exit/%d" % k, inner.where, v, ite(took, add(h, ONE), h), "an iteration that ends the loop after a step is counted, once")
            ctx.under("status/max-iters/%d" % k, inner.where, br.pc, c, ite(took, MX, s.interp.load(inner.recs[0], CV, "i")),
                      "leaving the Newton loop after a step sets the max-iterations status, leaving it before leaves the status alone")
            if and_(br.pc, took) is not FALSE:
                ctx.implied("status/max-iters-only/%d" % k, inner.where, and_(br.pc, took), not_(lt(v, MI)),
                        "the Newton loop is left after a step only when the budget is used up")
    else:
        ctx.ob("counter/newton", f.where(), None, "no Newton loop")
    if outer is not None:
        b = outer.recs[1]
        new = constrain(outer.back[AI], b.pc)
        ok = implies_pos(new, ph(outer, AI))
        ctx.ob("counter/outer", outer.where, ok, "one outer iteration adds one to the reported count, got %s" % show(new, 6))
        # tested by the loop itself, or before the first thing an iteration does
        go = outer.cond
        if inner is not None and any(any(c is outer for c in e.ctx) and any(c is inner for c in e.ctx) for e in s.events):
            go = inner.entry.pc
        ctx.implied("budget/outer", outer.where, go, lt(ph(outer, AI), MA), "outer iterations start only below the outer budget")
        ctx.implied("budget/outer-newton", outer.where, go, lt(ph(outer, NI), MI), "outer iterations start only below the Newton budget")
        for c, v, w in ((NI, ZERO, "Newton count"), (AI, ZERO, "outer count"), (CV, enum(u, "UNINIT", -1), "status")):
            ctx.same("reset/%s" % c.args[1], outer.where, s.interp.load(outer.entry, c, "i"), v, "the %s is reset when solve starts" % w)
    else:
        ctx.ob("counter/outer", f.where(), None, "no outer loop")
    # the status only takes the documented values for the documented reasons
    known = {enum(u, "UNINIT", -1), enum(u, "SUCCESS", 0), enum(u, "MAX_ITERS_REACHED", 1)}
    for k, e in enumerate(x for x in s.events if x.kind == "store" and x.loc is CV):
        v = e.value
        if v is enum(u, "MAX_ITERS_REACHED", 1):
            n = constrain(s.interp.load(e.st, NI, "i"), e.pc)
            ctx.implied("status/why-max/%d" % k, e.where, e.pcabs, not_(lt(n, MI)), "max-iterations is reported only with the Newton budget used up")
        elif v.op == "num":
            ctx.ob("status/value/%d" % k, e.where, v in known, "unexpected status value %s" % show(v))
    inertia(ctx, u, s, pos)
    # refinement is bounded by the configured number of steps
    refine = [lc for lc in s.loops if lc is not inner and any(e.kind == "call" and e.name == "solveInPlace" and e.ctx and e.ctx[-1] is lc for e in s.events)]
    for lc in refine:
        ctx.same("budget/refinement", lc.where, lc.N, ini(S("max_refinement_steps_"), "i"), "at most the configured number of refinement steps")


def implies_pos(new, old):
    """new = old + 1 for a counter that starts at zero"""
    if new is add(old, ONE):
        return True
    if new.op == "max" and add(old, ONE) in new.args and all(a is add(old, ONE) or a in (ZERO, ONE) for a in new.args):
        return True
    return None if unknown_op(new) else False


def unknown_op(t):
    return any(x.op in ("opaque", "clob", "phiout") for x in subterms(t))


def measure(ctx, u, s, lc, pos):
    from sa.randterm import implied, valid
    back = lc.recs[1]
    if back is None:
        return "the body never repeats"
    pcs = [c for c in (lc.cond, back.pc) if c is not None]
    for c in lc.phis:
        old = LP.phi_of(lc, c)
        new = lc.back.get(c)
        if new is None:
            continue
        new = constrain(new, back.pc)
        one = add(old, ONE)
        if new is one or new.op == "max" and one in new.args:
            for pc in pcs:
                for x in subterms(pc):
                    if x.op != "lt0":
                        continue
                    for nx in (old, one):
                        B = add(nx, neg(x.args[0]))
                        if not LP.varies(B, lc):
                            if constrain(lt(nx, B), pc) is TRUE or implied(pc, lt(nx, B)):
                                return "%s counts up to %s" % (show(c), show(B, 4))
        if new.sort == "s":
            old = LP.phi_of(lc, c)
            new = LP.literal_options(u, new, pos)
            cond = lc.cond
            for x in subterms(cond):
                if x.op != "lt0":
                    continue
                B = add(x.args[0], old)          # B - old < 0 negated in the condition: old <= B
                B2 = add(old, neg(x.args[0]))
                for b, pr in ((B, le(old, B)), (B2, lt(old, B2))):
                    if LP.varies(b, lc) or not (constrain(pr, cond) is TRUE or implied(cond, pr)):
                        continue
                    others = [y for y in subterms(new) if y.op == "phi" and y.sort == "s" and y is not old]
                    hyp = and_(*[le(ZERO, y) for y in others + [old]], LP.literal_options(u, pr, pos))
                    if implied(and_(hyp, lt(ZERO, old)), le(mul(num(Fraction(3, 2)), old), new)) and \
                            implied(and_(hyp, eq(old, ZERO)), lt(ZERO, new)):
                        return "%s grows geometrically up to %s" % (show(c), show(b, 4))
    return None


def stuck(lc):
    """no measure: refuted when how the tested quantities change is fully known"""
    back = lc.recs[1]
    conds = [lc.cond] + [b.pc for b in lc.recs[2]] + [b[0].pc for b in lc.recs[3]]
    used = {x for c in conds if c is not None for x in subterms(c) if x.op == "phi" and x.args[0] == lc.id and x.sort != "m"}
    for x in used:
        new = lc.back.get(x.args[1])
        if new is not None and unknown_op(constrain(new, back.pc)):
            return None
    return None if any(c is not None and any(y.op in ("opaque", "clob") for y in subterms(c)) for c in conds) else False


def inertia(ctx, u, s, pos):
    """the regularised factorisation that is used has the right inertia, or the largest was tried"""
    comp = ev(s, "call", "compute")
    for k, e in enumerate(comp):
        lc = e.ctx[-1] if e.ctx else None
        lc = next((l for l in s.loops if lc is not None and l.node is lc.node), None)
        if lc is None or lc.N is not None:
            ctx.ob("inertia/%d" % k, e.where, None, "no inertia loop")
            continue
        back = lc.recs[1]
        chk = [x for x in subterms(back.pc) if x.op == "call" and x.args[0] == "checkInertia"] if back is not None else []
        ctx.ob("inertia/tested/%d" % k, lc.where, bool(chk) if chk or (back is not None and not unknown_op(back.pc)) else None,
               "the loop over regularisations does not depend on the inertia of the factor")
        for c in chk[:1]:
            good = eq(c, enum(u, "INERTIA_OK", 0))
            ctx.implied("inertia/retry-only-when-wrong/%d" % k, lc.where, back.pc, not_(good), "a new regularisation is tried only when the inertia is wrong")
            for j, br in enumerate(lc.recs[2]):
                ctx.implied("inertia/stop/%d/%d" % (k, j), lc.where, br.pc, good, "the search stops early only on the right inertia")
            ctx.same("inertia/expected-positive/%d" % k, lc.where, c.args[1], ND, "positive eigenvalues expected: the tangent dimension")
            ctx.same("inertia/expected-negative/%d" % k, lc.where, c.args[2], NC, "negative eigenvalues expected: the constraint dimension")
            sig = c.args[3]
            fac = [x for x in subterms(sig) if x.op == "after" and x.args[0].op == "call" and x.args[0].args[0].endswith("::compute")]
            own = back.store.get(W("ldlt_") if W("ldlt_") in back.store else mk("fld", W("ldlt_"), "visited"))
            ctx.ob("inertia/of-this-factor/%d" % k, lc.where, True if own is not None and own in fac else None if not unknown_op(sig) and own is None else bool(fac) and own in fac,
                   "the inertia tested is not that of the factor just computed")
