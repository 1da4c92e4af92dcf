"""Non-finite values: every value that decides a stop, enters the factorisation or overwrites the
returned point has been checked, and the checks are what they claim to be."""
from sa.terms import *
from sa.solverlib import *
from sa import modlib as ML
from sa import loops as LP
from sa.front import qt

TITLE = "Non-finite values are refused"
FLOOR = 6


def bad(v):
    return mk("call", "isbad", v, sort="b")


def nan(v):
    return mk("call", "somenan", v, sort="b")


def norm(t):
    """every test for non-finite values in terms of `bad` and `nan`"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and len(x.args) == 2 and isinstance(x.args[1], Term):
            nm, v = x.args
            if nm in ("allFinite", "isfinite"):
                m[x] = not_(bad(v))
            elif nm in ("hasNaN", "isnan"):
                m[x] = and_(bad(v), nan(v))
            elif nm == "isinf":
                m[x] = and_(bad(v), not_(nan(v)))
    return subst(t, m) if m else t


def in_parts(pc, v):
    """the only look at the value is at one and the same part of it"""
    vs = set(leaves(v))
    parts, whole = set(), []

    def looks(w):
        if w.op == "seg" and w.args[0] in vs:
            parts.add(w.args[1:])
        elif w in vs:
            whole.append(w)
        elif w.op not in ("call", "xcall", "out", "phiout", "phi", "init", "comp"):
            for c in children(w):
                looks(c)
    for a in {x.args[0] for x in subterms(pc) if x.op == "ite"}:
        if a.op == "call" and a.args[0] == "isbad":
            looks(a.args[1])
        elif a.op == "call":
            whole += [a for x in vs if contains(a, x)]
        else:
            for c in children(a):
                looks(c)
    return len(parts) == 1 and not whole


def tested(pc, v):
    """does any condition of the path look at the value (other than through an unknown function)?"""
    vs = set(leaves(v))

    def looks(w):
        if w in vs:
            return True
        if w.op in ("call", "xcall", "out", "phiout", "phi", "init", "comp"):
            return False
        return any(looks(c) for c in children(w))
    for a in {x.args[0] for x in subterms(pc) if x.op == "ite"}:
        if a.op == "call" and a.args[0] != "isbad":
            if any(contains(a, x) for x in vs):
                return True
        elif any(looks(c) for c in children(a)):
            return True
    return False


def run(ctx):
    solver(ctx)
    checks(ctx)


def solver(ctx):
    u = ctx.unit("solver")
    f = solve_fn(u)
    s = ctx.saw(summary(u, f, weak=False, keep=("store", "call", "throw")))
    NI = R("num_iters")
    loops = [lc for lc in s.loops if lc.N is None and NI in lc.back and lc.recs[1] is not None and
             any(e.kind == "store" and e.loc is NI and any(c is lc for c in e.ctx) for e in s.events)]
    inner = min(loops, key=lambda l: len(l.phis)) if loops else None
    if inner is None:
        ctx.ob("loop", f.where(), None, "no Newton loop")
        return
    inside = [e for e in s.events if any(c is inner for c in e.ctx)]
    at = lambda e, c, so="m": constrain(s.interp.load(e.st, c, so), e.pc)
    good = lambda v: not_(bad(v))

    def implied(key, where, pc, v, text):
        pc = norm(pc)
        v = constrain(norm(v), pc)
        if constrain(good(v), pc) is not TRUE and v.op != "seg" and in_parts(pc, v):
            ctx.ob(key, where, False, text + "\n      the path looks at one part only of " + show(v, 6)[:400])
        elif constrain(good(v), pc) is not TRUE and not tested(pc, v):
            ctx.ob(key, where, False, text + "\n      nothing on the path looks at " + show(v, 6)[:400])
        else:
            ctx.implied(key, where, pc, good(v), text)

    def req(key, e, v, text):
        implied(key, e.where, e.pc, v, text)
    for name, w in (("x_opt", "the returned point"), ("data_lams_opt", "the returned multipliers")):
        es = [x for x in inside if x.kind == "store" and x.loc is R(name)]
        for k, e in enumerate(es):
            req("accept/%s/%d" % (name, k), e, e.value, "%s is overwritten only with a checked value" % w)
        if not es:
            ctx.ob("accept/" + name, f.where(), None, "no store found")
    for k, e in enumerate(x for x in inside if x.kind == "call" and x.name == "compute" and len(x.args) == 1):
        lc = e.ctx[-1]          # the regularisation loop: what it starts from is checked
        if lc is not inner:
            v = constrain(s.interp.load(lc.entry, W("kkt_matrix"), "m"), lc.entry.pc)
            implied("matrix/%d" % k, e.where, lc.entry.pc, v, "only a checked matrix is factorised")
        else:
            req("matrix/%d" % k, e, e.args[0], "only a checked matrix is factorised")
    for k, e in enumerate(x for x in inside if x.kind == "call" and x.name == "run"):
        req("step/%d" % k, e, at(e, W("pd_step")), "the line search only runs along a checked step")
    n = size(ini(S("callbacks_")))
    for k, e in enumerate(x for x in inside if x.kind == "call" and x.name == "call" and x.ctx[-1].N is n):
        st = e.ctx[-1].entry
        implied("observe/%d" % k, e.where, st.pc, constrain(s.interp.load(st, R("merit"), "s"), st.pc), "callbacks only see a checked merit")
    NI = R("num_iters")
    for k, b in enumerate([inner.recs[1]] + list(inner.recs[2]) + [r[0] for r in inner.recs[3]]):
        if b is None:
            continue
        took = not_(eq(constrain(s.interp.load(b, NI, "i"), b.pc), LP.phi_of(inner, NI)))      # a step is counted
        pc = and_(b.pc, took)
        if pc is not FALSE:
            v = constrain(s.interp.load(b, R("merit"), "s"), pc)
            implied("merit/next/%d" % k, inner.where, pc, v, "an iteration only ends with a checked merit")
        pc = and_(b.pc, not_(took))
        if pc is not FALSE:
            rhs = constrain(s.interp.load(b, W("kkt_rhs"), "m"), pc)
            implied("stop/%d" % k, inner.where, pc, rhs, "convergence is only declared on a checked residual")


def checks(ctx):
    """what the checks and the norms mean"""
    for un in ("solver", "all"):
        u = ctx.unit(un)
        for f in u.funcs.values():
            if f.name not in ("check_value", "check_scalar", "infty_norm", "scalar_close") or f.body is None or f.rec is not None:
                continue
            s = ML.summary(ctx, u, f)
            so = "m" if "Eigen" in qt(f.params[0]) else "s"
            x = ML.P(f, 0, so)
            key = "%s/%s/%s" % (un, f.name, "matrix" if so == "m" else "scalar")
            if f.name.startswith("check"):
                ctx.under(key, f.where(), TRUE, norm(s.ret), bad(x), "true exactly for values that are not all finite")
            elif f.name == "infty_norm" and so == "m" and "vector" not in qt(f.params[0])[:12]:
                empty = or_(eq(rows(x), ZERO), eq(cols(x), ZERO))
                ctx.under(key + "/empty", f.where(), empty, s.ret, ZERO, "zero without entries")
                ctx.under(key, f.where(), not_(empty), s.ret, infnorm(x), "largest magnitude")
            elif f.name == "infty_norm":
                fold(ctx, key, f, s)
            elif f.name == "scalar_close":
                a, b, prec = [ML.P(f, i, "s") for i in range(3)]
                ab = lambda v: maxmin("max", [v, neg(v)])
                ctx.under(key, f.where(), TRUE, s.ret, lt(ab(add(a, neg(b))), mul(prec, add(ONE, maxmin("max", [ab(a), ab(b)])))),
                          "difference below the precision, relative to one plus the larger magnitude")


def fold(ctx, key, f, s):
    """norm of a vector of blocks: the largest of their norms"""
    z = ML.cell(f, 0)
    n = size(mk("init", z, sort="o"))
    lc = next((l for l in s.loops if l.N is n), None)
    if any(x.op == "psum" for x in subterms(s.ret)):
        ctx.ob(key + "/blocks", f.where(), False, "the norms are added up: %s" % show(s.ret, 6))
        return
    lc0 = next((l for l in s.loops if l.N is not None), None)
    if lc is None and lc0 is not None and s.ret.op == "phiout" and isinstance(s.ret.args[1], Term) and \
            constrain(s.interp.load(lc0.entry, s.ret.args[1], "s"), TRUE) is ZERO and add(lc0.N, neg(n)).op == "num":
        ctx.ob(key + "/blocks/all", lc0.where, False, "%s blocks visited instead of %s" % (show(lc0.N, 5), show(n, 5)))
        return
    if lc is None or s.ret.op != "phiout" or not isinstance(s.ret.args[1], Term):
        ctx.ob(key + "/blocks", f.where(), None, "loop over the blocks not recognised")
        return
    c = s.ret.args[1]
    blk = mk("init", mk("idx", z, lc.bv), sort="m")
    one = ite(or_(eq(rows(blk), ZERO), eq(cols(blk), ZERO)), ZERO, infnorm(blk))
    ctx.same(key + "/blocks/start", lc.where, s.interp.load(lc.entry, c, "s"), ZERO, "zero without blocks")
    ctx.ob(key + "/blocks/all", lc.where, not lc.recs[2] and not lc.recs[3], "no block is left out")
    ctx.under(key + "/blocks/step", lc.where, TRUE, lc.back.get(c, opaque("unchanged")), maxmin("max", [LP.phi_of(lc, c), one]), "the largest of the norms of the blocks")
