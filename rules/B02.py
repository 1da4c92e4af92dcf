"""A product of sets acts block by block: every operation of the product is, on each block, the same
operation of the component applied to that block, and parameters reach every component."""
from sa.terms import *
from sa.modlib import *

TITLE = "Product of constraint sets"
FLOOR = 5
C = "ConstraintSetProductTpl"
COMP, BS = mcell("m_components"), mcell("m_blockSizes")
NB = size(mk("init", COMP, sort="o"))
J = ranged("j", NB)
INR = and_(not_(lt(J, ZERO)), lt(J, NB))
MC = mk("init", mk("m"), sort="i")


def bs(k): return mk("init", mk("idx", BS, k), sort="i")
def comp_(k): return mk("init", mk("idx", COMP, k), sort="o")


K = mk("bv", "k", sort="i")
OFF = psum(K, J, bs(K))
TOT = psum(K, NB, bs(K))


def dims_of(f):
    d = {}
    for i in range(len(f.params)):
        t = qt(f.params[i])
        d[cell(f, i)] = (TOT, MC) if "MatrixRef" in t or "-1, -1" in t else (TOT, ONE)
    return lambda c: d.get(c)


def run(ctx):
    u = ctx.unit("functions")
    r = u.record(C)
    for name in ("projection", "normalConeProjection", "computeActiveSet", "applyProjectionJacobian", "applyNormalConeProjectionJacobian"):
        f = method(u, r, name)
        if f is None:
            ctx.ob(name, r.file, None, "missing")
            continue
        s = summary(ctx, u, f, dims=dims_of(f))
        out, z = outp(s, 1), seg(P(f, 0), OFF, bs(J))
        q = "ConstraintSetTpl::" + name
        if "Jacobian" in name:
            got = blk(out, OFF, ZERO, bs(J), MC)
            want = mk("out", 1, mk("call", q, comp_(J), z, blk(P(f, 1), OFF, ZERO, bs(J), MC), sort="o"), sort="m")
        else:
            got = seg(out, OFF, bs(J))
            want = mk("out", 1, mk("call", q, comp_(J), z, mk("slot", 1), sort="o"), sort="m")
        ctx.same(name, f.where(), constrain(got, INR), want, "block j of the result is the component's operation on block j")
    f = method(u, r, "evaluate")
    if f is not None:
        s = summary(ctx, u, f, dims=dims_of(f))
        want = psum(K, NB, mk("call", "ConstraintSetTpl::evaluate", comp_(K), subst(seg(P(f, 0), OFF, bs(J)), {J: K}), sort="s"))
        ctx.same("evaluate", f.where(), s.ret, want, "sum of the components' values on their blocks")
    forward(ctx, u, r)
    ctor(ctx, u, r)


def forward(ctx, u, r):
    """own parameter and every component's"""
    f = method(u, r, "setProxParameter")
    if f is None:
        ctx.ob("prox", r.file, None, "")
        return
    s = summary(ctx, u, f)
    m = P(f, 0, "s")
    ctx.same("prox/own", f.where(), outm(s, "mu_", so="s"), m, "parameter of the product itself")
    ctx.same("prox/own-inverse", f.where(), outm(s, "mu_inv_", so="s"), inv(m), "inverse parameter of the product itself")
    es = [e for e in s.events if e.kind == "call" and e.name and e.name.split("::")[-1] == "setProxParameter"]
    ok, why = False, "no component receives the parameter"
    for e in es:
        why = "only some components receive it"
        if len(e.ctx) != 1 or e.ctx[0].N is None:
            continue
        lc = e.ctx[0]
        if e.loc is None and e.recv is None:
            continue
        loc = e.recv if e.recv is not None else None
        cell_ = loc.args[0] if loc is not None and loc.op == "init" else loc if loc is not None else e.loc
        if cell_ is None or cell_.op != "idx" or cell_.args[0] is not COMP:
            continue
        i = cell_.args[1]
        inside = and_(not_(lt(lc.bv, ZERO)), lt(lc.bv, lc.N))
        if lc.N is NB and i is lc.bv and constrain(e.pcabs, inside) is TRUE:
            ok = equal_(e.args[0], m)
            why = "components receive something else"
    ctx.ob("prox/components", f.where(), ok, "" if ok else why)
    # reached through the base interface: the base declares it virtual
    b = [g for x in u.all_bases(r) for g in x.methods if g.name == "setProxParameter"]
    ctx.ob("prox/virtual", f.where(), all(g.virtual for g in b), "the parameter is set through the base class: dispatch must reach the product")


def equal_(a, b):
    return a is b


def ctor(ctx, u, r):
    for f in u.find(C, C, 2)[:1]:
        s = summary(ctx, u, f, keep=("throw",))
        a, b = [mk("init", cell(f, i), sort="o") for i in (0, 1)]
        ctx.same("ctor/components", f.where(), outm(s, "m_components", so="o"), a, "components kept")
        ctx.same("ctor/sizes", f.where(), outm(s, "m_blockSizes", so="o"), b, "block sizes kept")
        thr = FALSE
        for e in s.events:
            if e.kind == "throw" and not e.caught:
                thr = or_(thr, e.pcabs)
        bad = ne(size(a), size(b))
        ctx.ob("ctor/throws", f.where(), thr is bad or None if unsure(thr) else thr is bad, "throws exactly when the counts differ")


def unsure(t):
    return any(x.op in ("opaque", "clob") for x in subterms(t))
