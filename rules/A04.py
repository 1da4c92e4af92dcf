"""Freshness: no value that an earlier solve left behind reaches a decision, a result or an
exception of the next one.  Dependence closure over the whole-solve summary: every observable is
traced through loop-carried values back to what the solve was entered with."""
from sa.terms import *
from sa.solverlib import *
from sa import loops as LP
from sa.interp import root

TITLE = "A solve depends only on its inputs"
FLOOR = 12


def run(ctx):
    u = ctx.unit("solver")
    f = solve_fn(u)
    for nm, d in (("EXACT", 0), ("GAUSS_NEWTON", 1), ("IDENTITY", 3)):
        s = ctx.saw(summary(u, f, keep=("store", "call", "throw"), pre={S("hess_approx"): enum(u, nm, d)}))
        closure(ctx, u, f, s, nm.lower())
    packing(ctx, u)


def full(t):
    """an element-wise write of every constraint's rows leaves nothing of the old contents"""
    def rw(x):
        if x.op == "updn" and x.args[0] is NB and len(x.args) >= 4:
            v, k = x.args[1], binder_var(x)
            b = x.args[-1]
            if v.op == "vseg" and v.args[0] is IDX(k) and v.args[1] is DIM(k) or \
                    v.op == "vblk" and v.args[0] is IDX(k) and v.args[2] is DIM(k) and v.args[1] is ZERO and v.args[3] is ND or \
                    v.op == "vblk" and v.args[0] is mul(k, ND) and v.args[2] is ND and v.args[1] is ZERO and v.args[3] is ND:
                return b
        return None
    return rw(t)


def closure(ctx, u, f, s, tag):
    it = s.interp
    mod = set()
    for e in s.events:
        ls = [e.loc] if e.kind == "store" else [o[0] for o in (e.outs or ())] if e.kind == "call" else []
        for l in ls:
            mod.add(it.decomp(l)[0])
    mod = {m for m in mod if root(m) is THIS or root(m).op == "static"}
    loops = {lc.id: lc for lc in s.loops}
    outer = next((lc for lc in s.loops if lc.N is None and R("al_iters") in lc.phis), None)
    given = TRUE
    if outer is not None:
        l0 = it.load(outer.entry, R("data_lams_opt"), "m")
        if l0.op == "ite":
            given = l0.args[0]
            if l0.args[1].op == "init" and it.decomp(l0.args[1].args[0])[0] in mod:
                given = not_(given)
        x0 = it.load(outer.entry, R("x_opt"), "m")
        ctx.ob("start/x0/%s" % tag, outer.where, None if unk(x0) else is_param(x0, f, 0), "the first iterate is the given point, got %s" % show(x0, 5))
        l1 = constrain(l0, given)
        ctx.ob("start/lams0/%s" % tag, outer.where, None if unk(l1) else is_param(l1, f, 1), "the first multipliers are the given ones, got %s" % show(l1, 5))
        lp = constrain(it.load(outer.entry, W("data_lams_prev"), "m"), given)
        ctx.ob("start/lams-prev/%s" % tag, outer.where, None if unk(lp) else is_param(lp, f, 1), "the reference multipliers start at the given ones")
    obs = []
    for c, v in s.final.store.items():
        if c.op == "fld" and c.args[0] is RS:
            obs.append(("result/" + c.args[1], v, f.where(), True))
    if s.ret is not None:
        obs.append(("result/status", s.ret, f.where(), True))
    for k, lc in enumerate(s.loops):
        if lc.cond is not None:
            obs.append(("iteration/%d" % k, lc.cond, lc.where, False))
        for j, b in enumerate(lc.recs[2]):
            obs.append(("iteration/%d/%d" % (k, j), b.pc, lc.where, False))
        for j, b in enumerate(lc.recs[3]):
            obs.append(("iteration/%d/r%d" % (k, j), b[0].pc, lc.where, False))
    for k, e in enumerate(e for e in s.events if e.kind == "throw"):
        obs.append(("exception/%d" % k, e.pcabs, e.where, False))
    memo = {}
    for key, t, where, top in obs:
        stale = trace(it, t, mod, loops, outer, given, top, memo)
        real = sorted({show(x) for x, why in stale})
        ctx.ob("%s/%s" % (key, tag), where, not real,
               "depends on what an earlier solve left in %s (through %s)" % (", ".join(real[:4]), " <- ".join(stale[0][1][:6]) if stale else ""))


def unk(t):
    return any(x.op in ("opaque", "clob") for x in subterms(t))


def is_param(t, f, k):
    nm = f.params[k].get("name")
    return any(x.op == "init" and nm in show(x) for x in subterms(t)) and show(t).strip() == nm


def trace(it, t, mod, loops, outer, given, top, memo):
    out = []
    seen = set()
    st = [(t, top, [])]
    while st:
        t, top, why = st.pop()
        if (t, top) in seen:
            continue
        seen.add((t, top))
        if t.op == "ite" and given is not TRUE and contains(t.args[0], given.args[0] if given.op == "lt0" or given.op == "eq0" else given):
            t2 = constrain(t, given)
            if t2 is not t:
                st.append((t2, top, why))
                continue
        if t.op == "phi":
            lc = loops.get(t.args[0])
            if lc is None:
                continue
            c = t.args[1]
            w = why + [show(t)[:60]]
            if c in lc.back and lc.recs[1] is not None:
                st.append((lc.back[c], False, w))
            # what the last iteration recorded: a solve that runs no iteration has no results
            if not (top and lc is outer):
                so = t.sort if t.sort in ("m", "s", "i", "b", "o") else "m"
                st.append((it.load(lc.entry, c, so), False, w))
            continue
        if t.op == "phiout":
            lc = loops.get(t.args[0])
            if lc is not None:
                c = t.args[1]
                w = why + [show(t)[:60]]
                for s2 in [b for b in lc.recs[2]] + [r[0] for r in lc.recs[3]] + [lc.recs[1]]:
                    if s2 is not None and isinstance(c, Term):
                        st.append((it.load(s2, c, t.sort), False, w))
                st.append((it.load(lc.entry, c, t.sort), False, w))
            continue
        if t.op == "init":
            c = it.decomp(t.args[0])[0]
            if (c in mod or c not in (RS, WS) and under(mod, c)) and not ignored(t.args[0]):
                out.append((t, why))
            continue
        if t.op == "with":
            # an object value: parts replaced since entry are followed, the rest is as it was
            done, b = set(), t
            while b.op == "with":
                if b.args[1] not in done:
                    st.append((b.args[2], False, why))
                done.add(b.args[1])
                b = b.args[0]
            if b.op == "init":
                c = it.decomp(b.args[0])[0]
                if c in (RS, WS):       # the pointer itself
                    continue
                for m in under(mod, c):
                    if first_field(m, c) not in done and not ignored(m):
                        out.append((mk("init", m, sort="m"), why))
            else:
                st.append((b, False, why))
            continue
        if t.op == "after" and t.args[0].op == "call" and t.args[0].args[0].endswith("::compute"):
            # a factorisation depends on the matrix only (linear algebra rule)
            for x in children(t.args[0])[1:] if isinstance(children(t.args[0]), list) else list(children(t.args[0]))[1:]:
                st.append((x, False, why))
            continue
        b = full(t)
        for x in children(t):
            if x is not b:
                st.append((x, top and t.op == "ite", why))
    return out


_under = {}


def under(mod, c):
    """modified parts of an object"""
    k = (id(mod), c)
    if k not in _under:
        _under[k] = (mod, [m for m in mod if m is not c and not below(m, CS) and first_field(m, c) is not None])
    return _under[k][1]


def below(m, c):
    """penalties held by the constraint sets: set at the start of each solve (A03)"""
    return first_field(m, c) is not None


def first_field(m, c):
    while m.op in ("fld", "idx", "vw"):
        if m.args[0] is c:
            return m.args[1]
        m = m.args[0]
    return None


def ignored(c):
    while c.op in ("fld", "idx", "vw"):
        if c is S("logger") or c is S("callbacks_"):
            return True
        c = c.args[0]
    return False


def packing(ctx, u):
    """solve(x0, list of multipliers): each list entry lands in its constraint's segment"""
    fs = [f for f in u.find("ProxNLPSolverTpl", "solve") if f is not solve_fn(u)]
    for f in fs:
        it = interp(u, ("store", "call", "throw"), noinline=NOINLINE + ("solve",))
        s = ctx.saw(it.run(f, pre=dict(PRE)))
        cs = [e for e in s.events if e.kind == "call" and e.name == "solve"]
        ctx.ob("packing/delegates", f.where(), True if len(cs) == 1 else None, "")
        for e in cs:
            nm0, nm1 = f.params[0].get("name"), f.params[1].get("name")
            i = ranged("i", NB)
            v = constrain(e.args[1], e.pc)
            for at in STARTS(i):
                got = seg(v, at, DIM(i))
                lists = [x for x in subterms(got) if x.op == "init" and x.args[0].op == "idx" and x.args[0].args[1] is i and nm1 in show(x.args[0].args[0])]
                if got in lists or any(got is seg(x, ZERO, DIM(i)) for x in lists):
                    break
            ctx.ob("packing/slot", e.where, None if unk(got) else got in lists or any(got is seg(x, ZERO, DIM(i)) for x in lists),
                   "multipliers of constraint i go to its own rows, got %s" % show(got, 7))
            ctx.ob("packing/x0", e.where, None if unk(e.args[0]) else show(e.args[0]).strip() == nm0, "the initial guess is passed on")
            for L in {x.args[0].args[0] for x in lists}:
                n = size(mk("init", L, sort="o"))
                thr = or_(FALSE, *[x.pcabs for x in s.events if x.kind == "throw"])
                ctx.holds("packing/count", e.where, or_(eq(NB, n), thr), "a wrong number of multipliers must be refused")
