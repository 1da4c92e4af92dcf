"""Observers: callbacks, log records and the recorded history see the iterations as they were."""
from sa.terms import *
from sa.solverlib import *
from sa import loops as LP
from sa import modlib as ML

TITLE = "Callbacks, log and history"
FLOOR = 10
FIELDS = ("iter", "step_size", "inner_crit", "prim_err", "dual_err", "xreg", "dphi0", "merit", "dM", "al_iter")


def run(ctx):
    solver(ctx)
    registration(ctx)
    history(ctx)
    logger(ctx)


def solver(ctx):
    u, f, s = solve_summary(ctx)
    NI = R("num_iters")
    CB = S("callbacks_")
    n = size(ini(CB))
    loops = [lc for lc in s.loops if lc.N is None and NI in lc.back and lc.recs[1] is not None and
             any(e.kind == "store" and e.loc is NI and any(c is lc for c in e.ctx) for e in s.events)]
    inner = min(loops, key=lambda l: len(l.phis)) if loops else None
    calls = [e for e in s.events if e.kind == "call" and e.name == "call" and e.ctx and e.ctx[-1].N is not None and contains(e.ctx[-1].N, n)]
    for e in calls:
        ctx.same("callbacks/count", e.where, e.ctx[-1].N, n, "every callback is called")
    if inner is None or not calls:
        ctx.ob("callbacks", f.where(), None, "no Newton loop or no callback loop recognised")
        return
    ld = lambda st, c, so="m": constrain(s.interp.load(st, c, so), st.pc)
    step = [e for e in calls if any(c is inner for c in e.ctx)]
    end = [e for e in calls if len(e.ctx) == 1]
    for name, es, depth in (("step", step, None), ("end", end, 1)):
        ctx.ob("callbacks/%s/once" % name, es[0].where if es else f.where(), len(es) == 1,
               "callbacks are invoked exactly once %s" % ("per accepted step" if name == "step" else "at the end"))
    ctx.ob("callbacks/nowhere-else", f.where(), len(calls) == len(step) + len(end), "and nowhere else")
    exits = [b for b in [inner.recs[1]] + list(inner.recs[2]) + [r[0] for r in inner.recs[3]] if b is not None]
    # the ways on and out after a step: the step is counted
    took = [and_(b.pc, not_(eq(ld(b, NI, "i"), LP.phi_of(inner, NI)))) for b in exits]
    for e in step[:1]:
        lc = e.ctx[-1]
        ctx.ob("callbacks/step/all", e.where, not lc.recs[2] and not lc.recs[3], "no callback is left out")
        done = or_(*took)
        ctx.under("callbacks/step/when", e.where, TRUE, lc.entry.pc, done, "every iteration that takes a step, and no other")
        for name, so, w in (("x_opt", "m", "point"), ("data_lams_opt", "m", "multipliers"), ("merit", "s", "merit")):
            for k, b in enumerate(exits):
                if took[k] is not FALSE:
                    ctx.under("callbacks/step/sees/%s/%d" % (name, k), e.where, took[k], s.interp.load(lc.entry, R(name), so), s.interp.load(b, R(name), so),
                          "callbacks see the %s the iteration ends with" % w)
        v = recv(s, e)
        if v.op == "phi" and isinstance(v.args[1], Term):
            v = mk("init", v.args[1], sort="o")
        late = [x for x in s.events if x.kind == "store" and x.loc is not None and x.seq > e.seq and any(c is inner for c in x.ctx) and lc not in x.ctx
                and x.loc in (R("x_opt"), R("data_lams_opt"), R("merit"), R("value"), R("prim_infeas"), R("dual_infeas")) and x.value is not x.old]
        ctx.ob("callbacks/step/last", e.where, not late, "the results of the iteration are complete: %s stored afterwards" % ", ".join(show(x.loc, 3) for x in late))
        ctx.same("callbacks/step/which", e.where, v, mk("init", mk("idx", CB, lc.bv), sort="o"), "the callbacks are called in the order they were added")
    for e in end[:1]:
        lc = e.ctx[-1]
        ctx.ob("callbacks/end/all", e.where, not lc.recs[2] and not lc.recs[3], "no callback is left out")
        for name, so, w in (("x_opt", "m", "point"), ("data_lams_opt", "m", "multipliers"), ("prim_infeas", "s", "primal infeasibility"),
                            ("dual_infeas", "s", "dual infeasibility"), ("num_iters", "i", "iteration count"), ("converged", "i", "status")):
            ctx.same("callbacks/end/sees/" + name, e.where, s.interp.load(lc.entry, R(name), so), s.value(R(name), so),
                     "callbacks see the %s solve returns with" % w)
        ctx.same("callbacks/end/when", e.where, lc.entry.pc, s.final.pc, "on every solve that returns")
    logs = [e for e in s.events if e.kind == "call" and e.name == "log" and e.recv is S("logger")]
    ctx.ob("log/once", logs[0].where if logs else f.where(), len(logs) == 1 if logs else False, "one log record per accepted step")
    for e in logs[:1]:
        ctx.under("log/when", e.where, TRUE, e.pc, or_(*took), "logged for every iteration that takes a step")
        a = e.args[0] if e.args else None
        vals = fields(a)
        if vals is None:
            ctx.ob("log/record", e.where, None, "record not recognised: %s" % show(a, 4))
            return
        runs = [x for x in s.events if x.kind == "call" and x.name == "run"]
        rr = runs[0] if len(runs) == 1 else None
        L = lambda c, so="s": constrain(s.interp.load(e.st, c, so), e.pc)
        phi = lambda c: LP.phi_of(inner, c)
        want = {"iter": add(phi(NI), ONE), "step_size": L(W("alpha_opt")), "prim_err": L(R("prim_infeas")), "dual_err": L(R("dual_infeas")),
                "merit": L(R("merit")), "dphi0": L(W("dmerit_dir")), "al_iter": add(L(R("al_iters"), "i"), ONE)}
        texts = {"iter": "one-based iteration number", "step_size": "accepted step length", "prim_err": "primal infeasibility", "dual_err": "dual infeasibility",
                 "merit": "merit at the new point", "dphi0": "directional derivative of the merit", "al_iter": "one-based outer iteration number"}
        for k, w in want.items():
            if k in vals:
                ctx.same("log/record/" + k, e.where, constrain(vals[k], e.pc), w, "the record's %s is the %s" % (k, texts[k]))
            else:
                ctx.ob("log/record/" + k, e.where, None, "no such field")
        if rr is not None and len(rr.args) > 2 and "dM" in vals:
            new = constrain(vals["merit"], e.pc)
            old = constrain(rr.args[1], e.pc)
            ctx.same("log/record/dM", e.where, constrain(vals["dM"], e.pc), add(new, neg(old)), "the record's dM is the change of merit")
        heads = [x for x in s.events if x.kind == "store" and x.loc is W("kkt_rhs") and any(c is inner for c in x.ctx)]
        stops = [b for b, t in zip(exits, took) if t is FALSE]
        if stops and "inner_crit" in vals:
            rhs = constrain(s.interp.load(stops[0], W("kkt_rhs"), "m"), e.pc)
            ctx.same("log/record/inner_crit", e.where, constrain(vals["inner_crit"], e.pc), constrain(infnorm(rhs), e.pc),
                     "the record's inner criterion is the residual tested before the step")
    starts = [e for e in s.events if e.kind == "call" and e.name == "start" and e.recv is S("logger")]
    ctx.ob("log/start", starts[0].where if starts else f.where(), len(starts) == 1 and not starts[0].ctx, "the header is printed once, before the iterations")


def recv(s, e):
    r = e.recv
    if r is None:
        return opaque("recv")
    v = r.args[0] if r.op == "val" else s.interp.load(e.st, r, "o")
    return constrain(v, e.pcabs)


def fields(a):
    """{field: value} of an aggregate"""
    if a is None or a.op != "struct":
        return None
    names = next((x for x in a.args if isinstance(x, tuple)), None)
    vs = [x for x in a.args if isinstance(x, Term)]
    if names is None or len(names) != len(vs):
        return None
    return dict(zip(names, vs))


def registration(ctx):
    u = ctx.unit("solver")
    r = u.record("ProxNLPSolverTpl")
    CB = ML.mcell("callbacks_")
    f = ML.method(u, r, "registerCallback", 1)
    if f is not None:
        s = ML.summary(ctx, u, f)
        ctx.same("register", f.where(), s.value(CB, "o"), mk("app", ini(CB), ML.P(f, 0, "o"), sort="o"), "registering adds the callback after the others")
    f = ML.method(u, r, "clearCallbacks", 0)
    if f is not None:
        s = ML.summary(ctx, u, f)
        ctx.same("clear", f.where(), s.value(CB, "o"), mk("emptyvec", sort="o"), "clearing removes them all")


def history(ctx):
    u = ctx.unit("solver")
    for r in u.recname.get("history_callback", ()):
        f = next((m for m in r.methods if m.name == "call" and m.body is not None), None)
        if f is None or len(f.params) != 2:
            continue
        for g in ML.ctor(u, r, 3):
            c = ML.summary(ctx, u, g)
            for i, n in enumerate(("store_primal_dual_vars_", "store_values_", "store_residuals_")):
                ctx.same("history/option/" + n, g.where(), ML.outm(c, n, so="b"), ML.P(g, i, "b"), "the recording option given")
        it = ML.interp(u, f)
        reads = []
        orig = it.lv_CXXOperatorCallExpr

        def subscript(n, st, fr):
            loc = orig(n, st, fr)
            if loc is not None and loc.op == "idx" and loc.args[1].op == "num":
                reads.append((loc, st.pc, it.container_size(st, loc.args[0])))
            return loc
        it.lv_CXXOperatorCallExpr = subscript
        s = ctx.saw(it.run(f))
        where = f.where()
        ws, rs = ML.cell(f, 0), ML.cell(f, 1)
        for loc, pc, n in dict.fromkeys(reads):
            ctx.implied("history/bounds/" + show(loc, 6), where, pc, lt(loc.args[1], n), "no element of a possibly empty vector is read")
        st = ML.mcell("storage")
        col = lambda n: mk("fld", st, n)
        pd, va, re = [ML.M(n, so="b") for n in ("store_primal_dual_vars_", "store_values_", "store_residuals_")]
        rv = lambda n, so: mk("init", mk("fld", rs, n), sort=so)
        wv = lambda n, so: mk("init", mk("fld", ws, n), sort=so)
        for n, flag, v in (("xs", pd, rv("x_opt", "m")), ("lams", pd, rv("data_lams_opt", "m")), ("values", va, rv("value", "s")),
                           ("prim_infeas", re, rv("prim_infeas", "s")), ("dual_infeas", re, rv("dual_infeas", "s")),
                           ("alphas", TRUE, wv("alpha_opt", "s")), ("dmerit_dir", TRUE, wv("dmerit_dir", "s"))):
            old = ini(col(n))
            got = s.value(col(n), "o")
            ctx.same("history/%s" % n, where, constrain(got, flag), mk("app", old, v, sort="o"), "one more entry, the value at the time of the call")
            if flag is not TRUE:
                ctx.same("history/%s/off" % n, where, constrain(got, not_(flag)), old, "nothing is stored when switched off")
        for n in ("ls_alphas", "ls_values"):
            got = s.value(col(n), "o")
            ctx.ob("history/" + n, where, True if got.op == "app" and got.args[0] is ini(col(n)) else None, "one more entry")
        got = constrain(s.value(col("lams_view"), "o"), pd)
        if got.op != "app" or got.args[0] is not ini(col("lams_view")):
            ctx.ob("history/lams_view", where, None, "not one more entry: %s" % show(got, 6))
            continue
        v = got.args[1]
        if v.op == "addr":
            v = constrain(s.interp.load(s.final, v.args[0], "o"), pd)
        live = {ML.root(x.args[0]) for x in subterms(v) if x.op == "addr"} & {ws, rs} | \
               ({rs} if v is rv("lams_opt", "o") or v.op == "comp" and any(x.op == "init" and x.args[0].op == "idx" and x is v.args[1] for x in subterms(v)) else set())
        ctx.ob("history/lams_view/own", where, not live, "recorded views refer to the record, not to the live workspace or results: %s" % show(v, 8))
        N = size(rv("lams_opt", "o"))
        J, K = ranged("hist", N), mk("bv", "k", sort="i")
        dim = lambda k: size(mk("init", mk("idx", mk("fld", rs, "lams_opt"), k), sort="m"))
        want = mk("addr", mk("vw", mk("idx", col("lams"), size(ini(col("lams")))), mk("vseg", psum(K, J, dim(K)), dim(J))))
        if v.op == "comp":
            ctx.same("history/lams_view/count", where, v.args[0], N, "one view per constraint")
            ctx.same("history/lams_view/segment", where, inst(v, v.args[1], J), want, "the rows of each constraint, one after the other")
        elif v.op == "phiout" and any(running(ctx, s, l, v, dim, where) for l in s.loops):
            pass
        else:
            ctx.ob("history/lams_view/segment", where, None, "shape not recognised: %s" % show(v, 6))


def running(ctx, s, lc, v, dim, where):
    """views taken one after the other with a running offset"""
    c = v.args[1]
    b = lc.back.get(c)
    if b is None or b.op != "app" or b.args[1].op != "addr" or b.args[1].args[0].op != "vw":
        return False
    d = b.args[1].args[0].args[1]
    if d.op != "vseg" or d.args[0].op != "phi" or not isinstance(d.args[0].args[1], Term):
        return False
    o = d.args[0].args[1]
    ctx.same("history/lams_view/first", lc.where, s.interp.load(lc.entry, o, "i"), ZERO, "the first view starts at the first row")
    ctx.same("history/lams_view/next", lc.where, lc.back.get(o, d.args[0]), add(d.args[0], dim(lc.bv)), "each view starts where the one before ends")
    ctx.same("history/lams_view/rows", lc.where, d.args[1], dim(lc.bv), "and has the rows of its constraint")
    return True


def logger(ctx):
    u = ctx.unit("all")
    for r in u.recname.get("BaseLogger", ()):
        f = ML.method(u, r, "log", 1)
        if f is None:
            continue
        s = ML.summary(ctx, u, f)
        act = ML.M("active", so="b")
        for k, e in enumerate(x for x in s.events if x.kind == "call" and x.name == "print"):
            ctx.implied("print/active/%d" % k, e.where, e.pcabs, act, "an inactive logger prints nothing")
        cols = [e for e in s.events if e.kind == "call" and e.name == "push_back"]
        if cols:
            line = FALSE
            for e in s.events:
                if e.kind == "call" and e.name == "print" and e.seq > cols[-1].seq:
                    line = or_(line, e.pcabs)
            ctx.implied("print/record", f.where(), act, line, "an active logger prints every record it is given")
        keys = next((list(strings(n)) for n, ns, rec in u.vars.values() if n.get("name") == "BASIC_KEYS"), None)
        cols = [e for e in s.events if e.kind == "call" and e.name == "push_back"]
        if not keys or len(cols) != len(keys):
            ctx.ob("columns", f.where(), None, "columns not recognised")
            continue
        for k, (key, e) in enumerate(zip(keys, cols)):
            used = {x.args[1] for x in subterms(e.args[0]) if x.op == "fld" and x.args[1] in FIELDS} | \
                   {x.args[0].args[1] for x in subterms(e.args[0]) if x.op == "init" and x.args[0].op == "fld" and x.args[0].args[1] in FIELDS}
            ctx.ob("columns/%d" % k, e.where, (used == {key}) if key in FIELDS and used else None, "column %s prints the field of that name, got %s" % (key, sorted(used)))


def strings(n):
    if n.get("kind") == "StringLiteral":
        yield n.get("value", "").strip('"')
    else:
        for c in n.get("inner") or ():
            yield from strings(c)
