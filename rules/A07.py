"""The line search returns a step it evaluated together with the merit value it obtained there,
accepts exactly on sufficient decrease (or the smallest step), proposes safeguarded minimisers of the
interpolating polynomial, and the solver takes the step it was handed."""
from sa.terms import *
from sa.solverlib import *
from sa.interp import closure_of
from sa import loops as LP
from rules import A05
from rules.A02 import measure

TITLE = "Line search"
FLOOR = 6
PHI0, DPHI0 = mk("init", mk("param", 1, "phi0"), sort="s"), mk("init", mk("param", 2, "dphi0"), sort="s")


def opt(n, s="s"): return ini(F(THIS, "options_", n), s)


def run(ctx):
    u = ctx.unit("solver")
    polynomial(ctx, u)
    for f in u.find("ArmijoLinesearch", "run"):
        if len(f.params) == 4 and f.body is not None:
            search(ctx, u, f)
            break
    else:
        ctx.ob("search", "", None, "no run")
    accept(ctx)


def param(f, i, so="s"): return mk("init", mk("param", i, f.params[i].get("name", "_%d" % i)), sort=so)


def polynomial(ctx, u):
    """Horner evaluation in decreasing order of degree; derivative coefficients"""
    C = F(THIS, "coeffs")
    c = ini(C, "m")
    for f in u.find("PolynomialTpl", "evaluate")[:1]:
        a = param(f, 0)
        for n in (1, 2, 3, 4):
            # for a polynomial with n coefficients the loop is a chain: follow it
            vs = [mk("init", mk("c%d" % k), sort="s") for k in range(n)]
            s = ctx.saw(summary(u, f, pre={C: mk("veclit", *vs, sort="m")}))
            lc = s.loops[0] if len(s.loops) == 1 else None
            want = vs[0]
            for v in vs[1:]:
                want = want * a + v
            got = unroll(s, lc, n) if lc is not None else s.ret
            ctx.same("poly/evaluate/%d" % n, f.where(), got, want, "value of the polynomial with %d coefficients" % n)
    for f in u.find("PolynomialTpl", "derivative")[:1]:
        s = ctx.saw(summary(u, f))
        i = mk("bv", "i", sort="i")
        r = s.ret
        got = None
        if r is not None:
            cs = s.interp.getf(s.final, r, "coeffs", "m")
            n = size(c)
            got = constrain(elt(cs, i), and_(not_(lt(i, ZERO)), lt(i, n - 1), not_(eq(n, ONE))))
            const = eq(n, ONE)
            ctx.same("poly/derivative/size", f.where(), constrain(size(cs), not_(const)), n - 1, "one coefficient fewer")
            flat = constrain(cs, const)
            ctx.same("poly/derivative/constant", f.where(), constrain(elt(flat, ZERO), const), ZERO, "the derivative of a constant is zero")
        ctx.same("poly/derivative", f.where(), got, elt(c, i) * (n - 1 - i) if got is not None else None, "coefficient i of the derivative")


def unroll(s, lc, n):
    """value returned after n rounds of the only loop"""
    if lc is None or lc.recs[1] is None or lc.recs[2] or lc.recs[3]:
        return None
    mp = {}
    for c, p in lc.phis.items():
        ph = LP.phi_of(lc, c)
        mp[ph] = s.interp.load(lc.entry, c, ph.sort)
    k = 0
    while k < 12:
        go = subst(lc.cond, mp) if lc.cond is not None else TRUE
        if lc.bv is not None:
            go = subst(go, {lc.bv: num(k)})
        if go is FALSE:
            break
        if go is not TRUE:
            return None
        new = {}
        for c in lc.phis:
            ph = LP.phi_of(lc, c)
            v = subst(lc.back[c], mp) if c in lc.back else mp[ph]
            if lc.bv is not None:
                v = subst(v, {lc.bv: num(k)})
            new[ph] = v
        mp = new
        k += 1
    r = s.ret
    po = {}
    for x in subterms(r):
        if x.op == "phiout":
            c = x.args[1]
            ph = LP.phi_of(lc, c)
            if ph in mp:
                po[x] = mp[ph]
    r = subst(r, {**po, **mp})
    return r


def search(ctx, u, f):
    it = interp(u, keep=("store", "call", "throw"), noinline=set(NOINLINE) - {"run"} | {"evaluate"})
    s = ctx.saw(it.run(f))
    w = f.where()
    PF = mk("init", mk("param", 0, f.params[0].get("name")), sort="o")
    p0, d0 = param(f, 1), param(f, 2)
    AL = mk("param", 3, f.params[3].get("name"))
    fn = [e.value for e in s.events if e.kind == "call" and e.name == "operator()" and e.value.op == "call"]
    if not fn:
        ctx.ob("search", w, None, "the merit function is never called")
        return
    head = fn[0].args[:-1]

    def phi(a):
        if a.op == "ite":
            return map_leaves(a, phi)
        return mk("call", *head, a, sort=fn[0].sort)
    amin, ms = opt("alpha_min"), opt("max_num_steps", "i")
    main = [lc for lc in s.loops if lc.recs[1] is not None and any(lc.pc is not None for _ in (0,)) and lc.N is ms]
    rest = [lc for lc in s.loops if lc not in main and not (lc.N is not None and not LP.varies(lc.N, lc))]
    if not main:
        cand = [lc for lc in s.loops if lc.recs[1] is not None and any(b for b in lc.recs[2]) and
                any(x.op == "init" and x.args[0] is F(THIS, "options_", "armijo_c1") for b in lc.recs[2] for x in subterms(b.pc))]
        if len(cand) == 1:
            lc = cand[0]
            if lc.N is not None:
                ctx.same("budget", lc.where, lc.N, ms, "number of candidate steps")
            else:
                m = measure(ctx, u, s, lc, {})
                ctx.ob("budget", lc.where, True if m and "max_num_steps" in m else None, m or "no measure")
            main = [lc]
            rest = [x for x in rest if x is not lc]
        else:
            ctx.ob("budget", w, None, "no main loop")
    else:
        ctx.ob("budget", main[0].where, True, "at most max_num_steps candidate steps")
    # first loop(s): geometric backtracking down to alpha_min
    for k, lc in enumerate(rest):
        back = lc.recs[1]
        if back is None:
            ctx.ob("backtrack/terminates/%d" % k, lc.where, True, "")
            continue
        done = None
        for c in lc.phis:
            old = LP.phi_of(lc, c)
            new = lc.back.get(c)
            if old.sort != "s" or new is None:
                continue
            new = constrain(new, back.pc)
            from sa.randterm import implied
            if implied(and_(back.pc, lt(ZERO, old)), and_(le(ZERO, new), le(new, mul(num(Fraction(9, 10)), old)))):
                if implied(back.pc, lt(amin, new)) or implied(back.pc, lt(amin, old)):
                    done = c
        ctx.ob("backtrack/terminates/%d" % k, lc.where, True if done is not None else None if any(unknown_op(lc.back.get(c)) for c in lc.phis) else False,
               "backtracking after a failed evaluation shrinks the step by a fixed factor and stops at alpha_min")
        if done is not None:
            for j, e in enumerate(e for e in s.events if e.kind == "call" and e.name == "operator()" and e.ctx and e.ctx[-1].node is lc.node):
                x = e.value.args[-1]
                hs = {y for y in subterms(x) if y.op == "phi" and y.args[0] == lc.id}
                if hs:
                    new = subst(x, {y: lc.back.get(y.args[1], y) for y in hs})
                    ctx.implied("backtrack/evaluated/%d.%d" % (k, j), e.where, back.pc, le(amin, new), "no step below the smallest one is evaluated")
                else:
                    ctx.implied("backtrack/evaluated/%d.%d" % (k, j), e.where, and_(e.pc, lt(ZERO, amin)), le(amin, x), "no step below the smallest one is evaluated")
            ctx.same("backtrack/first/%d" % k, lc.where, s.interp.load(lc.entry, done, "s"), ONE, "the first step tried is the full step")
    # pairs (step, merit value there) carried by the main loop
    inv = {}
    pairs = []
    for lc in main:
        sc = [c for c in lc.phis if LP.phi_of(lc, c).sort == "s"]
        for P in sc:
            for A in sc:
                if A is P:
                    continue
                pa, pp = LP.phi_of(lc, A), LP.phi_of(lc, P)
                e_a, e_p = s.interp.load(lc.entry, A, "s"), s.interp.load(lc.entry, P, "s")
                e_p, e_a = [constrain(x, lc.entry.pc) for x in (e_p, e_a)]
                if not same(e_p, phi(e_a)):
                    continue
                b_a, b_p = [oob(constrain(x, lc.recs[1].pc)) for x in (lc.back.get(A), lc.back.get(P))]
                if same(subst(b_p, {pp: phi(pa)}), subst(phi(b_a), {pp: phi(pa)}), subst(oob(lc.recs[1].pc), {pp: phi(pa)})):
                    pairs.append((lc, A, P))
                    inv[mk("phiout", lc.id, P, sort="s")] = phi(mk("phiout", lc.id, A, sort="s"))
                    inv[pp] = phi(pa)
    fin_a, ret = oob(s.interp.load(s.final, AL, "s")), oob(s.ret)
    if not unknown_op(fin_a, ("phiout",)) and not unknown_op(ret, ("phiout",)):
        got = fixpo(ret, inv)
        ctx.same("value-of-step", w, got, fixpo(phi(fin_a), inv), "the value returned is the merit function at the step returned")
    else:
        ctx.ob("value-of-step", w, None, "")
    for lc in main:
        for n in (1, 2):
            g = rounds(s, lc, n)
            if g is not None:
                ctx.same("value-of-step/budget-%d" % n, w, g(ret), g(phi(fin_a)), "with a budget of %d, the value returned is the merit function at the step returned" % n)
    if not pairs:
        ctx.ob("pair", w, None, "no carried (step, value) pair recognised")
        return
    # the latest pair: the one the loop tests
    lc, A, P = pairs[0]
    for q in pairs:
        if any(contains(b.pc, LP.phi_of(q[0], q[2])) for b in q[0].recs[2]):
            lc, A, P = q
            break
    a, p = LP.phi_of(lc, A), LP.phi_of(lc, P)
    c1 = opt("armijo_c1")

    def armijo(x, v): return le(v - p0, c1 * x * d0)
    for k, br in enumerate(lc.recs[2]):
        x, v = [oob(constrain(s.interp.load(br, c, "s"), br.pc)) for c in (A, P)]
        ctx.implied("accept/%d" % k, lc.where, oob(br.pc), or_(armijo(x, v), le(x, amin)),
                    "the search stops only at a step of sufficient decrease or at the smallest step")
    ctx.implied("accept/at-once", lc.where, oob(lc.recs[1].pc), not_(armijo(a, p)), "a step of sufficient decrease ends the search")
    thr = opt("dphi_thresh")
    absd = maxmin("max", [d0, -d0])
    ctx.implied("threshold/search", lc.where, lc.entry.pc, not_(lt(absd, thr)), "steps are searched only when the slope is not negligible")
    quiet = {x: FALSE for x in subterms(lc.entry.pc) if x.op == "threw"}
    ctx.implied("threshold/always", lc.where, not_(lt(absd, thr)), subst(lc.entry.pc, quiet), "the full step is taken unexamined only when the slope is negligible")
    # candidates
    cand_ev = [e for e in s.events if e.kind == "call" and e.name == "operator()" and e.ctx and e.ctx[-1].node is lc.node]
    T = next((e for e in cand_ev), None)
    plus = {}

    def same2(key, got, want, what):
        """also at positive steps and factors, with no smallest step"""
        ctx.same(key, T.where, got, want, what)
        ctx.same(key + "/positive", T.where, *[subst(x, plus) if x is not None else None for x in (got, want)], what)
    if T is None or len(cand_ev) != 1:
        ctx.ob("candidate", lc.where, None, "%d evaluations per round" % len(cand_ev))
        return
    got = oob(constrain(T.value.args[-1], T.pc))
    a_try = None
    prev = None
    for c in lc.phis:
        b = oob(constrain(lc.back.get(c), lc.recs[1].pc)) if lc.back.get(c) is not None else None
        if b is None or c in (A, P):
            continue
        if options(b) <= {a, LP.phi_of(lc, c)} and a in options(b):
            prev = (c, prev[1]) if prev else (c, None)
        elif options(b) <= {p, LP.phi_of(lc, c)} and p in options(b):
            prev = (prev[0], c) if prev else (None, c)
        elif b is got or same(b, got):
            a_try = LP.phi_of(lc, c)
    if a_try is None:
        a_try = a
    got = linear(polys(got))
    strat = opt("interp_type", "i")
    lo, hi = opt("contraction_min") * a_try, opt("contraction_max") * a_try
    qa = (p - p0 - a * d0) / (a * a)
    quad = edge(-d0 / (2 * qa), lo, hi, [qa, d0, p0])
    nan = lambda x: mk("call", "isnan", x, sort="b")

    for x in {a, a_try, opt("contraction_min"), opt("contraction_max")}:
        plus[x] = maxmin("max", [x, -x])
    plus[amin] = ZERO
    for name, val, want in (("bisection", 0, a_try / 2), ("quadratic", 1, quad)):
        e = enum(u, name.upper(), val)
        g = subst(got, {strat: e})
        same2("candidate/" + name, denan(g), maxmin("max", [amin, want]), "%s candidate" % name)
    if prev is None or prev[0] is None or prev[1] is None:
        g = denan(subst(got, {strat: enum(u, "CUBIC", 2)}))
        ctx.ob("candidate/cubic", T.where, False if same(g, maxmin("max", [amin, quad])) else None,
               "no previous sample is kept: the cubic strategy never interpolates a cubic")
        return
    a1, p1 = LP.phi_of(lc, prev[0]), LP.phi_of(lc, prev[1])
    plus[a1] = maxmin("max", [a1, -a1])
    b0, b1 = p - p0 - d0 * a, p1 - p0 - d0 * a1
    m00, m01, m10, m11 = a * a * a, a * a, a1 * a1 * a1, a1 * a1
    det = m00 * m11 - m01 * m10
    c3, c2 = (b0 * m11 - m01 * b1) / det, (m00 * b1 - m10 * b0) / det
    x = (-c2 + call("sqrt", c2 * c2 - 3 * c3 * d0, sort="s")) / (3 * c3)
    cub = edge(x, lo, hi, [c3, c2, d0, p0])
    g = subst(got, {strat: enum(u, "CUBIC", 2)})
    # the first round has no previous sample; every later one has
    bools = [y for y in subterms(g) if y.op == "phi" and y.args[0] == lc.id and y.sort in ("b", "i") and y.args[1] in lc.phis
             and LP.phi_of(lc, y.args[1]) is y and s.interp.load(lc.entry, y.args[1], y.sort) in (TRUE, FALSE)]
    at0 = {y: s.interp.load(lc.entry, y.args[1], y.sort) for y in bools + [a1, p1]}
    late = {y: TRUE if at0[y] is FALSE else FALSE for y in bools}
    pc = lt(ZERO, a1)
    if lc.bv is not None:
        at0[lc.bv] = ZERO
        pc = and_(pc, not_(lt(lc.bv, ONE)))
    first = denan(subst(g, at0))
    later = denan(constrain(subst(g, late), pc))
    same2("candidate/cubic-first", first, maxmin("max", [amin, quad]), "cubic: with one sample the quadratic candidate is used")
    same2("candidate/cubic", later, maxmin("max", [amin, cub]), "cubic candidate from the last two samples")
    g = nanpart(got)
    for x in [x for x in subterms(got) if x.op == "call" and x.args[0] == "isnan" or x.op == "isnan"]:
        y = x.args[-1]
        ctx.same("candidate/nan-test", T.where, constrain(got, not_(x)), constrain(maxmin("max", [amin, y]), not_(x)), "it is the candidate that is tested")
    if g is not None:
        ctx.implied("candidate/nan", T.where, TRUE, or_(*[eq(g, x) for x in (maxmin("max", [amin, opt("contraction_min") * a]),)]),
                    "an undefined candidate is replaced by the largest contraction of the latest step")
    else:
        ctx.ob("candidate/nan", T.where, None, "")


def rounds(s, lc, n):
    """what terms read after (or at the end of) a counted loop stand for when it runs at most n times: the rounds are
    composed, a quantifier over the rounds is the conjunction of its n instances"""
    if lc.N is None or lc.bv is None or lc.recs[1] is None or lc.recs[3]:
        return None
    vals = [{}]
    for c in lc.phis:
        ph = LP.phi_of(lc, c)
        vals[0][ph] = s.interp.load(lc.entry, c, ph.sort)
    for k in range(n):
        mp = {**vals[-1], lc.bv: num(k)}
        new = {}
        for c in lc.phis:
            ph = LP.phi_of(lc, c)
            new[ph] = subst(oob(constrain(lc.back[c], lc.recs[1].pc)), mp) if c in lc.back else vals[-1][ph]
        vals.append(new)
    stop = FALSE
    for b in lc.recs[2]:
        stop = or_(stop, oob(b.pc))
    stops = [subst(stop, {**vals[k], lc.bv: num(k)}) for k in range(n)]
    mp = {lc.N: num(n)}
    out = dict(vals[-1])
    frst = num(n - 1)
    brk = dict(vals[n - 1])
    for k in reversed(range(n - 1)):
        frst = ite(stops[k], num(k), frst)
        brk = {ph: ite(stops[k], vals[k][ph], brk[ph]) for ph in brk}
    mp.update(brk)
    mp[mk("first", lc.id, sort="i")] = frst
    for c in lc.phis:
        ph = LP.phi_of(lc, c)
        mp[mk("phiout", lc.id, c, sort=ph.sort)] = out[ph]

    def go(t):
        if t is None:
            return None
        t = oob(t)
        ps = {}
        for x in subterms(t):
            if x.op == "pall" and x.args[-2] is lc.N:
                v = TRUE
                for k in range(n):
                    v = and_(v, subst(oob(x.args[-1]), {**vals[k], lc.bv: num(k), binder_var(x): num(k)}))
                ps[x] = v
        return subst(subst(t, ps), mp)
    return go


def oob(t):
    """reads beyond a list happen on no path; they stand for an arbitrary number"""
    if t is None:
        return None
    mp = {x: mk("init", mk("oob", x.args[1]), sort=x.sort) for x in subterms(t)
          if x.op == "getf" and x.args[0].op == "elem" and x.args[0].args[0].op in ("list", "app")}
    return subst(t, mp) if mp else t


def options(t):
    if t.op == "ite":
        return options(t.args[1]) | options(t.args[2])
    return {t}


def isnan_of(got, x):
    return mk("call", "isnan", x, sort="b")


def denan(t):
    """the value when no candidate is NaN"""
    ns = {x for x in subterms(t) if x.op == "call" and x.args[0] == "isnan" or x.op == "isnan"}
    return constrain(t, and_(*[not_(n) for n in ns])) if ns else t


def nanpart(t):
    ns = [x for x in subterms(t) if x.op == "call" and x.args[0] == "isnan" or x.op == "isnan"]
    if not ns:
        return None
    return subst(t, {n: TRUE for n in ns})


def edge(x, lo, hi, cs):
    return ite(or_(lt(hi, x), lt(x, lo)), ite(lt(horner(cs, lo), horner(cs, hi)), lo, hi), x)


def horner(cs, x):
    r = ZERO
    for c in cs:
        r = r * x + c
    return r


def same(x, y, pc=TRUE):
    if x is y:
        return True
    if unknown_op(x, ("phiout",)) or unknown_op(y, ("phiout",)):
        return False
    if pc is not TRUE:
        from sa.randterm import implied
        return implied(pc, eq(x, y)) is True
    from sa.randterm import differ
    return differ(x, y) is False


def unknown_op(t, allow=()):
    return t is None or any(x.op in ("opaque", "clob", "phiout", "maybe", "getf") and x.op not in allow for x in subterms(t))


def fixpo(t, inv):
    return subst(t, inv)


def polys(t):
    """evaluate(polynomial, x) by its coefficients"""
    mp = {}
    for x in subterms(t):
        if x.op == "call" and str(x.args[0]).endswith("evaluate") and len(x.args) == 3:
            r = map_leaves(x.args[1], lambda o: value_at(o, x.args[2]))
            if r is not None and not contains_op(r, {"nocoef"}):
                mp[x] = r
    for _ in range(3):
        t2 = subst(t, mp)
        if t2 is t:
            break
        t = t2
    return t


def value_at(o, x):
    c = None
    y = o
    while y.op == "with":
        if y.args[1] == "coeffs":
            c = y.args[2]
            break
        y = y.args[0]
    if c is None:
        return mk("nocoef", sort="s")

    def go(v):
        return horner(v.args, x) if v.op == "veclit" else mk("nocoef", sort="s")
    return map_leaves(c, go)


def linear(t):
    """entries of the solution of a 2x2 system, by Cramer's rule"""
    for _ in range(3):
        mp = {}
        for x in subterms(t):
            if x.op == "elt" and x.args[0].op in ("call", "xcall") and x.args[0].args[0] == "solve" and len(x.args) in (2, 3):
                M, b = x.args[0].args[1:3]
                k = x.args[1]
                e = lambda i, j: elt(M, num(i), num(j))
                r = lambda i: elt(b, num(i))
                det = e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)
                if k is ZERO:
                    mp[x] = (r(0) * e(1, 1) - e(0, 1) * r(1)) / det
                elif k is ONE:
                    mp[x] = (e(0, 0) * r(1) - e(1, 0) * r(0)) / det
        if not mp:
            return t
        t = subst(t, mp)
    return t


# -- the solver's use of it ----------------------------------------------------------------
def accept(ctx):
    u, f, s = solve_summary(ctx)
    runs = ev(s, "call", "run")
    for k, e in enumerate(runs):
        at = At(s, e)
        m = A05.Model(u, at)
        w = e.where
        al = mk("init", mk("alpha"), sort="s")
        step = at(W("pd_step"))
        xt = out(2, call("ManifoldAbstractTpl::integrate_impl", ini(MAN), m.x, al * seg(step, ZERO, ND), slot(2), sort="o"))
        lt_ = m.lam + al * seg(step, ND, NC)
        clo = e.args[0] if e.args else None
        v = None
        if clo is not None and clo.op == "closure":
            lam, fr = closure_of(clo)
            st = e.st.copy()
            it = s.interp
            it.record = False
            v = it.call_lambda(lam, fr, [al], st, lam)
            it.record = True
            v = constrain(v, e.pc)
        if v is None:
            ctx.ob("merit-along-step/%d" % k, w, None, "no closure")
        else:
            base, prox = A05.merit_formula(at, m, xt, lt_)
            ctx.same("merit-along-step/%d" % k, w, constrain(v, lt(ZERO, m.rho)), constrain(base + prox, lt(ZERO, m.rho)),
                     "the function searched is the merit at the retracted primal step and the linear multiplier step")
            g = constrain(v, not_(lt(ZERO, m.rho)))
            no = not_(lt(ZERO, m.rho))
            ok = same(g, constrain(base, no)) or same(g, constrain(base + prox, no))
            ctx.ob("merit-along-step-noprox/%d" % k, w, True if ok else None if unknown_op(g) else False, "")
        # what is accepted afterwards
        r_al, r_v = [o[1] for o in (e.outs or ())][:1] or [None], e.value
        r_al = r_al[0]
        inner = e.ctx[-1] if e.ctx else None
        lc = next((l for l in s.loops if inner is not None and l.node is inner.node), None)
        if lc is None or lc.recs[1] is None or r_al is None:
            ctx.ob("accepted/%d" % k, w, None, "")
            continue
        ends = [("next", lc.recs[1])] + [("exit%d" % j, b) for j, b in enumerate(list(lc.recs[2]) + [r[0] for r in lc.recs[3]])]
        for nm, b in ends:
            if not seen(b, e.value):
                continue
            x = constrain(s.interp.load(b, R("x_opt"), "m"), b.pc)
            l = constrain(s.interp.load(b, R("data_lams_opt"), "m"), b.pc)
            mt = constrain(s.interp.load(b, R("merit"), "s"), b.pc)
            mp = {al: r_al}
            ctx.same("accepted/point/%d/%s" % (k, nm), w, x, subst(xt, mp), "the next primal iterate is the retraction of the step returned by the line search")
            ctx.same("accepted/multipliers/%d/%s" % (k, nm), w, l, subst(lt_, mp), "the next multipliers are those of the step returned by the line search")
            ctx.same("accepted/merit/%d/%s" % (k, nm), w, mt, r_v, "the merit reported is the one the line search returned")


def seen(st, v):
    return any(contains(x, v) for c, x in st.store.items() if c.op == "fld" and c.args[0] is RS)
