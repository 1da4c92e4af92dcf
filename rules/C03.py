"""Dense LDL^T algebra: one step of the unblocked elimination turns column j of the working matrix into column j of
L and pivot j; the recursive version, given that its own calls factorise the blocks handed to them, leaves the
factors of the whole matrix; solving applies L^-1, D^-1 (null pivots give null rows) and L^-T; the matrix handed
to the factorisation object is copied, and the reported status is that of the factorisation."""
from sa.terms import *
from sa.modlib import *
from sa import loops as LP
from sa import dense as D
from sa.dense import Q, build, Mat, No

TITLE = "Dense LDL^T algebra"
FLOOR = 10
E = lambda n: mk("enumc", n, sort="i")
LOW = lambda i, j, r, c: i >= j
TOL = mk("const", "const:min", sort="s")


# ------------------------------------------------------------------- reference algebra on concrete matrices
def factor(m):
    """lower part: L below the diagonal, D on it; the strict upper part is unspecified (zero)"""
    n = m.r
    a = [[m.d[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
    for j in range(n):
        if a[j][j] == 0:
            raise No("singular")
        for i in range(j + 1, n):
            l = a[i][j] / a[j][j]
            for k in range(j + 1, i + 1):
                a[i][k] -= l * a[k][j]
        for i in range(j + 1, n):
            a[i][j] = a[i][j] / a[j][j]
    return build(n, n, lambda i, j: a[i][j] if i >= j else Q(0))


def step(e, t):
    """column j of the factors, from the columns on its left"""
    m, j = e.shaped(t.args[1]), e.int(t.args[2])
    d = [r[:] for r in m.d]
    n = m.r
    d[j][j] = m.d[j][j] - sum((m.d[j][k] ** 2 * m.d[k][k] for k in range(j)), Q(0))
    for i in range(j + 1, n):
        s = m.d[i][j] - sum((m.d[i][k] * m.d[k][k] * m.d[j][k] for k in range(j)), Q(0))
        if d[j][j] == 0:
            raise No("singular")
        d[i][j] = s / d[j][j]
    return Mat(n, n, d)


def callee(e, t):
    """first output of a factorisation routine called on a block"""
    if t.op == "out":
        if t.args[0] != 0:
            raise No("output")
        c = t.args[1]
        a = [x for x in c.args[1:] if isinstance(x, Term) and x.sort == "m"]
        if not a:
            raise No("argument")
        f = factor(e.shaped(a[0]))
        m = e.shaped(a[0])
        # the strict upper part is scratch: anything may be there
        return build(m.r, m.r, lambda i, j: f.d[i][j] if i >= j else Q(i * 7 - j * 5 + 3, 2))
    raise No("call")


def spec_factor(e, t):
    return factor(e.shaped(t.args[1]))


FUNCS = {"spec:step": step, "spec:factor": spec_factor}
ROUTINES = ("dense_ldlt_in_place", "ldlt_in_place_unblocked")


def square(*names):
    """dimensions: these cells hold n x n matrices"""
    def mkdims(n):
        def dims(t):
            if t.sort in ("m", "o"):
                return (n, n)
            return None
        return dims
    return mkdims


def run(ctx):
    u = ctx.unit("linalg")
    for f in list(u.funcs.values()):
        if f.body is None or not (f.where() or "").startswith("include/proxsuite-nlp/linalg/dense.hpp"):
            continue
        if f.name == "ldlt_in_place_unblocked":
            unblocked(ctx, u, f)
        elif f.name == "dense_ldlt_in_place":
            recursive(ctx, u, f)
        elif f.name == "dense_ldlt_solve_in_place":
            solve(ctx, u, f)
        elif f.name == "dense_ldlt_reconstruct":
            reconstruct(ctx, u, f)
    for r in u.recname["DenseLDLT"]:
        if r.targs:
            wrapper(ctx, u, r)


def tagof(f):
    t = (f.targs or ["?"])[0]
    return "ref" if "Ref<" in t else "mat"


def unblocked(ctx, u, f):
    key, w = "unblocked/%s/" % tagof(f), f.where()
    s = summary(ctx, u, f)
    A, n = P(f, 0), rows(P(f, 0))
    a = cell(f, 0)
    lps = [lc for lc in s.loops if a in lc.back]
    js = [c for c in lps[0].phis if c.op == "local" and lps[0].phis[c].sort == "i"] if len(lps) == 1 else []
    final = outp(s, 0)
    ctx.same(key + "small", w, under(final, lt(n, num(2))), A, "a matrix of size one (or none) is its own factor")
    ctx.under(key + "success", w, TRUE, s.ret, TRUE, "the elimination reports success")
    for k in range(6):
        ctx.at(key + "whole/%d" % k, w, final, mk("call", "spec:factor", A, sort="m"), [(square()(k), {n: k, cols(A): k})],
               "a matrix of this size is factored", mask=LOW, funcs=FUNCS, loops=s.loops)
    ctx.soft = True         # the rules on one step presume one shape of the loop
    try:
        steps(ctx, key, w, f, s, lps, js, final)
    finally:
        ctx.soft = False


def steps(ctx, key, w, f, s, lps, js, final):
    A, n = P(f, 0), rows(P(f, 0))
    a = cell(f, 0)
    if len(lps) != 1 or len(js) != 1:
        # no loop with one counter: compare the whole function with the specification
        ctx.ob(key + "shape", w, None, "one elimination loop with one counter")
        return
    lc, jc = lps[0], js[0]
    wl = lc.where
    if lc.N is not None:
        ctx.ob(key + "shape", wl, None, "elimination loop with an explicit exit")
        return
    j, Aj = LP.phi_of(lc, jc), LP.phi_of(lc, a)
    ctx.same(key + "start", wl, lc.entry.store.get(jc), ZERO, "the elimination starts at the first column")
    e0 = lc.entry.store.get(a)
    ctx.ob(key + "start-matrix", wl, e0 is None or e0 is A, "and on the matrix as given")
    ctx.same(key + "next", wl, lc.back[jc], add(j, ONE), "columns are eliminated one after the other")
    sp = mk("call", "spec:step", Aj, j, sort="m")

    def cases(sizes, js):
        return [(square()(k), {n: k, rows(Aj): k, cols(Aj): k, cols(A): k, j: jj}) for k in sizes for jj in js(k)]
    pre = and_(ge(n, num(2)), lt(add(j, ONE), n))
    ctx.at(key + "step", wl, under(lc.back[a], pre), sp, cases((2, 3, 4), lambda k: range(k - 1)),
           "one elimination step: pivot and column j of the factors", mask=LOW, funcs=FUNCS)
    last = under(final, ge(n, num(2)))
    ctx.at(key + "last", wl, last, sp, cases((2, 3, 4), lambda k: [k - 1]),
           "last step: the last pivot, and no other entry of the factors", mask=LOW, funcs=FUNCS)
    back = lc.recs[1].pc if lc.recs else None
    if back is not None:
        ctx.under(key + "range", wl, and_(ge(n, num(2)), and_(ge(j, ZERO), lt(j, n))), back, lt(add(j, ONE), n),
                  "every column is visited, and no more")


def recursive(ctx, u, f):
    key, w = "recursive/%s/" % tagof(f), f.where()
    s = summary(ctx, u, f, noinline=ROUTINES)
    A, n = P(f, 0), rows(P(f, 0))
    final = outp(s, 0)
    big = num(1000)
    sub = under(final, ge(n, big))
    sp = mk("call", "spec:factor", A, sort="m")
    fn = dict(FUNCS)
    for r in ROUTINES:
        for q in (r, "backend::" + r):
            fn[q] = callee
    ctx.at(key + "factors", w, sub, sp, [(square()(k), {n: k, cols(A): k}) for k in (2, 3, 4, 5)],
           "given factored diagonal blocks, the whole matrix is factored", mask=LOW, funcs={**fn, "out": callee}, n=1)
    small = under(final, eq(n, num(2)))
    ctx.at(key + "small", w, small, sp, [(square()(2), {n: 2, cols(A): 2})],
           "a small matrix is handed to the unblocked elimination", mask=LOW, funcs={**fn, "out": callee})
    for what, pre in (("small", eq(n, num(2))), ("large", ge(n, big))):
        r = under(s.ret, pre)
        ok = r.op == "call" and r.args and str(r.args[0]).split("::")[-1] in ROUTINES
        ctx.ob(key + "status/" + what, w, True if ok else (None if r is not TRUE and r is not FALSE else r is TRUE),
               "the status is that of the elimination performed")
    # the sign summary is threaded through every call, in order
    calls = [e for e in s.events if e.kind == "call" and e.name in ROUTINES]
    sg = outp(s, 1, "i")
    ctx.ob(key + "calls", w, bool(calls) or None, "factorisation calls found")
    for pre, lbl in ((ge(n, big), "large"),):
        mine = [e for e in calls if under(e.pcabs, pre) is not FALSE]
        if len(mine) == 2:
            v = under(sg, pre)
            ctx.ob(key + "sign/" + lbl, w, (v.op == "out" and v.args[0] == 1 and
                   any(x.op == "out" and x.args[0] == 1 for a in v.args[1].args if isinstance(a, Term) and a.sort != "m"
                       for x in subterms(a))) or None, "the sign summary passes through both halves")


def solve(ctx, u, f):
    s = summary(ctx, u, f)
    vec = "Matrix<double, -1, 1>" in (f.targs or ["", ""])[1]
    key, w = "solve/%s/" % ("vec" if vec else "mat"), f.where()
    solve_rows(ctx, key, w, s, cell(f, 1), P(f, 0), P(f, 1), [rows(P(f, 0)), cols(P(f, 0))], vec)
    ctx.under(key + "success", w, TRUE, s.ret, TRUE, "solving succeeds")


def spec_solve(e, t):
    a, b, tol = e.shaped(t.args[1]), e.shaped(t.args[2]), e.int(t.args[3])
    n = a.r
    x = [r[:] for r in b.d]
    for k in range(b.c):
        for i in range(n):
            for j in range(i):
                x[i][k] -= a.d[i][j] * x[j][k]
        for i in range(n):
            x[i][k] = x[i][k] / a.d[i][i] if abs(a.d[i][i]) > tol else Q(0)
        for i in reversed(range(n)):
            for j in range(i + 1, n):
                x[i][k] -= a.d[j][i] * x[j][k]
    return Mat(n, b.c, x)


def solve_rows(ctx, key, w, s, b, mat, B, msize, vec, pre=None, post=None):
    """b := U^-1 D^+ L^-1 b"""
    L, U = tri(mat, "UnitLower"), tri(transpose(mat), "UnitUpper")
    lps = [lc for lc in s.loops if b in lc.back]
    nc = cols(B)
    final = s.value(b, "m")

    def mkdims(n, m):
        def dims(t):
            r = t.args[1] if t.op == "phi" else t.args[0] if t.op == "init" else None
            if isinstance(r, Term) and r is b:
                return (n, m)
            return (n, n) if t.sort in ("m", "o") else None
        return dims
    ms = (1,) if vec else (1, 2)
    if len(lps) != 1:
        ctx.ob(key + "shape", w, None, "one loop over the pivots")
        return
    lc = lps[0]
    wl = lc.where
    if not any(x.op == "phiout" for x in subterms(final)):
        # every row is rewritten once: the whole is one term
        ints = lambda n, m: dict([(x, n) for x in msize] + [(rows(B), n), (nc, m)])
        for tol, lbl in ((0, "regular"), (2, "mixed"), (10 ** 6, "null")):
            want = mk("call", "spec:solve", mat, B, num(tol), sort="m")
            if post is not None:
                want = post(want)
            ctx.at(key + lbl, w, final, want, [(mkdims(n, m), ints(n, m)) for n in (1, 2, 3) for m in ms],
                   "the inverse of L D L^T applied, rows of null pivots zeroed", funcs={**FUNCS, "spec:solve": spec_solve},
                   vals={TOL: Q(tol), mk("const", "const:epsilon", sort="s"): Q(10 ** 6)}, n=4)
        return
    i, Bi = lc.bv, LP.phi_of(lc, b)
    ints = lambda n, m, k=None: dict([(x, n) for x in msize] + [(rows(B), n), (nc, m), (rows(Bi), n), (cols(Bi), m)]
                                     + ([(i, k)] if k is not None else []))
    n_ = msize[0]
    entry = lc.entry.store.get(b)
    ctx.at(key + "forward", wl, entry if entry is not None else B, mul(mk("minv", L, sort="m"), B),
           [(mkdims(n, m), ints(n, m)) for n in (1, 2, 3) for m in ms], "forward substitution with the unit lower factor")
    if lc.N is None:
        ctx.ob(key + "rows", wl, None, "one pass over the rows")
    else:
        d0 = [(mkdims(n, m), ints(n, m)) for n in (1, 2, 3) for m in ms]
        ctx.at(key + "rows", wl, lc.N, n_, d0, "every row is divided by its pivot")
    d = elt(mat, i, i)
    row = blk(Bi, i, ZERO, ONE, nc)
    cs = [(mkdims(n, m), ints(n, m, k)) for n in (1, 2, 3) for m in ms for k in range(n)]
    dv = mk("vblk", i, ZERO, ONE, nc)
    ab = maxmin("max", [d, neg(d)])
    nul = ge(TOL, ab)
    back = lc.back[b]
    ctx.at(key + "pivot", wl, under(back, lt(i, n_)), ite(nul, upd(Bi, dv, ZERO), upd(Bi, dv, mul(inv(d), row))), cs,
           "row i is divided by pivot i, or zeroed when the pivot is null",
           vals={TOL: Q(0), mk("const", "const:epsilon", sort="s"): Q(10 ** 6)})
    # the threshold is that of a null pivot, nothing larger
    ctx.at(key + "threshold", wl, under(back, lt(i, n_)), upd(Bi, dv, ZERO), cs,
           "and a row with a null pivot is zeroed", vals={TOL: Q(10 ** 6)})
    out = mk("phiout", lc.id, b, sort="m")
    po = [x for x in subterms(final) if x.op == "phiout" and x.args[1] is b]
    if not po:
        ctx.ob(key + "backward", wl, None, "result of the division")
        return
    po = po[0]
    for n in (2, 3):
        for m in ms:
            X = build(n, m, lambda r, c: Q(3 * r - 2 * c + 1, 2))
            want = mul(mk("minv", U, sort="m"), po)
            if post is not None:
                want = post(want)
            ctx.at(key + "backward/%d/%d" % (n, m), w, final, want, [(mkdims(n, m), ints(n, m))],
                   "backward substitution with the transposed factor", vals={po: X})


def reconstruct(ctx, u, f):
    key, w = "reconstruct/", f.where()
    s = summary(ctx, u, f)
    A, R = P(f, 0), P(f, 1)
    L = tri(A, "UnitLower")
    want = mul(mul(mul(L, asdiag_(diagonal(A))), transpose_tri(L)), R)
    ctx.at(key + "product", w, outp(s, 1), want,
           [(square()(n), {rows(A): n, cols(A): n, rows(R): n, cols(R): n}) for n in (1, 2, 3)], "L D L^T times the argument")


def asdiag_(v):
    return mk("asdiag", v, sort="m")


def diagonal(m):
    return view(m, mk("vdiag"))


def transpose_tri(L):
    return mk("T", L, sort="m")


def wrapper(ctx, u, r):
    A = M("m_matrix")
    SUCC, FAIL = E("Success"), E("NumericalIssue")
    FACT = {n: (lambda it, f, args, st, n_: None) for n in ()}
    key = "object/"
    # construction from a matrix, and compute
    fs = [("compute", method(u, r, "compute", 1))] + [("construct", c) for c in ctor(u, r, 1) if "Ref<" in qt_(c)]
    for nm, f in fs:
        if f is None:
            continue
        s = summary(ctx, u, f, noinline=ROUTINES)
        w = f.where()
        calls = [e for e in s.events if e.kind == "call" and e.name in ROUTINES]
        if len(calls) != 1:
            ctx.ob(key + nm + "/calls", w, None if not calls else False, "one factorisation of the given matrix")
            continue
        a = [x for x in calls[0].args if isinstance(x, Term) and x.sort == "m"]
        m0 = P(f, 0)
        if a and a[0] is not m0:          # the lower triangle is all that is read
            ctx.at(key + nm + "/matrix", w, a[0], m0, [(square()(n), {rows(m0): n, cols(m0): n}) for n in (2, 3)],
                   "the factorisation runs on a copy of the given matrix", mask=LOW)
        else:
            ctx.same(key + nm + "/matrix", w, a[0] if a else None, m0, "the factorisation runs on a copy of the given matrix")
        got = outm(s, "m_matrix")
        ctx.ob(key + nm + "/factors", w, True if got.op == "out" and got.args[0] == 0 else
               False if got is A or got is P(f, 0) else None, "and its factors are kept")
        rv = [x for x in subterms(outm(s, "m_info", so="i")) if x.op == "call" and x.sort == "b"]
        ok = rv[0] if rv else None
        ctx.same(key + nm + "/status", w, outm(s, "m_info", so="i") if ok is not None else None,
                 ite(ok, SUCC, FAIL) if ok is not None else SUCC, "the status is that of the factorisation")
        ctx.ob(key + nm + "/always", w, calls[0].pcabs is TRUE or None, "on every path")
    for c in ctor(u, r, 1):
        if "Ref<" not in qt_(c) and not qt_(c).rstrip().endswith("&"):
            s = summary(ctx, u, c)
            ctx.same(key + "fresh", c.where(), outm(s, "m_info", so="i"), E("InvalidInput"),
                     "an object that has factorised nothing does not report success")
    f = method(u, r, "matrixLDLT", 0)
    if f is not None:
        s = summary(ctx, u, f)
        v = s.ret
        ctx.same(key + "factors", f.where(), v.args[0] if v is not None and v.op == "addr" else v,
                 mcell("m_matrix") if v is not None and v.op == "addr" else A, "the factors are returned")
    for f in [m for m in u.funcs.values() if m.rec is r and m.name == "solveInPlace" and m.body is not None]:
        vec = "Matrix<double, -1, 1>" in (f.targs or [""])[0]
        s = summary(ctx, u, f)
        solve_rows(ctx, key + "solveInPlace/%s/" % ("vec" if vec else "mat"), f.where(), s, cell(f, 0), A, P(f, 0),
                   [rows(A), cols(A)], vec)
    for f in [m for m in u.funcs.values() if m.rec is r and m.name == "solve" and m.body is not None]:
        s = summary(ctx, u, f, noinline=("solveInPlace",))
        k = key + "solve/%s/" % ("vec" if "Matrix<double, -1, 1>" in (f.targs or [""])[0] else "mat")
        v = s.ret
        ok = None
        if v is not None and v.op == "out":
            a = [x for x in v.args[1].args if isinstance(x, Term) and x.sort == "m"]
            ok = bool(a) and a[-1] is P(f, 0)
        elif v is not None and any(x is P(f, 0) for x in leaves(v)):
            ok = False
        ctx.ob(k + "copy", f.where(), ok, "solves in place on a copy of the right-hand side and returns it")
    f = method(u, r, "reconstructedMatrix", 0)
    if f is not None:
        s = summary(ctx, u, f)
        L = tri(A, "UnitLower")
        ctx.at(key + "reconstruct", f.where(), s.ret, mul(mul(L, asdiag_(diagonal(A))), transpose_tri(L)),
               [(square()(n), {rows(A): n, cols(A): n}) for n in (1, 2, 3)], "reconstruction multiplies the factors back")


def leaves(v):
    return leaves(v.args[1]) + leaves(v.args[2]) if v.op == "ite" else [v]


def qt_(c):
    from sa.front import qt
    return qt(c.params[0])
