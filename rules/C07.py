"""The pivoted symmetric factorisation (Bunch-Kaufman): factors, inverse pivot blocks and interchanges multiply back to
the matrix given, the rest of the matrix grows within bounds, and solving applies them in the right order.  The routines' values, as terms
over their arguments, are evaluated on small matrices chosen so that every kind of pivot occurs."""
from sa.terms import *
from sa.modlib import *
from sa import dense as D
from sa.dense import No
from sa.interp import root
from fractions import Fraction as Q
import random

TITLE = "Bunch-Kaufman factorisation multiplies back and solves"
FLOOR = 6
UNB, ONEB, ALL_ = "bunch_kaufman_in_place_unblocked", "bunch_kaufman_in_place_one_block", "bunch_kaufman_in_place"
SOLVE = "bunch_kaufman_solve_in_place"
ALPHA = (1 + Q(4123105625617661, 10 ** 15)) / 8
BOUND = {1: Q(26, 10), 2: Q(66, 10)}        # growth of the rest: 1 + 1/alpha, 1 + 2/(1-alpha)


def run(ctx):
    u = ctx.unit("bk")
    for f in list(u.funcs.values()):
        if f.body is None:
            continue
        if f.name == UNB:
            unblocked(ctx, u, f)
        elif f.name == ALL_:
            whole(ctx, u, f)
        elif f.name == SOLVE:
            solve(ctx, u, f)
    for r in u.recname.get("BunchKaufman", ()):
        if r.targs:
            owner(ctx, u, r)


# ---------------------------------------------------------- matrices
def inv(b):
    """of an order-one or order-two block"""
    if len(b) == 1:
        return [[1 / b[0][0]]]
    (p, q), (r, s) = b
    d = p * s - q * r
    return [[s / d, -q / d], [-r / d, p / d]]


def matrices(thorough):
    """lower triangles, by size: positive, indefinite, null diagonals, null and equal columns"""
    out = {1: [[[Q(3)]], [[Q(-2)]]],
           2: [[[4, 1], [1, 3]], [[0, 2], [2, 1]], [[0, 2], [2, 0]], [[1, 5], [5, 1]], [[-1, 7], [7, 50]], [[1000, 100], [100, 1]]],
           3: [[[0, 2, 1], [2, 0, 5], [1, 5, 7]], [[1, 2, 30], [2, 50, 4], [30, 4, 1]], [[0, 0, 3], [0, 2, 1], [3, 1, 0]],
               [[1, 9, 0], [9, 0, 0], [0, 0, 2]], [[9, 1, 1], [1, 0, 4], [1, 4, 0]], [[0, 1, 5], [1, 500, 0], [5, 0, -90]], [[900, 30, 0], [30, 1, 0], [0, 0, -3]]],
           4: [[[0, 1, 2, 9], [1, 0, 4, 3], [2, 4, 0, 5], [9, 3, 5, 0]], [[1, 0, 8, 0], [0, 3, 0, 1], [8, 0, 1, 2], [0, 1, 2, 0]],
               [[8, 1, 2, 3], [1, 0, 1, 20], [2, 1, 0, 5], [3, 20, 5, 1]], [[1, 0, 0, 6], [0, 1, 7, 0], [0, 7, 2, 0], [6, 0, 0, 50]]],
           5: [[[0, 1, 2, 9, 4], [1, 0, 4, 3, -6], [2, 4, 0, 5, 1], [9, 3, 5, 0, 2], [4, -6, 1, 2, 0]],
               [[1, 4, 0, 0, 0], [4, 1, 0, 0, 0], [0, 0, 2, 1, 9], [0, 0, 1, 7, 0], [0, 0, 9, 0, 1]]]}
    rnd = random.Random(7)
    for n in range(2, 5 if not thorough else 6):
        for _ in range(4 if not thorough else 16):
            m = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    m[i][j] = m[j][i] = rnd.choice((0, 1, -1, 2, 3, -5, 9, 17))
            out[n].append(m)
    return {n: [[[Q(x) for x in r] for r in m] for m in ms] for n, ms in out.items()}


def bk(a, ncols=None):
    """reference elimination of a symmetric matrix (columns below ncols only): (a, pivots, swaps, columns) or None when a
    whole column vanishes.  Unblocked form: an interchange does not reorder the columns already eliminated."""
    n = len(a)
    a = [r[:] for r in a]
    p, sw, k = [Q(0)] * n, 0, 0
    while k < n and (ncols is None or k + 1 < ncols):
        col = [abs(a[i][k]) for i in range(k + 1, n)]
        cm = max(col) if col else Q(0)
        im = k + 1 + (col.index(cm) if col else 0)
        st, kp = 1, k
        if max(abs(a[k][k]), cm) == 0:
            return None
        if abs(a[k][k]) < cm * ALPHA:
            rm = max([abs(a[im][j]) for j in range(k, n) if j != im])
            if abs(a[k][k]) >= ALPHA * cm * cm / rm:
                pass
            elif abs(a[im][im]) >= ALPHA * rm:
                kp = im
            else:
                kp, st = im, 2
        kk = k + st - 1
        if kp != kk:
            sw += 1
            for r in range(k, n):
                a[r][kk], a[r][kp] = a[r][kp], a[r][kk]
            for c in range(k, n):
                a[kk][c], a[kp][c] = a[kp][c], a[kk][c]
        m = k + st
        B = inv([[a[i][j] for j in range(k, m)] for i in range(k, m)])
        Lr = [[sum(a[i][k + t] * B[t][s] for t in range(st)) for s in range(st)] for i in range(m, n)]
        for i in range(m, n):
            for j in range(m, n):
                a[i][j] -= sum(Lr[i - m][s] * a[j][k + s] for s in range(st))
        for i in range(m, n):
            for s in range(st):
                a[i][k + s] = Lr[i - m][s]
        for i in range(st):
            for j in range(st):
                a[k + i][k + j] = B[i][j]
        for s in range(st):
            p[k + s] = Q(kp if st == 1 else -1 - kp)
        k = m
    return a, p, sw, k


def back(a, p, kb, n):
    """the matrix whose first kb columns were eliminated into a, p; a text when they are no elimination at all"""
    steps, k = [], 0
    while k < kb:
        if p[k] >= 0:
            st, kp = 1, int(p[k])
            if not k <= kp < n:
                return "interchange of row %d with %d" % (k, kp)
        else:
            st, kp = 2, int(-1 - p[k])
            if k + 1 >= n or p[k + 1] != p[k] or not k + 1 <= kp < n:
                return "interchange of rows %d, %d with %d" % (k, k + 1, kp)
        steps.append((k, st, kp))
        k += st
    m = [[a[max(i, j)][min(i, j)] if min(i, j) >= k else Q(0) for j in range(n)] for i in range(n)]
    if k != kb:
        return "%d columns" % k
    for k, st, kp in reversed(steps):
        e = k + st
        B = [[a[max(i, j)][min(i, j)] for j in range(k, e)] for i in range(k, e)]
        try:
            B = inv(B)
        except (No, ZeroDivisionError):
            return "a singular pivot block at %d" % k
        Lr = {i: [a[i][k + s] for s in range(st)] for i in range(e, n)}
        grown = max([abs(m[i][j]) for i in range(e, n) for j in range(e, n)] or [Q(0)])
        LB = {i: [sum(Lr[i][t] * B[t][s] for t in range(st)) for s in range(st)] for i in Lr}
        for i in Lr:
            for j in Lr:
                m[i][j] += sum(LB[i][s] * Lr[j][s] for s in range(st))
            for s in range(st):
                m[i][k + s] = m[k + s][i] = LB[i][s]
        for i in range(st):
            for j in range(st):
                m[k + i][k + j] = B[i][j]
        if grown > BOUND[st] * max(abs(m[i][j]) for i in range(k, n) for j in range(k, n)):
            return "the rest grows to %s after pivot %d" % (grown, k)
        kk = e - 1
        m[kk], m[kp] = m[kp], m[kk]
        for r in m:
            r[kk], r[kp] = r[kp], r[kk]
    return m


def flat(e, t):
    v = e.ev(t)
    if isinstance(v, Q):
        return [v]
    return [x for r in e.shaped(t).d for x in r]


def amax(e, t):
    v = flat(e, t.args[1])
    if not v:
        raise No("largest of nothing")
    return Q(max(range(len(v)), key=lambda i: (v[i], -i)))


def sqrt(e, t):
    v = e.ev(t.args[1] if t.op == "call" else t.args[0])
    if v == 17:
        return 8 * ALPHA - 1
    raise No("square root")


def top(e, t):
    v = flat(e, t.args[1])
    if not v:
        raise No("largest of nothing")
    return max(v)


FU = {"sqrt": sqrt, "argmaxCoeff": amax, "maxCoeff": top, "infnorm": lambda e, t: max([abs(x) for x in flat(e, t.args[1])] or [Q(0)])}
ENUMS = {mk("enumc", n, sort="i"): Q(i) for n, i in (("Success", 0), ("NumericalIssue", 1), ("NoConvergence", 2), ("InvalidInput", 3))}


def evaluator(s, mats, ints, funcs=None):
    """mats: {term: list of lists}"""
    base = dict(ENUMS)
    base.update({t: v if isinstance(v, bool) else Q(v) for t, v in ints.items()})
    for t, m in mats.items():
        M_ = D.build(len(m), len(m[0]) if m else 0, lambda i, j: Q(m[i][j]))
        base[t] = M_
        base[rows(t)], base[cols(t)] = Q(M_.r), Q(M_.c)
    fu = dict(FU)
    fu.update(funcs or {})
    sh = {}
    for t, m in mats.items():
        sh[t.args[0] if t.op == "init" else t] = (len(m), len(m[0]) if m else 0)

    def dims(t):
        # a value at a loop head or after a loop has the shape of the variable it belongs to
        for x in (t.args if isinstance(t.args, tuple) else ()):
            if isinstance(x, Term) and x in sh:
                return sh[x]
        return None
    return D.DEval(0, dims, base, None, fu, {lc.id: lc for lc in s.loops})


def column(v):
    return [[x] for x in v]


def judge(ctx, key, w, f, what):
    try:
        r = f()
    except (No, RecursionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError, StopIteration) as x:
        ctx.ob(key, w, None, "%s: %r" % (what, x))
        return
    ctx.ob(key, w, r == "", "%s: %s" % (what, r))


def lower(m, scratch=True):
    """only the lower triangle of what is handed in means anything"""
    n = len(m)
    return [[m[i][j] if i >= j else Q(70 + 3 * i - j) for j in range(n)] for i in range(n)]


def entries(e, t):
    return [r[:] for r in e.shaped(t).d]


def factored(e, a, p, kb, n, A):
    got = back(a, p, kb, n)
    if isinstance(got, str):
        return got + " in the factors of %s" % show_(A)
    if got != A:
        i, j = [(i, j) for i in range(n) for j in range(n) if got[i][j] != A[i][j]][0]
        return "the factors multiply back to %s instead of %s at (%d,%d) of %s" % (got[i][j], A[i][j], i, j, show_(A))
    return ""


def show_(m):
    return "[%s]" % "; ".join(" ".join(str(x) for x in r) for r in m)


def unblocked(ctx, u, f):
    s = summary(ctx, u, f)
    w, A, p = f.where(), P(f, 0), P(f, 1)
    for n, ms in matrices(ctx.thorough()).items():
        for c, m in enumerate(ms):
            ref = bk(m)

            def go():
                e = evaluator(s, {A: lower(m), p: column([Q(0)] * n)}, {P(f, 2, "i"): 5})
                st = e.ev(s.ret)
                if ref is None:
                    return "" if st == 1 else "a matrix that vanishes below a pivot is not refused: %s" % show_(m)
                if st != 0:
                    return "refused: %s" % show_(m)
                v = entries(e, outp(s, 0))
                q = [r[0] for r in entries(e, outp(s, 1))] if n > 1 else [Q(0)]
                if n > 1 and e.ev(outp(s, 2, "i")) != sum(1 for k in range(n) if (q[k] if q[k] >= 0 else -1 - q[k]) != k and not (q[k] < 0 and (k == 0 or sum(1 for x in q[:k] if x < 0) % 2 == 0))):
                    return "%s interchanges counted for %s" % (e.ev(outp(s, 2, "i")), show_(m))
                return factored(e, v, q, n, n, m)
            judge(ctx, "unblocked/%d/%d" % (n, c), w, go, "the factors multiply back")
    judge(ctx, "unblocked/empty", w, lambda: "" if evaluator(s, {A: [], p: []}, {P(f, 2, "i"): 0}).ev(s.ret) == 0 else "an empty matrix is refused", "an empty matrix")
    judge(ctx, "unblocked/null", w, lambda: "" if evaluator(s, {A: [[Q(0)]], p: [[Q(0)]]}, {P(f, 2, "i"): 0}).ev(s.ret) == 1 else "a null matrix is not refused", "a null matrix")


def whole(ctx, u, f):
    """the pieces put together: interchanges counted from the whole matrix, applied to every column"""
    s = summary(ctx, u, f, noinline=(UNB, ONEB))
    w, A, d, p, W = f.where(), P(f, 0), P(f, 1), P(f, 2), P(f, 3)

    def callee(e, t):
        c = t.args[1]
        nm = str(c.args[0]).split("::")[-1]
        a = e.shaped(c.args[1])
        m = [[a.d[max(i, j)][min(i, j)] for j in range(a.r)] for i in range(a.r)]
        block = nm == ONEB
        nb = e.shaped(c.args[2]).c if block else None
        r = bk(m, nb)
        i = int(t.args[0])
        if r is None:
            raise No("refused")
        v, q, sw, kb = r
        if i == 0:
            return D.build(a.r, a.r, lambda x, y: v[x][y] if x >= y else a.d[x][y])
        if i == (2 if block else 1):
            return D.build(a.r, 1, lambda x, y: q[x])
        if i == (3 if block else 2):
            return Q(sw)
        if block and i == 4:
            return Q(kb)
        if block and i == 1:
            return e.shaped(c.args[2])
        raise No("output")

    def status(e, t):
        a = e.shaped(t.args[1])
        m = [[a.d[max(i, j)][min(i, j)] for j in range(a.r)] for i in range(a.r)]
        nb = e.shaped(t.args[2]).c if str(t.args[0]).split("::")[-1] == ONEB else None
        return Q(0 if bk(m, nb) is not None else 1)
    fu = {"out": callee}
    for nm in (UNB, ONEB):
        for q in (nm, "internal::" + nm, "Eigen::internal::" + nm):
            fu[q] = status
    for n, ms in matrices(ctx.thorough()).items():
        for nb in [0] + list(range(2, n)):
            for c, m in enumerate(ms):
                def go():
                    e = evaluator(s, {A: lower(m), d: column([Q(9)] * n), p: column([Q(0)] * n), W: [[Q(0)] * nb for _ in range(n)]}, {P(f, 4, "i"): 0}, fu)
                    st = e.ev(s.ret)
                    if bk(m) is None:
                        return "" if st == 1 else "not refused: %s" % show_(m)
                    if st != 0:
                        return "refused: %s" % show_(m)
                    a, sub, q = entries(e, outp(s, 0)), [r[0] for r in entries(e, outp(s, 1))], [r[0] for r in entries(e, outp(s, 2))]
                    return final(a, sub, q, n, m)
                judge(ctx, "whole/%d/%d/%d" % (n, nb, c), w, go, "P A P^T = L D L^T")


def final(a, sub, q, n, A):
    perm, k = list(range(n)), 0
    L = [[Q(1) if i == j else a[i][j] if i > j else Q(0) for j in range(n)] for i in range(n)]
    Dm = [[Q(0)] * n for _ in range(n)]
    while k < n:
        if q[k] < 0:
            kp = int(-1 - q[k])
            if k + 1 >= n or q[k + 1] != q[k] or not k + 1 <= kp < n:
                return "interchanges %s" % q
            B = inv([[a[k][k], sub[k]], [sub[k], a[k + 1][k + 1]]])
            for i in range(2):
                for j in range(2):
                    Dm[k + i][k + j] = B[i][j]
            if a[k + 1][k] != 0 or sub[k + 1] != 0:
                return "the pivot block of order two is still in the factor"
            perm[k + 1], perm[kp] = perm[kp], perm[k + 1]
            k += 2
        else:
            kp = int(q[k])
            if not k <= kp < n or a[k][k] == 0:
                return "interchanges %s" % q
            if sub[k] != 0:
                return "an entry beside a pivot of order one"
            Dm[k][k] = 1 / a[k][k]
            perm[k], perm[kp] = perm[kp], perm[k]
            k += 1
    for i in range(n):
        for j in range(n):
            x = sum(L[i][s] * Dm[s][t] * L[j][t] for s in range(n) for t in range(max(0, s - 1), min(n, s + 2)))
            if x != A[perm[i]][perm[j]]:
                return "entry (%d,%d) is %s instead of %s for %s" % (i, j, x, A[perm[i]][perm[j]], show_(A))
    return ""


def patterns(n):
    """every way to split n columns into pivots of order one and two"""
    if n == 0:
        yield ()
        return
    for r in patterns(n - 1):
        yield (1,) + r
    if n >= 2:
        for r in patterns(n - 2):
            yield (2,) + r


def solve(ctx, u, f):
    s = summary(ctx, u, f)
    vec = "-1, 1>" in (f.targs or [""])[-1]
    key, w = "solve/%s/" % ("vec" if vec else "mat"), f.where()
    Lm, d, p, x = P(f, 0), P(f, 1), P(f, 2), P(f, 3)
    rnd = random.Random(3)
    for n in range(0, 5):
        for c, pat in enumerate(patterns(n)):
            for rep in range(2 if not ctx.thorough() else 8):
                a = [[Q(rnd.choice((1, -1, 2, 3, -4, 5))) / rnd.choice((1, 2)) for _ in range(n)] for _ in range(n)]
                sub, q, k = [Q(0)] * n, [Q(0)] * n, 0
                for st in pat:
                    kp = rnd.randrange(k + st - 1, n)
                    if st == 2:
                        sub[k] = Q(rnd.choice((2, -3, 7)))
                        a[k + 1][k] = Q(0)
                        q[k] = q[k + 1] = Q(-1 - kp)
                    else:
                        q[k] = Q(kp)
                    k += st
                nr = 1 if vec else 2
                b = [[Q(rnd.randint(-9, 9)) for _ in range(nr)] for _ in range(n)]

                def go():
                    e = evaluator(s, {Lm: a, d: column(sub), p: column(q), x: b}, {})
                    return solved(entries(e, outp(s, 3)), a, sub, q, b, pat, n, nr)
                if n == 0:
                    continue
                judge(ctx, key + "%d/%d/%d" % (n, c, rep), w, go, "solves with the factors, pivot orders %s" % (pat,))


def solved(got, a, sub, q, b, pat, n, nr):
    v = [r[:] for r in b]
    sw, k = [], 0
    for st in pat:
        sw.append((k + st - 1, int(q[k] if st == 1 else -1 - q[k])))
        k += st
    for i, j in sw:
        v[i], v[j] = v[j], v[i]
    for i in range(n):
        for j in range(i):
            for c in range(nr):
                v[i][c] -= a[i][j] * v[j][c]
    k = 0
    for st in pat:
        if st == 1:
            v[k] = [a[k][k] * y for y in v[k]]
        else:
            v[k], v[k + 1] = ([a[k][k] * y + sub[k] * z for y, z in zip(v[k], v[k + 1])],
                              [sub[k] * y + a[k + 1][k + 1] * z for y, z in zip(v[k], v[k + 1])])
        k += st
    for i in reversed(range(n)):
        for j in range(i + 1, n):
            for c in range(nr):
                v[i][c] -= a[j][i] * v[j][c]
    for i, j in reversed(sw):
        v[i], v[j] = v[j], v[i]
    for i in range(n):
        for c in range(nr):
            if got[i][c] != v[i][c]:
                return "row %d is %s instead of %s" % (i, got[i][c], v[i][c])
    return ""


def owner(ctx, u, r):
    for f in [m for m in r.methods if m.body is not None]:
        w = f.where()
        if f.name == "compute":
            s = summary(ctx, u, f, noinline=(ALL_,))
            ev = [e for e in s.events if e.kind == "call" and e.name == ALL_]
            if len(ev) != 1 or len(ev[0].args) != 5:
                ctx.ob("compute/once", w, None if ev else False, "one factorisation")
                continue
            a = ev[0].args[0]
            v = a.args[2] if a.op == "upd" and a.args[1].op == "vtri" else a
            low = [x.args[0] for x in ((a.args[1],) if v is not a else ()) + ((v,) if v.op == "tri" else ())]
            src = v.args[1] if v.op == "tri" else v
            ctx.ob("compute/matrix", ev[0].where, None if src is not P(f, 0) else not any("Lower" not in str(x) for x in low),
                   "the lower triangle given is what is factored: " + show(a, 4))
            ctx.ob("compute/always", w, True if ev[0].pcabs is TRUE else None, "whatever was factored before")
            got = outm(s, "m_info", so="i")
            ctx.ob("compute/info", w, True if got is ev[0].value else False if got.op in ("init", "enumc") else None, "the status kept is that of this factorisation: " + show(got, 4))
            for i, m in ((0, "m_matrix"), (1, "m_subdiag"), (2, "m_pivots")):
                v = outm(s, m)
                ok = v.op == "out" and v.args[0] == i and v.args[1] is ev[0].value
                ctx.ob("compute/kept/" + m, w, True if ok else False if v.op == "init" else None, "and so is its result: " + show(v, 4))
        elif f.name in ("matrixLDLT", "pivots", "subdiag", "info", "rows", "cols") and not f.params:
            s = summary(ctx, u, f)
            want = {"matrixLDLT": lambda: M("m_matrix"), "pivots": lambda: M("m_pivots"), "subdiag": lambda: M("m_subdiag"), "info": lambda: M("m_info", so="i"),
                    "rows": lambda: rows(M("m_matrix")), "cols": lambda: cols(M("m_matrix"))}[f.name]()
            v = s.ret
            if v is not None and v.op == "addr":
                m = {"matrixLDLT": "m_matrix", "pivots": "m_pivots", "subdiag": "m_subdiag"}.get(f.name)
                ctx.ob("get/" + f.name, w, v.args[0] is mcell(m) if m else None, "accessor: " + show(v, 4))
            else:
                ctx.same("get/" + f.name, w, v, want, "accessor")
        elif f.name == "_solve_impl":
            s = summary(ctx, u, f, noinline=(SOLVE,))
            ev = [e for e in s.events if e.kind == "call" and e.name == SOLVE]
            if len(ev) != 1 or len(ev[0].args) != 4:
                ctx.ob("solve/uses", w, None, "one solve")
                continue
            for i, (nm, t) in enumerate((("factors", M("m_matrix")), ("beside", M("m_subdiag")), ("interchanges", M("m_pivots")), ("right-hand side", P(f, 0)))):
                ctx.same("solve/uses/" + nm, ev[0].where, ev[0].args[i], t, "the %s" % nm)
