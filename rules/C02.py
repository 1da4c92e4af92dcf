"""Block-sparse LDL^T algebra, evaluated on random matrices that respect the block pattern: the product kernels of all
25 pairs of block kinds, one step of the block elimination (factors, Schur complement handed to the recursion,
refused kinds), forward and backward substitution along the structure, and the solver object built on them:
permuted input, solve, reconstruction, set-up of the permuted and analysed structure."""
from sa.terms import *
from sa.modlib import *
from sa import loops as LP
from sa import dense as D
from sa.dense import Q, build, Mat, No
import random

TITLE = "Block-sparse LDL^T algebra"
FLOOR = 10
KINDS = ("Zero", "Diag", "TriL", "TriU", "Dense")
K = lambda n: num(KINDS.index(n))


def inside(kind, i, j):
    return {"Zero": False, "Diag": i == j, "TriL": i >= j, "TriU": i <= j, "Dense": True}[kind]


def rnd(seed, r, c, kind="Dense"):
    g = random.Random(hash(seed))
    x = [[Q(g.choice((1, -1)) * g.randint(1, 9), g.choice((1, 1, 2, 3))) for j in range(c)] for i in range(r)]
    return build(r, c, lambda i, j: x[i][j] if inside(kind, i, j) else Q(0))


def run(ctx):
    u = ctx.unit("linalg")
    kernels(ctx, u)
    elimination(ctx, u)
    triangular(ctx, u)
    solver(ctx, u)
    permuting(ctx, u)


def shapes_of(lk, rk, vec):
    """(rows of dst, inner dimension, columns of dst)"""
    sq = lambda k: k in ("Diag", "TriL")
    for a, b, c in ((2, 2, 2), (3, 3, 3), (1, 1, 1), (2, 3, 2), (3, 2, 3), (2, 2, 3), (3, 2, 2), (3, 2, 1)):
        if vec and c != 1 and (a, b) != (2, 2):
            continue
        if vec:
            c = 1
        if sq(lk) and a != b or sq(rk) and c != b and not vec or (lk in KINDS[1:4] or rk in KINDS[1:4]) and (
                (lk, rk) not in (("TriU", "TriU"), ("TriU", "Dense"), ("Dense", "TriU"))) and (a != b and lk in KINDS[1:4] or c != b and rk in KINDS[1:4]):
            continue
        yield a, b, c


def kernels(ctx, u):
    for f in u.funcs.values():
        if f.name != "gemmt" or f.body is None:
            continue
        vec = "double, -1, 1>" in " ".join(f.targs)
        s = summary(ctx, u, f)
        dst, lhs, rhs, al = P(f, 0), P(f, 1), P(f, 2), P(f, 5, "s")
        w = f.where()
        final = outp(s, 0)
        for lk in KINDS:
            for rk in KINDS:
                if vec and rk not in ("Dense",):
                    continue
                got = under(final, and_(eq(P(f, 3, "i"), K(lk)), eq(P(f, 4, "i"), K(rk))))
                cases = []
                for a, b, c in shapes_of(lk, rk, vec):
                    A, B = rnd(("l", a, b, c), a, b, lk), rnd(("r", a, b, c), c, b)
                    prod = build(a, c, lambda i, j: sum((A.d[i][k] * B.d[j][k] for k in range(b) if inside(rk, j, k)), Q(0)))
                    d = {rows(dst): a, cols(dst): c, rows(lhs): a, cols(lhs): b, rows(rhs): c, cols(rhs): b, lhs: A, rhs: B,
                         mk("call", "spec:prod", sort="m"): prod}
                    cases.append(((lambda a, c: lambda t: (a, c))(a, c), d))
                ctx.at("update/%s-%s/%s" % (lk, rk, tag(f)), w, got, add(dst, mul(al, mk("call", "spec:prod", sort="m"))), cases,
                       "%s times transposed %s is added to the target" % (lk, rk), loops=s.loops)


def tag(f):
    import zlib
    return "%04x" % (zlib.crc32(" ".join(f.targs).encode()) & 0xffff)


# ---------------------------------------------------------------- one step of the block elimination
SYM = ("sym_structure",)


def matof(r, c, f):
    return build(r, c, f)


def matmul(a, b):
    return build(a.r, b.c, lambda i, j: sum((a.d[i][k] * b.d[k][j] for k in range(a.c)), Q(0)))


def tr(a):
    return build(a.c, a.r, lambda i, j: a.d[j][i])


def sub_(m, r, c, nr, nc):
    return build(nr, nc, lambda i, j: m.d[r + i][c + j])


def kern(e, t):
    """specification of the block product: target + alpha lhs rhs^T, rhs outside its pattern ignored"""
    a = t.args
    dst, lhs, rhs = e.shaped(a[1]), e.shaped(a[2]), e.shaped(a[3])
    lk, rk, al = KINDS[e.int(a[4])], KINDS[e.int(a[5])], e.scalar(a[6])
    if (dst.r, dst.c, lhs.c) != (lhs.r, rhs.r, rhs.c):
        raise No("shapes")
    if lk == "Zero" or rk == "Zero":
        return dst
    if any(lhs.d[i][k] != 0 and not inside(lk, i, k) for i in range(lhs.r) for k in range(lhs.c)):
        raise No("block outside its pattern")
    return build(dst.r, dst.c, lambda i, j: dst.d[i][j] + al * sum((lhs.d[i][k] * rhs.d[j][k] for k in range(lhs.c) if inside(rk, j, k)), Q(0)))


def outs(e, t):
    from rules.C03 import factor
    if t.args[0] != 0:
        raise No("output")
    c = t.args[1]
    nm = c.args[0].split("::")[-1]
    if nm == "gemmt":
        return kern(e, c)
    if nm in ("dense_ldlt_in_place", "ldlt_in_place_unblocked"):
        m = e.shaped(next(x for x in c.args[1:] if isinstance(x, Term) and x.sort == "m"))
        f = factor(m)
        return build(m.r, m.r, lambda i, j: f.d[i][j] if i >= j else Q(i * 7 - j * 5 + 3, 2))
    raise No("call")


def structure(lens, kinds, stride, base):
    """reading the structure of the block matrix: segment lengths and kinds (i, j) -> kind"""
    def init(e, t):
        c = t.args[0]
        if c.op == "idx" and c.args[0].op == "fld":
            k = e.int(c.args[1])
            if c.args[0].args[1] == "segment_lens" and c.args[0].args[0] is base:
                if not 0 <= k < len(lens):
                    raise No("segment %d" % k)
                return Q(lens[k])
            if c.args[0].args[1] == "m_data" and c.args[0].args[0] is base:
                i, j = k % stride, k // stride
                if i >= len(lens) or (i, j) not in kinds:
                    raise No("block (%d,%d)" % (i, j))
                return Q(KINDS.index(kinds[i, j]))
        return e.atom(t)
    return init


def blocks(lens):
    o = [0]
    for x in lens:
        o.append(o[-1] + x)
    return o


def step_cases():
    """(pivot kind, kinds of the blocks below, segment lengths)"""
    for pk, below in (("TriL", ("Zero", "TriU", "Dense")), ("Diag", ("Zero", "Diag", "TriU", "Dense"))):
        yield pk, (), (2,)
        for a in below:
            yield pk, (a,), (2, 2)
            if a in ("Zero", "Dense") or pk == "TriL":
                yield pk, (a,), (2, 3)
                yield pk, (a,), (3, 1)
            for b in below:
                yield pk, (a, b), (2, 2, 2)
    yield "TriL", ("Dense", "TriU"), (2, 1, 3)
    yield "Diag", ("Dense", "Diag", "Zero"), (2, 3, 2, 1)
    yield "Diag", ("Dense", "Dense", "Dense"), (1, 3, 1, 2)
    yield "TriL", ("Dense", "Zero", "Dense", "TriU"), (2, 1, 1, 3, 2)
    yield "Diag", ("Dense", "Dense", "Dense"), (1, 1, 3, 1)


def allkinds(pk, below):
    """kinds of all blocks once the structure is analysed: a trailing block is Zero only if no update reaches it"""
    kinds = {(i + 1, 0): k for i, k in enumerate(below)}
    kinds[0, 0] = pk
    for i in range(1, len(below) + 1):
        kinds[i, i] = "TriL"
        kinds[0, i] = "Zero"
        for j in range(i + 1, len(below) + 1):
            kinds[j, i] = "Zero" if "Zero" in (kinds[i, 0], kinds[j, 0]) else "Dense"
            kinds[i, j] = "Zero"
    return kinds


def step_data(pk, below, lens):
    """working matrix respecting the pattern, and the one expected after the step (lower part)"""
    from rules.C03 import factor
    o = blocks(lens)
    n = o[-1]
    kind = allkinds(pk, below)
    M_ = rnd(("A", pk, below, lens), n, n)
    blk_of = [next(b for b in range(len(lens)) if o[b] <= i < o[b + 1]) for i in range(n)]

    def ent(i, j):
        bi, bj = blk_of[i], blk_of[j]
        if bj == 0 and bi > 0 and not inside(kind[bi, 0], i - o[bi], j):
            return Q(0)
        if bi > bj > 0 and kind[bi, bj] == "Zero":
            return Q(0)
        if bi == bj == 0 and pk == "Diag" and i > j:
            return Q(0)
        return M_.d[i][j]
    A = build(n, n, ent)
    b = lens[0]
    F = factor(sub_(A, 0, 0, b, b))
    D_ = [F.d[i][i] for i in range(b)]
    L00 = build(b, b, lambda i, j: Q(1) if i == j else F.d[i][j] if i > j else Q(0))
    from sa.dense import inverse
    LD = matmul(sub_(A, b, 0, n - b, b), tr(inverse(L00))) if n > b else None
    L10 = build(n - b, b, lambda i, j: LD.d[i][j] / D_[j]) if n > b else None

    def want(i, j):
        if i < b and j < b:
            return F.d[i][j] if i >= j else Q(0)
        if j < b:
            return L10.d[i - b][j]
        if i < b:
            return Q(0)
        return A.d[i][j] - sum((L10.d[i - b][k] * LD.d[j - b][k] for k in range(b)), Q(0))
    return A, build(n, n, want)


def elimination(ctx, u):
    for f in u.funcs.values():
        if f.name != "ldlt_in_place_impl" or f.body is None:
            continue
        w = f.where()
        s = summary(ctx, u, f, noinline=("gemmt", "dense_ldlt_in_place", "ldlt_in_place_unblocked", "ldlt_in_place_impl"))
        base = mcell("sym_structure")
        A, os = M("mat"), M("sym_structure", "outer_stride", so="i")
        nb, ok = M("sym_structure", "segments_count", so="i"), M("sym_structure", "performed_llt", so="b")
        fin = outm(s, "mat")
        calls = [e for e in s.events if e.kind == "call" and e.name == "ldlt_in_place_impl"]
        LOW = lambda i, j, r, c: i >= j
        if len(calls) != 1:
            ctx.ob("step/recursion", w, None if calls else False, "the elimination goes on with the trailing blocks")
            continue
        st = calls[0].recv
        while st is not None and st.op in ("val", "addr"):
            st = st.args[0]
        if st is None or st.op != "struct":
            ctx.ob("step/recursion", w, None, "arguments of the recursion")
            continue
        fld = dict(zip(st.args[1], st.args[2:]))
        sm = fld.get("sym_structure")
        okr = sm is not None and sm.op == "call" and sm.args[0].endswith("submatrix")
        if okr:
            ctx.same("step/structure-from", w, sm.args[-2], ONE, "the trailing structure starts at the second block")
            ctx.same("step/structure-count", w, sm.args[-1], add(nb, num(-1)), "and holds the remaining blocks")
            ctx.same("step/structure-of", w, sm.args[1], M("sym_structure", so="o"), "of the same structure")
        else:
            ctx.ob("step/structure", w, None, "structure handed to the recursion")
        rt = [x for x in subterms(s.ret) if x.op == "call" and x.args[0].endswith("ldlt_in_place_impl")]
        for pk, below, lens in step_cases():
            key = "step/%s-%s/%s" % (pk, "-".join(below) or "last", "x".join(map(str, lens)))
            kinds = allkinds(pk, below)
            stride = len(lens) + 1
            a, want = step_data(pk, below, lens)
            n, b = a.r, lens[0]
            d = {rows(A): n, cols(A): n, os: stride, nb: len(lens), ok: True, A: a,
                 mk("call", "spec:a", sort="m"): want, mk("call", "spec:b", sort="m"): sub_(want, b, b, n - b, n - b)}
            for x in rt:
                d[x] = True
            funcs = {"init": structure(lens, kinds, stride, base), "out": outs}
            cs = [(lambda t: (n, n), d)]
            ctx.at(key + "/factor", w, fin, mk("call", "spec:a", sort="m"), cs, "one block column of the factors",
                   mask=lambda i, j, r, c: i >= j and j < b, funcs=funcs, n=1, loops=s.loops)
            ctx.at(key + "/success", w, s.ret, TRUE, cs, "success", funcs=funcs, n=1, loops=s.loops)
            if len(lens) > 1:
                ctx.at(key + "/trailing", w, fld.get("mat"), mk("call", "spec:b", sort="m"), cs,
                       "the trailing matrix handed on is the Schur complement", mask=LOW, funcs=funcs, n=1, loops=s.loops)
                for x in rt:
                    ctx.at(key + "/failure", w, s.ret, FALSE, [(lambda t: (n, n), dict(d, **{}) | {x: False})],
                           "failure of the trailing blocks is reported", funcs=funcs, n=1, loops=s.loops)
            if len(below) < 2:
                ctx.at("unanalysed" + key[4:], w, s.ret, FALSE, [(lambda t: (n, n), dict(d) | {ok: False})],
                       "a structure that was not analysed is refused", funcs=funcs, n=1, loops=s.loops)
        # pivots and blocks it cannot eliminate are refused
        for pk, below in (("Zero", ()), ("TriU", ()), ("Dense", ()), ("TriL", ("TriL",)), ("Diag", ("TriL",)), ("Diag", ("Dense", "TriL"))):
            lens = (2,) * (1 + len(below))
            kinds = allkinds(pk, below)
            stride = len(lens) + 1
            n = 2 * len(lens)
            d = {rows(A): n, cols(A): n, os: stride, nb: len(lens), ok: True}
            for x in rt:
                d[x] = True
            ctx.at("refused/%s-%s" % (pk, "-".join(below)), w, s.ret, FALSE, [(lambda t: (n, n), d)], "blocks without a rule are refused",
                   funcs={"init": structure(lens, kinds, stride, base), "out": outs}, n=1, loops=s.loops)


# ---------------------------------------------------------------- triangular solves
def tri_cases():
    """(kinds of the diagonal blocks, kinds of the others by (i, j), lengths)"""
    yield ("TriL",), {}, (3,)
    yield ("Diag",), {}, (2,)
    yield ("TriL", "TriL"), {(1, 0): "Dense"}, (2, 3)
    yield ("Diag", "TriL"), {(1, 0): "Zero"}, (2, 2)
    yield ("Diag", "TriL"), {(1, 0): "Diag"}, (2, 2)
    yield ("TriL", "Diag"), {(1, 0): "TriU"}, (2, 2)
    yield ("TriL", "TriL", "TriL"), {(1, 0): "Dense", (2, 0): "Dense", (2, 1): "Dense"}, (2, 1, 3)
    yield ("Diag", "Diag", "TriL"), {(1, 0): "Zero", (2, 0): "Diag", (2, 1): "Dense"}, (2, 3, 2)
    yield ("Diag", "TriL", "TriL"), {(1, 0): "Dense", (2, 0): "Zero", (2, 1): "Dense"}, (1, 3, 2)
    yield ("TriL", "Diag", "TriL", "Diag"), {(1, 0): "TriU", (2, 0): "Zero", (3, 0): "Dense", (2, 1): "Dense",
                                             (3, 1): "Zero", (3, 2): "Dense"}, (2, 2, 1, 3)


def tri_data(diag, off, lens, lower):
    """stored matrix (what the solve may not read is arbitrary), the kinds it is told, and the factor"""
    o = blocks(lens)
    n = o[-1]
    bl = [next(b for b in range(len(lens)) if o[b] <= i < o[b + 1]) for i in range(n)]
    G = rnd(("T", diag, tuple(sorted(off.items())), lens), n, n)

    def ent(i, j, stored):
        bi, bj = bl[i], bl[j]
        if bi == bj:
            if stored:
                return G.d[i][j]
            return Q(1) if i == j else G.d[i][j] if i > j and diag[bi] == "TriL" else Q(0)
        if bi > bj:
            return G.d[i][j] if inside(off[bi, bj], i - o[bi], j - o[bj]) else Q(0)
        return G.d[i][j] if stored else Q(0)
    S, L = build(n, n, lambda i, j: ent(i, j, True)), build(n, n, lambda i, j: ent(i, j, False))
    t = {"TriL": "TriU", "TriU": "TriL"}
    if lower:
        kinds = dict(off)
        for (i, j), k in off.items():
            kinds[j, i] = "Zero"
        kinds.update({(i, i): k for i, k in enumerate(diag)})
        return S, kinds, L
    kinds = {(j, i): t.get(k, k) for (i, j), k in off.items()}
    kinds.update({k: "Zero" for k in off})
    kinds.update({(i, i): t.get(k, k) for i, k in enumerate(diag)})
    return tr(S), kinds, tr(L)


def outs_only_kern(e, t):
    if t.args[0] == 0 and t.args[1].args[0].split("::")[-1] == "gemmt":
        return kern(e, t.args[1])
    raise No("call")


def triangular(ctx, u):
    from sa.dense import inverse
    for f in u.funcs.values():
        if f.name != "solveInPlace" or f.body is None or not f.rec or f.rec.name != "TriangularBlockMatrix":
            continue
        lower = "5" in f.rec.targs[-1:]
        if f.rec.targs[-1] not in ("5", "6"):
            ctx.ob("tri/mode", f.where(), None, "mode %s" % f.rec.targs[-1])
            continue
        s = summary(ctx, u, f, noinline=("gemmt",))
        w = f.where()
        lab = ("lower" if lower else "upper") + "/" + tag(f)
        b = P(f, 0)
        vec = "double, -1, 1>" in f.targs[0]
        A, st = M("m_matrix"), mcell("m_structure")
        os, nb = M("m_structure", "outer_stride", so="i"), M("m_structure", "segments_count", so="i")
        for diag, off, lens in tri_cases():
            S, kinds, L = tri_data(diag, off, lens, lower)
            n = S.r
            c = 1 if vec else 2
            B = rnd(("b", lens, c), n, c)
            d = {rows(A): n, cols(A): n, rows(b): n, cols(b): c, os: len(lens) + 1, nb: len(lens), A: S, b: B,
                 mk("call", "spec:x", sort="m"): matmul(inverse(L), B)}
            fn = {"init": structure(lens, kinds, len(lens) + 1, st), "out": outs_only_kern}
            key = "tri/%s/%s" % (lab, "-".join(diag) + "/" + "x".join(map(str, lens)) + "/" + "-".join(off[k] for k in sorted(off)))
            cs = [(lambda t: (n, c), d)]
            ctx.at(key + "/solution", w, outp(s, 0), mk("call", "spec:x", sort="m"), cs, "solution of the triangular system",
                   funcs=fn, n=1, loops=s.loops)
            ctx.at(key + "/success", w, s.ret, TRUE, cs, "success", funcs=fn, n=1, loops=s.loops)
        for bad in ("Zero", "Dense"):
            for at in (0, 1):
                diag = ["TriL" if lower else "TriU"] * 2
                diag[at] = bad
                kinds = {(0, 0): diag[0], (1, 1): diag[1], (1, 0): "Dense", (0, 1): "Dense"}
                d = {rows(A): 4, cols(A): 4, rows(b): 4, cols(b): 1, os: 3, nb: 2}
                ctx.at("tri/%s/refused/%s-%d" % (lab, bad, at), w, s.ret, FALSE, [(lambda t: (4, 1), d)],
                       "a diagonal block that is no triangular factor is refused",
                       funcs={"init": structure((2, 2), kinds, 3, st), "out": outs_only_kern}, n=1, loops=s.loops)


# ---------------------------------------------------------------- the solver object
def permmat(p):
    n = len(p)
    return build(n, n, lambda i, j: Q(int(p[j] == i)))


def of_block_ldlt(u, name, npar=None):
    for f in u.funcs.values():
        if f.name == name and f.body is not None and f.rec is not None and f.rec.name == "BlockLDLT" and f.rec.targs and \
                (npar is None or len(f.params) == npar):
            yield f


def reads(*hs):
    def init(e, t):
        for h in hs:
            v = h(e, t)
            if v is not None:
                return v
        return e.atom(t)
    return init


def only(base, h):
    def g(e, t):
        c = t.args[0]
        if c.op == "idx" and c.args[0].op == "fld" and c.args[0].args[0] is base:
            return h(e, t)
        return None
    return g


def solver(ctx, u):
    from sa.dense import inverse
    A, PM = M("m_matrix"), M("m_permutation")
    sp = lambda k: mk("call", "spec:" + k, sort="m")
    st, tt = mcell("m_structure"), mcell("m_struct_tr")
    for nm in ("solveInPlace", "solve"):
        for f in of_block_ldlt(u, nm, 1):
            s = summary(ctx, u, f, noinline=("gemmt",))
            w, b = f.where(), P(f, 0)
            vec = "double, -1, 1>" in f.targs[0]
            got = outp(s, 0) if nm == "solveInPlace" else s.ret
            tols = {x for x in subterms(got) if x.op == "const"} | {x for lc in s.loops for v in lc.back.values() if isinstance(v, Term)
                                                                    for x in subterms(v) if x.op == "const"}
            for k, (diag, off, lens) in enumerate(tri_cases()):
                S, kl, L = tri_data(diag, off, lens, True)
                _, ku, _ = tri_data(diag, off, lens, False)
                n, c = S.r, 1 if vec else 2
                g = random.Random(k)
                p = list(range(n))
                g.shuffle(p)
                null = set(range(n)) if k == 0 else {g.randrange(n)} if k % 3 == 1 else set()
                S = Mat(n, n, [[Q(0) if i == j and i in null else S.d[i][j] for j in range(n)] for i in range(n)])
                B = rnd(("rhs", lens, c), n, c)
                Dp = build(n, n, lambda i, j: (1 / S.d[i][i] if S.d[i][i] != 0 else Q(0)) if i == j else Q(0))
                Pm, Li = permmat(p), inverse(L)
                X = matmul(Pm, matmul(tr(Li), matmul(Dp, matmul(Li, matmul(tr(Pm), B)))))
                d = {rows(A): n, cols(A): n, rows(b): n, cols(b): c, rows(PM): n, cols(PM): n, A: S, b: B, PM: Pm, sp("x"): X}
                for c_ in tols:
                    d[c_] = Q(1, 10 ** 12)
                for m_ in ("m_structure", "m_struct_tr"):
                    d[M(m_, "outer_stride", so="i")] = len(lens)
                    d[M(m_, "segments_count", so="i")] = len(lens)
                fn = {"init": reads(only(st, structure(lens, kl, len(lens), st)), only(tt, structure(lens, ku, len(lens), tt))), "out": outs_only_kern}
                key = "%s/%s/%s" % (nm, "vector" if vec else "matrix", "-".join(diag) + "/" + "x".join(map(str, lens)) + "/" + "-".join(off[q] for q in sorted(off)))
                cs = [(lambda t: (n, c), d)]
                ctx.at(key, w, got, sp("x"), cs, "P L^-T D^+ L^-1 P^T b, null pivots skipped", funcs=fn, n=1, loops=s.loops)
                if nm == "solveInPlace":
                    ctx.at(key + "/success", w, s.ret, TRUE, cs, "success", funcs=fn, n=1, loops=s.loops)
            if nm == "solve":
                unchanged(ctx, "solve/operand/" + tag(f), f, s, {cell(f, 0)}, "solving in a copy leaves the right-hand side alone")
    # the matrix that is factored
    for f in of_block_ldlt(u, "compute", 1):
        s = summary(ctx, u, f, noinline=("ldlt_in_place_impl",))
        w, m_ = f.where(), P(f, 0)
        ev = [e for e in s.events if e.kind == "call" and e.name == "ldlt_in_place_impl"]
        sv = ev[0].recv if len(ev) == 1 else None
        while sv is not None and sv.op in ("val", "addr"):
            sv = sv.args[0]
        if sv is None or sv.op != "struct":
            ctx.ob("compute/factor", w, None if ev else False, "the permuted matrix is factored")
            continue
        fld = dict(zip(sv.args[1], sv.args[2:]))
        for n in (1, 2, 3, 4, 5):
            g = random.Random(n)
            p = list(range(n))
            g.shuffle(p)
            G = rnd(("full", n), n, n)
            W = build(n, n, lambda i, j: G.d[max(p[i], p[j])][min(p[i], p[j])])
            d = {rows(m_): n, cols(m_): n, rows(PM): n, cols(PM): n, rows(A): n, cols(A): n, m_: G, PM: permmat(p), sp("w"): W}
            ctx.at("compute/permuted/%d" % n, w, fld.get("mat"), sp("w"), [(lambda t: (n, n), d)],
                   "the lower part of the permuted matrix, from the lower part of the input", mask=lambda i, j, r, c: i >= j, n=1, loops=s.loops,
                   funcs={"conservativeResizeLike": lambda e, t: e.ev(t.args[1])})
        ctx.same("compute/structure", w, fld.get("sym_structure"), M("m_structure", so="o"), "factored along the analysed structure")
        okv = [x for x in subterms(outm(s, "m_info", so="i")) if x.op == "call" and x.args[0].endswith("ldlt_in_place_impl")]
        if okv:
            E = lambda n: mk("enumc", n, sort="i")
            ctx.same("compute/status", w, outm(s, "m_info", so="i"), ite(okv[0], E("Success"), E("NumericalIssue")), "status of the factorisation")
        else:
            ctx.ob("compute/status", w, None if ev else False, "status of the factorisation")
    for f in of_block_ldlt(u, "reconstructedMatrix", 0):
        s = summary(ctx, u, f, noinline=("dense_ldlt_reconstruct",))

        def rec(e, t):
            c = t.args[1]
            if not c.args[0].endswith("dense_ldlt_reconstruct") or t.args[0] != 1:
                raise No("call")
            F, R = e.shaped(c.args[1]), e.mat(c.args[2])
            n = F.r
            if not isinstance(R, Mat):
                R = R.to(n, n)
            L = build(n, n, lambda i, j: F.d[i][j] if i > j else Q(int(i == j)))
            Dm = build(n, n, lambda i, j: F.d[i][i] if i == j else Q(0))
            return matmul(L, matmul(Dm, matmul(tr(L), R)))
        for n in (1, 2, 3, 4):
            g = random.Random(n)
            p = list(range(n))
            g.shuffle(p)
            F = rnd(("fac", n), n, n)
            L = build(n, n, lambda i, j: F.d[i][j] if i > j else Q(int(i == j)))
            LD = build(n, n, lambda i, j: L.d[i][j] * F.d[j][j])
            Pm = permmat(p)
            d = {rows(A): n, cols(A): n, rows(PM): n, cols(PM): n, A: F, PM: Pm, sp("w"): matmul(Pm, matmul(matmul(LD, tr(L)), tr(Pm)))}
            ctx.at("reconstruct/%d" % n, f.where(), s.ret, sp("w"), [(lambda t: (n, n), d)], "P L D L^T P^T", n=1, loops=s.loops, funcs={"out": rec})


def permuting(ctx, u):
    sp = mk("call", "spec:p", sort="m")
    PM = M("m_permutation")
    for f in of_block_ldlt(u, "computeStartIndices", 1):
        s = summary(ctx, u, f)
        w = f.where()
        lens = (2, 3, 1, 4)
        o = blocks(lens)
        start = mk("fld", THIS, "m_start_idx")

        def init(e, t):
            c = t.args[0]
            if c.op == "idx" and c.args[0].op == "fld" and c.args[0].args[1] == "segment_lens":
                own = c.args[0].args[0] is mcell("m_structure")       # the object's own structure may be another one
                return Q((5, 1, 4, 2)[e.int(c.args[1])] if own else lens[e.int(c.args[1])])
            if c.op == "idx" and c.args[0] is start:
                return Q(o[e.int(c.args[1])])
            return e.atom(t)
        try:
            e = D.DEval(0, lambda t: None, {M("m_structure", "segments_count", so="i"): 4}, None, {"init": init}, s.loops)
            wr = {}
            for k, v in s.final.store.items():
                if k.op == "idx" and k.args[0] is start:
                    wr[e.int(k.args[1])] = e.int(v)
            for k, (v, N, var) in s.final.fams.items():
                if k.op == "idx" and k.args[0] is start:
                    for i in range(e.int(N)):
                        wr[e.int(subst(k.args[1], {var: num(i)}))] = e.int(subst(v, {var: num(i)}))
            for x in s.events:
                if x.kind == "store" and x.loc.op == "idx" and x.loc.args[0] is start and is_num(x.loc.args[1]) and x.pcabs is TRUE:
                    wr.setdefault(e.int(x.loc.args[1]), e.int(x.value))
            ctx.ob("starts", w, False if any(wr.get(i, o[i]) != o[i] for i in range(4)) else True if all(i in wr for i in range(4)) else None, "blocks of lengths %s start at %s; found %s" % (lens, o[:4], wr))
        except No as x:
            ctx.ob("starts", w, None, "starts of the blocks: %s" % x)
    for f in of_block_ldlt(u, "updateBlockPermutationMatrix", 1):
        s = summary(ctx, u, f, noinline=("computeStartIndices",))
        w = f.where()
        calls = [e for e in s.events if e.kind == "call" and e.name == "computeStartIndices"]
        pi = cell(f, 0)
        if len(calls) == 1:
            a = calls[0].args[0]
            ctx.ob("permutation/starts", w, True if calls[0].pcabs is TRUE and any(x is pi for x in subterms(a)) or a is P(f, 0, "o") else None,
                   "block starts of the structure before it was permuted")
        else:
            s2 = summary(ctx, u, f)
            ctx.ob("permutation/starts", w, None if calls or any(k.op == "idx" and k.args[0].op == "fld" and k.args[0].args[1] == "m_start_idx"
                                                                 for k in s2.final.fams) else False, "block starts are computed before they are used")
        lab = 0
        for lens, p in (((2, 3, 1), (0, 1, 2)), ((2, 3, 1), (2, 0, 1)), ((1, 2), (1, 0)), ((2, 1, 3, 2), (3, 1, 0, 2)), ((4,), (0,))):
            o = blocks(lens)
            n = o[-1]

            def init(e, t):
                c = t.args[0]
                if c.op == "idx" and c.args[0].op == "fld":
                    k, nm = e.int(c.args[1]), c.args[0].args[1]
                    if nm in ("segment_lens", "m_start_idx", "m_perm"):
                        return Q({"segment_lens": lens, "m_start_idx": o, "m_perm": p}[nm][k])
                return e.atom(t)

            def elem(e, t):
                b = t.args[0]
                if b.op == "getf" and b.args[1] in ("m_perm", "m_start_idx"):
                    return Q({"m_start_idx": o, "m_perm": p}[b.args[1]][e.int(t.args[1])])
                raise No("element")

            def getf(e, t):
                if t.args[1] == "segments_count":
                    return Q(len(lens))
                raise No("field")
            ids = [i for b in p for i in range(o[b], o[b + 1])]
            d = {M("m_structure", "segments_count", so="i"): len(lens), rows(PM): n, cols(PM): n, sp: permmat(ids)}
            r = list(range(n))
            random.Random(n).shuffle(r)
            d[PM] = permmat(r)
            lab += 1
            ctx.at("permutation/blocks/%d" % lab, w, outm(s, "m_permutation"), sp, [(lambda t: (n, n), d)],
                   "the rows of the blocks in the order of the block permutation", n=1, loops=s.loops, funcs={"init": init, "elem": elem, "getf": getf})
    # set-up of the permuted, analysed structure
    for nm in ("setBlockPermutation", "findSparsifyingPermutation"):
        for f in of_block_ldlt(u, nm):
            s = summary(ctx, u, f, noinline=("symbolic_deep_copy", "analyzePattern", "updateBlockPermutationMatrix", "brute_force_best_permutation", "copy", "llt_in_place", "transpose"))
            w = f.where()
            ev = {k: [e for e in s.events if e.kind == "call" and e.name == k] for k in
                  ("symbolic_deep_copy", "analyzePattern", "updateBlockPermutationMatrix", "brute_force_best_permutation")}
            for k in ("symbolic_deep_copy", "updateBlockPermutationMatrix"):
                if len(ev[k]) != 1 or ev[k][0].pcabs is not TRUE:
                    ctx.ob("setup/%s/%s" % (nm, k), w, None if ev[k] else False, "%s is done once" % k)
                    continue
                a = ev[k][0].args[0]
                src = [x for x in subterms(a) if x.op == "init"]
                ok = a.op == "call" and a.args[0].endswith("copy") and len(a.args) == 2 and a.args[1] is M("m_structure", so="o")
                ctx.ob("setup/%s/%s" % (nm, k), w, True if ok else False if any(
                    x.op == "call" and x.args[0].split("::")[-1] in ("symbolic_deep_copy", "analyzePattern") for x in subterms(a)) else None, "from the structure as it was: %s" % show(a, 5))
            if len(ev["symbolic_deep_copy"]) == 1:
                e0 = ev["symbolic_deep_copy"][0]
                ctx.ob("setup/%s/order" % nm, w, True if e0.args[2] is mk("addr", mcell("m_perm")) else None if e0.args[2].op != "null" else False,
                       "permuted by the block permutation")
                later = [e for e in ev["analyzePattern"] if e.seq > e0.seq and e.pcabs is TRUE]
                ctx.ob("setup/%s/analysed" % nm, w, True if later else False if not any(
                    e.seq > e0.seq for e in s.events if e.kind == "call" and e.name in ("llt_in_place", "analyzePattern")) else None, "and analysed")
                if nm == "findSparsifyingPermutation":
                    bf = [e for e in ev["brute_force_best_permutation"] if e.seq < e0.seq and e.pcabs is TRUE]
                    ctx.ob("setup/%s/search" % nm, w, True if bf else False if not ev["brute_force_best_permutation"] else None, "after the permutation was sought")
    for f in of_block_ldlt(u, "analyzePattern", 0):
        s = summary(ctx, u, f, noinline=("llt_in_place", "transpose"))
        w = f.where()
        done = M("m_structure", "performed_llt", so="b")
        ll = [e for e in s.events if e.kind == "call" and e.name == "llt_in_place"]
        if len(ll) != 1:
            ctx.ob("analyse/factor", w, None if ll else False, "the structure is factored symbolically")
            continue
        ctx.under("analyse/once", w, TRUE, ll[0].pcabs, not_(done), "analysed unless it was")
        ctx.under("analyse/done", w, done, s.ret, TRUE, "nothing to do")
        r = under(s.ret, not_(done))
        ctx.ob("analyse/result", w, True if r.op == "call" and r.args[0].endswith("llt_in_place") else False if is_num(r) or r in (TRUE, FALSE) else None,
               "reports whether the analysis succeeded: %s" % show(r, 4))
        x = under(outm(s, "m_struct_tr", so="o"), not_(done))
        ok = x.op == "call" and x.args[0].endswith("transpose") and x.args[1].op == "after" and x.args[1].args[0].op == "call" and \
            x.args[1].args[0].args[0].endswith("llt_in_place")
        bad = x is M("m_struct_tr", so="o") or x.op == "call" and x.args[0].endswith("transpose") and x.args[1] is M("m_structure", so="o")
        ctx.ob("analyse/transpose", w, True if ok else False if bad else None, "the transposed structure is that of the analysed one: %s" % show(x, 5))
