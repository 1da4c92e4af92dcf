"""Signs and inertia: what the factorisations report about signs is what their pivots say.  Each signature
visitor yields the sign of every pivot (1x1 pivots) or the pair of signs of a 2x2 Bunch-Kaufman block at any
scale; the inertia counts those signs."""
from fractions import Fraction
from sa.terms import *
from sa.modlib import *
from sa.interp import root
from sa import loops as LP
from sa import dense as D

TITLE = "Signs and inertia"
FLOOR = 12
EPS = mk("const", "const:epsilon", sort="s")


def sub(a, b):
    return add(a, neg(b))


def sgn(x):
    return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), num(-1), ZERO))


def run(ctx):
    u = ctx.unit("linalg")
    bk(ctx, u)
    visitors(ctx, u)
    counts(ctx, u)


def xc(name, so="m"):
    return lambda it, f, args, st, n: mk("call", "bk:" + name, sort="mi" if name == "pivots" else so)


# ------------------------------------------------------- Bunch-Kaufman signature
def bk(ctx, u):
    A, PV, SD = (mk("call", "bk:" + n, sort="mi" if n == "pivots" else "m") for n in ("matrixLDLT", "pivots", "subdiag"))
    for f in u.funcs.values():
        if f.name != "bunch_kaufman_compute_signature" or f.body is None:
            continue
        n = rows(P(f, 0))
        s = summary(ctx, u, f, intrinsics={k: xc(k) for k in ("matrixLDLT", "pivots", "subdiag")})
        w, key = f.where(), "bk/"
        sig = cell(f, 1)
        lp = [lc for lc in s.loops if sig in lc.back]
        ks = [c for c in lp[0].phis if c.op == "local" and lp[0].phis[c].sort == "i"] if len(lp) == 1 else []
        if len(lp) != 1 or len(ks) != 1 or lp[0].recs is None:
            ctx.ob(key + "shape", w, None, "one loop over the pivots with one counter")
            continue
        lc, kc = lp[0], ks[0]
        k, sg = LP.phi_of(lc, kc), LP.phi_of(lc, sig)
        ctx.same(key + "start", lc.where, lc.entry.store.get(kc), ZERO, "the pivots are visited from the first one")
        e0 = lc.entry.store.get(sig)
        ctx.ob(key + "resized", lc.where, False if e0 is None or e0.op == "init" else rows(e0) is n or size(e0) is n or
               any(x.op in ("call", "sized") and n in x.args for x in subterms(e0)) or None, "one entry per row of the matrix")
        head = lc.recs[0]
        back = lc.recs[1]
        num_eps = {EPS: num(Fraction(1, 2 ** 52)), n: mk("any", "n", sort="i")}
        go = back.pc
        ctx.under(key + "range", lc.where, lt(k, n), and_(lt(k, n), go), lt(k, n), "every pivot below the dimension is visited")
        ctx.under(key + "stop", lc.where, ge(k, n), go, FALSE, "and nothing beyond it")
        two = lt(elt(PV, k), ZERO)
        kb = lc.back[kc]
        pre1, pre2 = and_(lt(k, n), not_(two)), and_(lt(k, n), two)
        ctx.under(key + "step/1", lc.where, pre1, kb, add(k, ONE), "a 1x1 pivot takes one row")
        ctx.under(key + "step/2", lc.where, pre2, kb, add(k, num(2)), "a 2x2 pivot takes two rows")
        new = lc.back[sig]
        a = elt(A, k, k)
        k1 = add(k, ONE)
        d, o = elt(A, k1, k1), elt(SD, k)
        at = lambda j: elt(new, j)
        ctx.under(key + "1x1", lc.where, pre1, at(k), sgn(a), "the sign of the pivot")
        NN = 5
        sq = lambda it, t: D.build(NN, NN, lambda i, j: Fraction(i + 2 * j + 1)) if t.args[0] == "bk:matrixLDLT" else \
            D.build(NN, 1, lambda i, j: Fraction((-1) ** (i // 2))) if t.args[0] == "bk:pivots" else D.build(NN, 1, lambda i, j: Fraction(i + 3))
        fn = {"bk:" + x: sq for x in ("matrixLDLT", "pivots", "subdiag")}
        for kv in (1, 2, 3):
            ctx.at(key + "earlier/%d" % kv, lc.where, new, sg, [(lambda t: (NN, 1), {k: kv, n: NN})], "earlier entries are kept",
                   mask=lambda i, j, r, c, kv=kv: i < kv, vals={EPS: Fraction(1, 2 ** 52)}, funcs=fn)
        s0, s1 = constrain(at(k), pre2), constrain(at(k1), pre2)
        X, Y, Z = (mk("any", v, sort="s") for v in "xyz")
        for tag, sc in (("unit", ONE), ("small", num(Fraction(1, 2 ** 40))), ("large", num(2 ** 40))):
            mp = dict(num_eps)
            mp.update({a: mul(sc, X), d: mul(sc, Y), o: mul(sc, Z)})
            p, q = subst(subst(s0, num_eps), mp), subst(subst(s1, num_eps), mp)
            det = sub(mul(X, Y), mul(Z, Z))
            mag = maxmin("max", [mul(X, Y), neg(mul(X, Y)), mul(Z, Z)])
            clear = mul(num(Fraction(1, 8)), mag)
            ctx.implied(key + "indefinite/" + tag, lc.where, lt(det, neg(clear)), and_(eq(add(p, q), ZERO), eq(mul(p, q), num(-1))),
                        "a 2x2 block with negative determinant has one positive and one negative eigenvalue")
            ctx.implied(key + "definite/" + tag, lc.where, gt(det, clear), and_(eq(p, sgn(add(X, Y))), eq(q, sgn(add(X, Y)))),
                        "a 2x2 block with positive determinant has two eigenvalues of the sign of its trace")
            sq = dict(num_eps)
            sq.update({a: mul(sc, mul(X, X)), d: mul(sc, mul(Y, Y)), o: mul(sc, mul(X, Y))})
            p, q = subst(s0, sq), subst(s1, sq)
            ctx.implied(key + "singular/" + tag, lc.where, and_(ne(X, ZERO), ne(Y, ZERO)), and_(eq(mul(p, q), ZERO), eq(add(p, q), ONE)),
                        "a singular 2x2 block has one zero eigenvalue and one of the sign of its trace")


# ------------------------------------------------------- visitors
def visitors(ctx, u):
    r = u.record("ComputeSignatureVisitor")
    VD = mk("call", "vectorD", sort="m")
    for f in r.methods:
        if f.name != "operator()" or f.body is None:
            continue
        t = qt(f.params[0])
        tag = "visitor/" + next((x for x in ("DenseLDLT", "BlockLDLT", "BunchKaufman", "LDLT") if x in t), "?")
        if "BunchKaufman" in t:
            g = []
            s = summary(ctx, u, f, intrinsics={"bunch_kaufman_compute_signature": lambda it, ff, args, st, n: g.append(1) or None,
                                               **{k: xc(k) for k in ("matrixLDLT", "pivots", "subdiag")}})
            lp = [lc for lc in s.loops if mcell("signature") in lc.back]
            ctx.ob(tag, f.where(), True if len(lp) == 1 and lp[0].recs else None, "fills the referenced signature from the blocks")
            continue
        s = summary(ctx, u, f, intrinsics={"vectorD": lambda it, ff, args, st, n: VD})
        i = mk("bv", "elem", sort="i")
        ctx.same(tag, f.where(), elt(outm(s, "signature"), i), sgn(elt(VD, i)), "the sign of every pivot")
    for cls in ("DenseLDLT", "BlockLDLT"):
        for f in u.record(cls).methods:
            if f.name != "vectorD" or f.body is None:
                continue
            v = summary(ctx, u, f).ret
            m = M("m_matrix")
            ok = None
            if v is diagv(m):
                ok = True
            elif v.op == "call" or v.op.startswith("eigen-ctor"):
                a = v.args
                a = a[1:] if a and not isinstance(a[0], Term) else a
                if len(a) == 4 and a[0].op == "addr":
                    st = a[3].args[1] if a[3].op == "sized" else a[3]
                    outer = mk("call", "outerStride", m, sort="i")
                    ok = a[0].args[0] is mcell("m_matrix") and a[1] in (rows(m), cols(m)) and a[2] is ONE and \
                        st in (add(ONE, outer), add(ONE, rows(m)))
            ctx.ob("pivots/" + cls, f.where(), ok, "the pivots are the diagonal of the factored matrix, by its stride: %s" % show(v, 6))


# ------------------------------------------------------- inertia
SIGS = ((), (1,), (0, 1, 0, -1, 0), (1, 1, -1, 1, -1, -1), (-1, 0, 1), (0, 0, 1, -1, -1), (1, 0))


def counts(ctx, u):
    for f in u.funcs.values():
        if f.name != "computeInertiaTuple" or f.body is None:
            continue
        s = summary(ctx, u, f)
        v = s.ret
        while v.op == "list" and len(v.args) == 1:
            v = v.args[0]
        if v.op not in ("list", "veclit") or len(v.args) != 3:
            ctx.ob("inertia", f.where(), None, "three counts")
            continue
        x = P(f, 0)
        N = size(x)
        i = mk("bv", "i", sort="i")
        for pos, val, what in ((0, 1, "positive"), (1, -1, "negative"), (2, 0, "zero")):
            got = v.args[pos]
            want = psum(i, N, ite(eq(elt(x, i), num(val)), ONE, ZERO))
            # entries other than -1, 0, 1 are refused, so the counts are compared where there are none
            r = count_is(got, x, N, val)
            if r is None:           # not a plain sum: followed on given signatures
                for n, sig in enumerate(SIGS):
                    ctx.at("inertia/%s/%d" % (what, n), f.where(), got, num(sum(1 for e in sig if e == val)),
                           [(lambda t: (len(sig), 1), {N: len(sig), rows(x): len(sig), x: D.build(len(sig), 1, lambda a, b: Fraction(sig[a]))})],
                           "number of %s entries in %s" % (what, list(sig)), n=1, loops=s.loops)
                continue
            ctx.ob("inertia/" + what, f.where(), r, "number of %s entries: %s" % (what, show(got, 8)))
        bad = mk("any", "entry", sort="i")
        th = throws(s)
        ctx.ob("inertia/refuses", f.where(), None if th is FALSE and any(e.kind == "throw" for e in s.events) else
               th is not FALSE and any(e.kind == "throw" for e in s.events), "an entry other than -1, 0, 1 is refused")
        for e in s.events:
            if e.kind == "throw":
                es = [t for t in subterms(e.pcabs) if t.op == "elt" and t.args[0] is x]
                for t in set(es):
                    for val in (-1, 0, 1):
                        ctx.ob("inertia/accepts/%d" % val, e.where, subst(e.pcabs, {t: num(val)}) is FALSE,
                               "an entry %d is not refused" % val)


def count_is(got, x, N, val):
    """is `got` the number of entries of x equal to val, given every entry is -1, 0 or 1"""
    if got.op != "psum" or got.args[0] is not N:
        return None
    var = binder_var(got)
    body = got.args[1]
    for v in (-1, 0, 1):
        b = subst(body, {elt(x, var): num(v)})
        if b.op != "num":
            return None
        if b.args[0] != (1 if v == val else 0):
            return False
    return True
