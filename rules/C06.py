"""The sign summary of a factorisation: started afresh by every factorisation, joined with every pivot once, in the
elimination that computes it, and handed through the recursion from the first block to the last."""
from sa.terms import *
from sa.modlib import *
from sa import loops as LP
from fractions import Fraction
from sa.interp import root
from sa import dense as D

TITLE = "Sign of a factorised matrix"
FLOOR = 8
E = lambda n: mk("enumc", n, sort="i")
ZS, PS, NS, IN = E("ZeroSign"), E("PositiveSemiDef"), E("NegativeSemiDef"), E("Indefinite")
JOIN = "update_sign_matrix"
ROUTINES = ("dense_ldlt_in_place", "ldlt_in_place_unblocked", "ldlt_in_place_impl")
NO = (JOIN, "gemmt") + ROUTINES
SIGNS = (("zero", ZS), ("pos", PS), ("neg", NS), ("indef", IN))
CODES = {ZS: Fraction(0), PS: Fraction(1), NS: Fraction(2), IN: Fraction(3)}


def run(ctx):
    u = ctx.unit("linalg")
    for f in list(u.funcs.values()):
        if f.body is None or not (f.where() or "").startswith("include/proxsuite-nlp/linalg/"):
            continue
        if f.name == JOIN and len(f.params) == 2:
            join(ctx, u, f)
        elif f.name == "ldlt_in_place_unblocked":
            ctx.soft = True         # whole_unblocked decides
            try:
                unblocked(ctx, u, f)
            finally:
                ctx.soft = False
        elif f.name == "dense_ldlt_in_place":
            recursive(ctx, u, f)
        elif f.name == "ldlt_in_place_impl":
            blocks(ctx, u, f)
    summary_sign(ctx, u)
    block_sign(ctx, u)
    for n in ("DenseLDLT", "BlockLDLT"):
        for r in u.recname.get(n, ()):
            if r.targs:
                owner(ctx, u, r, n)
    for r in u.recname.get("ldlt_base", ()):
        f = method(u, r, "sign", 0)
        if r.targs and f is not None:
            ctx.same("base/sign", f.where(), summary(ctx, u, f).ret, M("m_sign", so="i"), "the sign reported is the one kept")


def sub(a, b):
    return add(a, neg(b))


def absorb(s, x):
    """the sign summary s after one more pivot x"""
    neg_, pos = lt(x, ZERO), lt(ZERO, x)
    return ite(eq(s, PS), ite(neg_, IN, s), ite(eq(s, NS), ite(pos, IN, s),
               ite(eq(s, ZS), ite(pos, PS, ite(neg_, NS, s)), s)))


def join(ctx, u, f):
    s = summary(ctx, u, f)
    w, st, a = f.where(), P(f, 0, "i"), P(f, 1, "s")
    Z, PP, N, X = E("ZeroSign"), E("PositiveSemiDef"), E("NegativeSemiDef"), E("Indefinite")
    V = {x: num(k) for k, x in enumerate((PP, N, Z, X))}       # four different values
    got = subst(outp(s, 0, "i"), V)
    neg_, pos, nul = lt(a, ZERO), lt(ZERO, a), eq(a, ZERO)
    for old, tab in ((Z, (N, PP, Z)), (PP, (X, PP, PP)), (N, (N, X, N)), (X, (X, X, X))):
        for c, n, want in zip((neg_, pos, nul), ("negative", "positive", "null"), tab):
            ctx.under("join/%s/%s" % (show(old).split("(")[-1].strip(")"), n), w, c, subst(got, {st: V[old]}), V[want], "a %s pivot" % n)


def chain(v, last):
    """[values joined, first to last] when v is `last` joined with them one after the other; None when not read"""
    out = []
    while v is not last:
        if v.op != "out" or v.args[1].op != "call":
            return None
        a = list(v.args[1].args[1:])
        nm = str(v.args[1].args[0]).split("::")[-1]
        if nm not in (JOIN,) + ROUTINES or len(a) < 2 and nm != ROUTINES[2]:
            return None
        out.append((nm, [x for x in a[:-1]]))
        v = a[-1] if nm != JOIN else a[0]
        if nm == JOIN:
            out[-1] = (nm, a[1:])
    return out[::-1]


def ends_at(v, last):
    """the innermost sign of a chain of calls is another one: told, not guessed"""
    while v.op == "out" and v.args[1].op == "call":
        nm = str(v.args[1].args[0]).split("::")[-1]
        a = v.args[1].args[1:]
        if nm not in (JOIN,) + ROUTINES or not a:
            return None
        v = a[0] if nm == JOIN else a[-1]
    return v is last if v is last or v.op in ("enumc", "init", "phi") else None


def tagof(f):
    return "ref" if "Ref<" in (f.targs or ["?"])[0] else "mat"


def links(ctx, key, w, v, entry, n, what):
    c = chain(v, entry)
    if c is None:
        ctx.ob(key, w, False if ends_at(v, entry) is False else None, what)
        return None
    ctx.ob(key, w, len(c) == n, "%s: %d" % (what, len(c)))
    return c if len(c) == n else None


def unblocked(ctx, u, f):
    key, w = "unblocked/%s/" % tagof(f), f.where()
    s = summary(ctx, u, f, noinline=NO)
    A, n = P(f, 0), rows(P(f, 0))
    a, sc = cell(f, 0), cell(f, 1)
    S0, fin = P(f, 1, "i"), outp(s, 1, "i")
    ctx.same(key + "empty", w, under(fin, eq(n, ZERO)), S0, "no pivot, no change")
    c = links(ctx, key + "single", w, under(fin, eq(n, ONE)), S0, 1, "one pivot")
    if c:
        ctx.same(key + "single/pivot", w, c[0][1][0], elt(A, ZERO, ZERO), "the entry of a matrix of size one")
    lps = [lc for lc in s.loops if sc in lc.back]
    if len(lps) != 1 or a not in lps[0].back:
        c = [e for e in s.events if e.kind == "call" and e.name == JOIN]
        ctx.ob(key + "loop", w, False if len(c) <= 1 and not lps and all(under(e.pcabs, ge(n, num(2))) is FALSE for e in c) else None, "pivots joined as they are computed")
        return
    lc = lps[0]
    Aj, Sj = LP.phi_of(lc, a), LP.phi_of(lc, sc)
    js = [x for x in lc.phis if x.op == "local" and lc.phis[x].sort == "i"]
    e0 = lc.entry.store.get(sc)
    ctx.ob(key + "entry", lc.where, True if e0 is None or e0 is S0 else None, "from the sign handed in")
    if len(js) != 1 or lc.N is not None:
        ctx.ob(key + "counter", lc.where, None, "one column counter")
        return
    j = LP.phi_of(lc, js[0])
    pre = and_(ge(n, num(2)), lt(add(j, ONE), n))
    dims = lambda k: (lambda t: (k, k) if t.sort in ("m", "o") else None)
    for nm, v, m, ks in (("step", under(lc.back[sc], pre), under(lc.back[a], pre), lambda k: range(k - 1)),
                         ("last", under(fin, ge(n, num(2))), under(outp(s, 0), ge(n, num(2))), lambda k: [k - 1])):
        c = links(ctx, key + nm, lc.where, v, Sj, 1, "one pivot per column")
        if c:
            cs = [(dims(k), {n: k, rows(Aj): k, cols(Aj): k, cols(A): k, j: jj}) for k in (2, 3, 4) for jj in ks(k)]
            ctx.at(key + nm + "/pivot", lc.where, c[0][1][0], elt(m, j, j), cs, "the pivot just computed")


def recursive(ctx, u, f):
    key, w = "recursive/%s/" % tagof(f), f.where()
    s = summary(ctx, u, f, noinline=NO)
    A, n = P(f, 0), rows(P(f, 0))
    S0, fin = P(f, 1, "i"), outp(s, 1, "i")
    c = links(ctx, key + "small", w, under(fin, eq(n, num(2))), S0, 1, "a small matrix is eliminated once")
    if c:
        ctx.same(key + "small/matrix", w, c[0][1][0], A, "the matrix given")
    c = links(ctx, key + "large", w, under(fin, ge(n, num(1000))), S0, 2, "both halves, the first one first")
    if c:
        b = c[0][1][0]
        ctx.ob(key + "large/first", w, b.op == "blk" and b.args[0] is A and b.args[1] is ZERO and b.args[2] is ZERO or None, "the leading block first")


def blocks(ctx, u, f):
    w = f.where()
    s = summary(ctx, u, f, noinline=NO)
    A = M("mat")
    n, nb = rows(A), M("sym_structure", "segments_count", so="i")
    ok = M("sym_structure", "performed_llt", so="b")
    kind = mk("init", mk("idx", mcell("sym_structure", "m_data"), ZERO), sort="i")
    b = mk("init", mk("idx", mcell("sym_structure", "segment_lens"), ZERO), sort="i")
    S0, fin, sc = P(f, 0, "i"), outp(s, 0, "i"), cell(f, 0)
    base = and_(ok, gt_(nb, ZERO))
    ctx.under("blocks/empty", w, and_(ok, eq(n, ZERO)), fin, S0, "no pivot, no change")
    c = links(ctx, "blocks/single", w, under(fin, and_(base, eq(n, ONE))), S0, 1, "one pivot")
    if c:
        ctx.same("blocks/single/pivot", w, c[0][1][0], elt(A, ZERO, ZERO), "the entry of a matrix of size one")
    rec = [e for e in s.events if e.kind == "call" and e.name == ROUTINES[2]]
    if len(rec) != 1 or not rec[0].args:
        ctx.ob("blocks/recursion", w, None, "one recursive call")
        return
    big = and_(base, ge(n, num(2)))
    arg = rec[0].args[-1]
    # after the recursion the sign is the one it leaves
    v = under(under(fin, and_(big, eq(kind, num(2)))), rec[0].pcabs)
    got = leaves(v)
    rest = [x.op == "out" and x.args[1].op == "call" and str(x.args[1].args[0]).endswith(ROUTINES[2]) for x in got]
    plain = all(x is S0 or x.op == "out" for x in got)
    ctx.ob("blocks/rest", w, True if any(rest) else False if plain else None, "the trailing blocks' pivots follow")
    c = links(ctx, "blocks/dense", w, under(arg, and_(big, eq(kind, num(2)))), S0, 1, "the pivots of a dense block")
    if c:
        ctx.same("blocks/dense/block", w, c[0][1][0], blk(A, ZERO, ZERO, b, b), "the leading block")
    v = under(arg, and_(big, eq(kind, ONE)))
    if v is S0:
        ctx.ob("blocks/diagonal", w, False, "the pivots of a diagonal block are left out")
        return
    lcs = [lc for lc in s.loops if sc in lc.back and v.op == "phiout" and v.args[0] == lc.id]
    if len(lcs) != 1 or lcs[0].N is None:
        ctx.ob("blocks/diagonal", w, None, "one loop over the entries of a diagonal block")
        return
    lc = lcs[0]
    ctx.same("blocks/diagonal/count", lc.where, lc.N, b, "every entry of the block")
    e0 = lc.entry.store.get(sc)
    ctx.ob("blocks/diagonal/entry", lc.where, True if e0 is None or e0 is S0 else None, "from the sign handed in")
    c = links(ctx, "blocks/diagonal/step", lc.where, lc.back[sc], LP.phi_of(lc, sc), 1, "one pivot per entry")
    if c:
        i = lc.bv
        ctx.same("blocks/diagonal/pivot", lc.where, c[0][1][0], elt(A, i, i), "entry i of the diagonal")


def gt_(a, b):
    return lt(b, a)


def leaves(v):
    return leaves(v.args[1]) + leaves(v.args[2]) if v.op == "ite" else [v]


def owner(ctx, u, r, name):
    """every factorisation starts from no sign and keeps the one it ends with"""
    fs = [m for m in r.methods if m.name == "compute" and m.body is not None] + [c for c in ctor(u, r, 1) if "Ref<" in qt(c.params[0])]
    for f in fs:
        s = summary(ctx, u, f, noinline=NO)
        key = "%s/%s%d" % (name, "construct" if f.kind == "CXXConstructorDecl" else f.name, len(f.params))
        calls = [e for e in s.events if e.kind == "call" and e.name in ROUTINES]
        if len(calls) != 1:
            ctx.ob(key, f.where(), None, "one factorisation")
            continue
        e = calls[0]
        ctx.same(key + "/start", f.where(), e.args[-1], E("ZeroSign"), "a factorisation starts with no pivot seen")
        v = outm(s, "m_sign", so="i")
        ctx.ob(key + "/kept", f.where(), True if v.op == "out" and v.args[1] is e.value else False if v.op in ("enumc", "init") else None, "the sign of this factorisation is kept")


# ------------------------------------------------------- sign summary
def summary_sign(ctx, u):
    X = mk("any", "x", sort="s")
    for f in u.funcs.values():
        if f.name == "update_sign_matrix" and f.body is not None and len(f.params) == 2:
            s = summary(ctx, u, f)
            S = P(f, 0, "i")
            got = s.value(cell(f, 0), "i")
            for n, e in (("zero", ZS), ("pos", PS), ("neg", NS), ("indef", IN)):
                for m, c in (("neg", lt(P(f, 1, "s"), ZERO)), ("pos", lt(ZERO, P(f, 1, "s"))), ("null", eq(P(f, 1, "s"), ZERO))):
                    ctx.under("table/%s/%s" % (n, m), f.where(), c, constrain(subst(got, {S: e}), c),
                              constrain(subst(absorb(S, P(f, 1, "s")), {S: e}), c), "summary %s and a %s pivot" % (n, m))
        if f.name == "ldlt_in_place_unblocked" and f.body is not None:
            step_of_unblocked(ctx, u, f)
        if f.name == "dense_ldlt_in_place" and f.body is not None:
            parts_of_recursion(ctx, u, f)
    r = u.record("DenseLDLT")
    for f in r.methods:
        if f.body is None or f.name not in ("compute", "DenseLDLT") or f.name == "DenseLDLT" and "Ref" not in qt(f.params[0]) if f.params else True:
            continue
        calls = []

        def fac(it, ff, args, st, n):
            calls.append((it, args, st, n))
            return None
        s = summary(ctx, u, f, noinline=("dense_ldlt_in_place",))
        ev = [e for e in s.events if e.kind == "call" and e.name == "dense_ldlt_in_place"]
        if len(ev) != 1 or len(ev[0].args or ()) != 2:
            ctx.ob("fresh/" + f.name, f.where(), None, "one factorisation")
            continue
        ctx.same("fresh/" + f.name, ev[0].where, ev[0].args[1], ZS, "the summary of a new matrix does not include an earlier one")
        got = outm(s, "m_sign", so="i")
        ctx.ob("kept/" + f.name, f.where(), True if got.op == "out" and got.args[0] == 1 else got not in (ZS, M("m_sign", so="i")) and None,
               "and is what the object reports: " + show(got, 5))


def step_of_unblocked(ctx, u, f):
    s = summary(ctx, u, f)
    tag = "unblocked%s/" % ("-ref" if "Ref" in (f.targs[0] if f.targs else "") else "")
    a, sg = cell(f, 0), cell(f, 1)
    A0, S0 = P(f, 0), P(f, 1, "i")
    n = rows(A0)
    lp = [lc for lc in s.loops if sg in lc.back or sg in lc.phis]
    fin = s.value(sg, "i")
    for nm, e in SIGNS:
        ctx.under(tag + "one/" + nm, f.where(), eq(n, ONE), subst(fin, {n: ONE, S0: e}), absorb(e, elt(A0, ZERO, ZERO)), "the only pivot counts")
    whole_unblocked(ctx, tag, f, s)
    ctx.soft = True
    try:
        shape_of_unblocked(ctx, tag, f, s, lp, fin)
    finally:
        ctx.soft = False


def whole_unblocked(ctx, tag, f, s):
    """small matrices eliminated to the end: the summary is that of the pivots left on the diagonal, whatever the loop looks like"""
    a, sg = cell(f, 0), cell(f, 1)
    A0, S0 = P(f, 0), P(f, 1, "i")
    n = rows(A0)
    want = mk("call", "spec:signs", s.value(a), S0, sort="i")

    def signs(e, t):
        m, v = e.shaped(t.args[1]), int(e.ev(t.args[2]))
        for i in range(m.r):
            x = m.d[i][i]
            v = v if x == 0 else {0: 1, 1: 1, 2: 3, 3: 3}[v] if x > 0 else {0: 2, 1: 3, 2: 2, 3: 3}[v]
        return Fraction(v)
    for k in range(5):
        for nm, c in zip(("zero", "pos", "neg", "indef"), range(4)):
            vals = dict(CODES)
            vals[S0] = Fraction(c)
            cs = [(lambda t: (k, k) if t.sort in ("m", "o") else None, {n: k, cols(A0): k})]
            ctx.at(tag + "whole/%s/%d" % (nm, k), f.where(), s.value(sg, "i"), want, cs, "all pivots count, and nothing else",
                   vals=vals, n=5, loops=s.loops, funcs={"spec:signs": signs})
            if k and k < 3:
                vals[A0] = D.build(k, k, lambda i, j: Fraction(k - 1))
                ctx.at(tag + "whole/null/%s/%d" % (nm, k), f.where(), s.value(sg, "i"), want, cs, "a null pivot does not count",
                       vals=vals, n=1, loops=s.loops, funcs={"spec:signs": signs})


def shape_of_unblocked(ctx, tag, f, s, lp, fin):
    a, sg = cell(f, 0), cell(f, 1)
    A0, S0 = P(f, 0), P(f, 1, "i")
    n = rows(A0)
    ctx.under(tag + "none", f.where(), eq(n, ZERO), subst(fin, {n: ZERO}), S0, "an empty matrix has no pivot")
    if len(lp) != 1 or lp[0].recs is None:
        ctx.ob(tag + "shape", f.where(), None, "one loop over the pivots")
        return
    lc = lp[0]
    js = [c for c in lc.phis if c.op == "local" and lc.phis[c].sort == "i"]
    if len(js) == 0 and lc.N is not None:
        j = mk("bv", "?", sort="i")
        ctx.ob(tag + "shape", f.where(), None, "counted loop")
        return
    if len(js) != 1:
        ctx.ob(tag + "shape", f.where(), None, "one counter")
        return
    jc = js[0]
    j, S, A = LP.phi_of(lc, jc), LP.phi_of(lc, sg), LP.phi_of(lc, a)
    ctx.same(tag + "start", lc.where, lc.entry.store.get(jc), ZERO, "pivots from the first one")
    go = lc.recs[1].pc
    ctx.same(tag + "step", lc.where, constrain(lc.back[jc], go), add(j, ONE), "one pivot at a time")
    codes = CODES
    for nm, c in (("zero", 0), ("pos", 1), ("neg", 2), ("indef", 3)):
        for nn, jj in ((2, 0), (4, 1), (5, 3)):
            vals = dict(codes)
            vals[S] = Fraction(c)
            vals[S0] = Fraction(c)
            cs = [(lambda t: (nn, nn), {j: jj, n: nn})]
            ctx.at(tag + "pivot/%s/%d" % (nm, jj), lc.where, constrain(lc.back[sg], go), absorb(S, elt(constrain(lc.back[a], go), j, j)), cs,
                   "each pivot counts as it is stored", vals=vals, n=6)
    done = and_(ge(n, num(2)), eq(j, sub(n, ONE)))
    ctx.under(tag + "last", lc.where, done, constrain(go, done), FALSE, "the last pivot ends it")
    ctx.under(tag + "not-before", lc.where, and_(ge(n, num(2)), lt(add(j, ONE), n)), go, TRUE, "and nothing before")
    big = ge(n, num(2))
    fs, fa = constrain(fin, big), constrain(s.value(a), big)
    mp = {j: sub(n, ONE)}
    for nm, e in SIGNS:
        at_ = lambda x: subst(subst(x, mp), {S: e})
        ctx.same(tag + "last-pivot/" + nm, lc.where, at_(fs), at_(absorb(S, elt(fa, j, j))), "the last pivot counts too")


def parts_of_recursion(ctx, u, f):
    tag = "recursive%s/" % ("-ref" if "Ref" in (f.targs[0] if f.targs else "") else "")
    seen = []

    def fac(it, ff, args, st, n):
        return None
    s = summary(ctx, u, f, noinline=("dense_ldlt_in_place", "ldlt_in_place_unblocked"))
    A0, S0 = P(f, 0), P(f, 1, "i")
    n = rows(A0)
    evs = [e for e in s.events if e.kind == "call" and e.name in ("dense_ldlt_in_place", "ldlt_in_place_unblocked")]
    whole = [e for e in evs if e.args and e.args[0] is A0]
    parts = [e for e in evs if e not in whole]
    if len(parts) != 2 or any(len(e.args) != 2 for e in evs):
        ctx.ob(tag + "shape", f.where(), None, "the two diagonal blocks are factored one after the other")
        return
    p, q = parts
    for e in whole:
        ctx.same(tag + "whole", e.where, e.args[1], S0, "the summary is handed on")
    ctx.same(tag + "first", p.where, p.args[1], S0, "the summary enters the first block")
    ctx.ob(tag + "second", q.where, q.args[1].op == "out" and q.args[1].args[0] == 1 if q.args[1].op in ("out", "init", "enumc") else None,
           "and goes on to the second: " + show(q.args[1], 4))
    fin = s.value(cell(f, 1), "i")
    pc = q.pcabs
    g = constrain(fin, pc)
    ctx.ob(tag + "result", f.where(), g.op == "out" and g.args[1].op == "call" and g.args[0] == 1 if g.op in ("out", "init", "enumc") else None,
           "the summary after the second block is reported: " + show(g, 5))
    # the two blocks cover the diagonal
    bs = [blkof(e.args[0]) for e in parts]
    if None in bs:
        ctx.ob(tag + "cover", f.where(), None, "diagonal blocks")
        return
    sq = lambda x: subst(x, {cols(A0): n})
    (r0, c0, h0, w0), (r1, c1, h1, w1) = [tuple(sq(x) for x in b) for b in bs]
    ctx.ob(tag + "cover", f.where(), r0 is ZERO and c0 is ZERO and h0 is w0 and r1 is h0 and c1 is h0 and h1 is w1 and add(r1, h1) is n,
           "the two blocks cover the diagonal: %s" % ", ".join(show(x, 4) for b in bs for x in b))


def blkof(t):
    """the block of the original matrix an argument views (through later updates)"""
    if t.op == "blk":
        return t.args[1:]
    # an updated block: its dimensions tell which one
    for x in subterms(t):
        if x.op == "blk" and x.args[3] is rows(t) and x.args[4] is cols(t):
            return x.args[1:]
    return None


def is_out_of(t, name):
    """t is the value a call of `name` leaves in one of its arguments"""
    return t.op == "out" and t.args[1].op == "call" and str(t.args[1].args[0]).split("::")[-1] == name


def block_sign(ctx, u):
    """the summary through one step of the block elimination, and what the object does with it"""
    for f in u.funcs.values():
        if f.body is None or f.rec is None:
            continue
        if f.name == "ldlt_in_place_impl":
            s = summary(ctx, u, f, noinline=("gemmt", "dense_ldlt_in_place", "ldlt_in_place_unblocked", "ldlt_in_place_impl"))
            w = f.where()
            sg, S0, A = cell(f, 0), P(f, 0, "i"), M("mat")
            fin = s.value(sg, "i")
            ok = M("sym_structure", "performed_llt", so="b")
            nb = M("sym_structure", "segments_count", so="i")
            one = and_(ok, eq(rows(A), ONE))
            for nm, e in SIGNS:
                ctx.under("block/one/" + nm, w, one, subst(fin, {S0: e}), absorb(e, elt(A, ZERO, ZERO)), "the only row left counts")
            rec = [e for e in s.events if e.kind == "call" and e.name == "ldlt_in_place_impl"]
            den = [e for e in s.events if e.kind == "call" and e.name == "dense_ldlt_in_place"]
            if len(rec) != 1 or len(den) != 1 or len(rec[0].args) != 1 or len(den[0].args) != 2:
                ctx.ob("block/shape", w, None, "one dense pivot block, one recursion")
                continue
            rec, den = rec[0], den[0]
            ctx.same("block/dense/in", den.where, den.args[1], S0, "the summary enters the dense pivot block")
            kinds = [x for x in subterms(rec.args[0]) if x.op == "init" and x.args[0].op == "idx" and x.args[0].args[0].op == "fld" and x.args[0].args[0].args[1] == "m_data"]
            if len(kinds) != 1:
                ctx.ob("block/dense/on", rec.where, False if rec.args[0] is S0 else None, "the summary goes on to the other blocks: " + show(rec.args[0], 4))
                continue
            g = constrain(rec.args[0], eq(kinds[0], num(2)))
            ctx.ob("block/dense/on", rec.where, True if is_out_of(g, "dense_ldlt_in_place") else False if g is S0 or g.op == "enumc" else None,
                   "after a dense pivot block: " + show(g, 4))
            g = constrain(rec.args[0], eq(kinds[0], ONE))
            lp = [lc for lc in s.loops if sg in lc.back]
            if len(lp) == 1 and lp[0].N is not None:
                lc = lp[0]
                i, S = lc.bv, LP.phi_of(lc, sg)
                lens0 = mk("init", mk("idx", mk("fld", mcell("sym_structure"), "segment_lens"), ZERO), sort="i")
                d = [x for x in subterms(lc.N) if x.op == "init"]
                ctx.same("block/diag/count", lc.where, lc.N, d[0] if len(d) == 1 and "segment_lens" in show(d[0], 6) else lens0, "every row of a diagonal pivot block")
                at = [x for x in subterms(lc.back[sg]) if x.op == "elt"]
                for nm, e in SIGNS:
                    ctx.under("block/diag/pivot/" + nm, lc.where, TRUE, subst(lc.back[sg], {S: e}), absorb(e, elt(A, i, i)), "each diagonal entry counts")
                e0 = lc.entry.store.get(sg)
                ctx.ob("block/diag/in", lc.where, True if e0 is None or e0 is S0 else None, "starting from the summary so far")
                ctx.ob("block/diag/on", rec.where, True if g.op == "phiout" and g.args[1] is S.args[1] else False if g is S0 or g.op == "enumc" else None,
                       "after a diagonal pivot block: " + show(g, 4))
            else:
                ctx.ob("block/diag/on", rec.where, False if g is S0 or g.op == "enumc" else None, "after a diagonal pivot block: " + show(g, 4))
            g = constrain(fin, rec.pcabs)
            ctx.ob("block/result", w, True if is_out_of(g, "ldlt_in_place_impl") else False if g is S0 or g is rec.args[0] or g.op == "enumc" else None,
                   "the summary of all blocks is reported: " + show(g, 4))
        if f.name == "compute" and f.rec.name == "BlockLDLT":
            s = summary(ctx, u, f, noinline=("ldlt_in_place_impl",))
            ev = [e for e in s.events if e.kind == "call" and e.name == "ldlt_in_place_impl"]
            t = "block/compute%d/" % len(f.params)
            if len(ev) != 1 or len(ev[0].args) != 1:
                ctx.ob(t + "fresh", f.where(), None if ev else False, "one factorisation")
                continue
            ctx.same(t + "fresh", ev[0].where, ev[0].args[0], ZS, "the summary of a new matrix does not include an earlier one")
            got = outm(s, "m_sign", so="i")
            ctx.ob(t + "kept", f.where(), True if is_out_of(got, "ldlt_in_place_impl") else False if got.op in ("enumc", "init") else None,
                   "and is what the object reports: " + show(got, 5))
