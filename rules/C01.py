"""Block-structure algebra and symbolic factorisation, decided on tables of block kinds: transposed, summed and multiplied
kinds against the smallest kind that contains the pattern; the stores of the symbolic elimination step, each evaluated for
every combination of the kinds it reads, against the pattern of the numeric step; copies, permutations, counts and the
search over permutations as values at arbitrary blocks."""
import itertools
from sa.terms import *
from sa.modlib import *
from sa import dense as D
from sa.dense import Q, No
from sa.interp import root

TITLE = "Block-structure algebra and symbolic factorisation"
FLOOR = 10
KINDS = ("Zero", "Diag", "TriL", "TriU", "Dense")
K = lambda n: num(KINDS.index(n))
NB = 3


def inside(kind, i, j):
    return {"Zero": False, "Diag": i == j, "TriL": i >= j, "TriU": i <= j, "Dense": True}[kind]


def pat(k):
    return frozenset((i, j) for i in range(NB) for j in range(NB) if inside(k, i, j))


PAT = {k: pat(k) for k in KINDS}


def cover(p):
    """the smallest kind whose pattern contains p"""
    return min((k for k in KINDS if PAT[k] >= p), key=lambda k: (len(PAT[k]), k))


def t_(k):
    return cover(frozenset((j, i) for i, j in PAT[k]))


def add_(a, b):
    return cover(PAT[a] | PAT[b])


def mul_(a, b):
    return cover(frozenset((i, j) for i in range(NB) for j in range(NB) if any((i, k) in PAT[a] and (k, j) in PAT[b] for k in range(NB))))


def ge(a, b):
    """kind a holds every block of kind b"""
    return PAT[a] >= PAT[b]


def run(ctx):
    u = ctx.unit("blockkind")
    algebra(ctx, u)
    layout(ctx, u)
    copies(ctx, u)
    counting(ctx, u)
    symbolic(ctx, u)
    search(ctx, u)
    kkt(ctx, ctx.unit("linalg"))


def fn(u, name, npar=None, rec=None):
    for f in u.funcs.values():
        if f.name == name and f.body is not None and (npar is None or len(f.params) == npar) and \
                ((f.rec.name if f.rec is not None else None) == rec):
            yield f


def evi(t, ints, **kw):
    """value of an integer term"""
    e = D.DEval(0, lambda t: None, ints, None, kw.get("funcs"), kw.get("loops"))
    return e.int(t)


def judge(ctx, key, w, f, what):
    """f() -> (bool, text); undecided if the term cannot be evaluated"""
    try:
        r, txt = f()
        ctx.ob(key, w, r, "%s: %s" % (what, txt))
    except No as x:
        ctx.ob(key, w, None, "%s: %s" % (what, x))


# ---------------------------------------------------------------- kinds
def algebra(ctx, u):
    for f in fn(u, "trans", 1):
        s = summary(ctx, u, f)
        for a in KINDS:
            def g():
                v = KINDS[evi(s.ret, {P(f, 0, "i"): KINDS.index(a)}, loops=s.loops)]
                return v == t_(a), "%s gives %s, is %s" % (a, v, t_(a))
            judge(ctx, "transpose/%s" % a, f.where(), g, "kind of a transposed block")
    for nm, op, what in (("add", add_, "sum"), ("mul", mul_, "product")):
        for f in fn(u, nm, 2):
            s = summary(ctx, u, f)
            for a in KINDS:
                for b in KINDS:
                    def g():
                        v = KINDS[evi(s.ret, {P(f, 0, "i"): KINDS.index(a), P(f, 1, "i"): KINDS.index(b)}, loops=s.loops)]
                        return v == op(a, b), "%s, %s give %s, the smallest that holds is %s" % (a, b, v, op(a, b))
                    judge(ctx, "%s/%s-%s" % (nm, a, b), f.where(), g, "kind of a " + what)


# ---------------------------------------------------------------- storage
def ptr_hook(it, f, args, st, n):
    return mk("addr", mk("idx", mk("idx", mk("fld", it.itr_this, "m_data"), args[0]), args[1]))


SBM = "SymbolicBlockMatrix"


def layout(ctx, u):
    OS, NS, MD, SL = M("outer_stride", so="i"), M("segments_count", so="i"), M("m_data", so="o"), M("segment_lens", so="o")
    vals = set()
    for f in fn(u, "ptr", 2, SBM):
        s = summary(ctx, u, f)
        off = add(s.ret, neg(MD))
        i, j = P(f, 0, "i"), P(f, 1, "i")
        ok = off in (add(i, mul(j, OS)), add(j, mul(i, OS)))
        vals.add(subst(off, {i: mk("bv", "any0", sort="i"), j: mk("bv", "any1", sort="i")}))

        def g():
            for n, os in ((1, 1), (2, 2), (3, 3), (2, 4), (3, 5)):
                at = {(a, b): evi(off, {i: a, j: b, OS: os, NS: n}) for a in range(n) for b in range(n)}
                if len(set(at.values())) != n * n or min(at.values()) < 0 or max(at.values()) >= n * os:
                    return False, "%d blocks, stride %d: %s" % (n, os, at)
            return True, ""
        judge(ctx, "storage/address/%s" % ("const" if f.const else "mutable"), f.where(), g, "every block has its own place in the buffer")
    if len(vals) > 1:
        ctx.ob("storage/one-address", "block-kind.hpp", False, "reading and writing block (i, j) address different places: %s" % ", ".join(show(v, 5) for v in vals))
    elif vals:
        ctx.ob("storage/one-address", "block-kind.hpp", True, "reading and writing block (i, j) address one place")
    for f in fn(u, "submatrix", 2, SBM):
        s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook})
        w = f.where()
        i, n = P(f, 0, "i"), P(f, 1, "i")
        gf = lambda name, so: field(s, s.ret, name, so)
        want = mk("addr", mk("idx", mk("idx", mcell("m_data"), i), i))
        v = gf("m_data", "o")
        ctx.ob("sub/data", w, True if v is want else None if v is None or not (v.op == "addr" and v.args[0].op == "idx") else False,
               "the submatrix starts at block (i, i): %s" % (v is not None and show(v, 5)))
        for name, x, what in (("segment_lens", add(SL, i), "its lengths are those from i on"), ("segments_count", n, "it has the asked number of blocks"),
                              ("outer_stride", OS, "same stride")):
            v = gf(name, "i")
            if v is None:
                ctx.ob("sub/" + name, w, None, what)
            else:
                ctx.same("sub/" + name, w, v, x, what)
    for f in fn(u, "size", 0, SBM):
        s = summary(ctx, u, f)
        ctx.same("storage/size", f.where(), s.ret, mul(NS, OS), "buffer size")
    for f in u.funcs.values():
        if f.kind != "CXXConstructorDecl" or f.rec is None or f.rec.name != SBM or not (f.body is not None or f.inits) or not f.params or f.implicit or f.defaulted:
            continue
        if len(f.params) == 2:
            s = summary(ctx, u, f)
            news = [e for e in s.events if e.kind == "new"]
            szs = [e.args[0] for e in news if e.args]
            a, b = P(f, 0, "i"), P(f, 1, "i")
            for want, what in ((mul(a, b), "blocks"), (a, "lengths")):
                ctx.ob("alloc/" + what, f.where(), True if any(same_int(x, want) for x in szs) else False if len(szs) == 2 else None,
                       "room for the %s: %s" % (what, ", ".join(show(x, 4) for x in szs)))


def same_int(x, want):
    while x.op in ("val", "conv", "cast") and x.args:
        x = x.args[0]
    return x is want


def field(s, v, name, so):
    """field of a structure-valued term"""
    while v is not None:
        if v.op == "with" and v.args[1] == name:
            return v.args[2]
        if v.op in ("with", "val"):
            v = v.args[0]
        elif v.op == "struct" and name in v.args[1]:
            return v.args[2 + v.args[1].index(name)]
        else:
            return None


def at_block(e, t):
    """(base, I, J) of a block that is read"""
    c = t.args[0] if t.op == "init" else t
    if c.op == "idx" and c.args[0].op == "idx" and c.args[0].args[0].op == "fld" and c.args[0].args[0].args[1] == "m_data":
        return c.args[0].args[0].args[0], e.int(c.args[0].args[1]), e.int(c.args[1])
    return None


def table(kinds, more=None):
    """reading blocks: kinds(base, i, j)"""
    def init(e, t):
        b = at_block(e, t)
        if b is not None:
            return Q(KINDS.index(kinds(*b)))
        if more is not None:
            v = more(e, t)
            if v is not None:
                return v
        return e.atom(t)
    return init


def stores(s, base=None):
    """stores to blocks, in order"""
    for e in s.events:
        if e.kind == "store" and e.loc.op == "idx" and e.loc.args[0].op == "idx" and e.loc.args[0].args[0].op == "fld" and \
                e.loc.args[0].args[0].args[1] == "m_data" and (base is None or e.loc.args[0].args[0].args[0] is base):
            yield e


def counters(t):
    return sorted({x for x in subterms(t) if x.op == "bv"}, key=lambda x: str(x.args[0]))


def sweep_stores(ss, n, ints, funcs, bound):
    """the stores that take place with loop counters below `bound`: (event, i, j, value)"""
    for e in ss:
        vs = counters(e.loc) + [x for x in counters(e.pcabs) if x not in counters(e.loc)]
        for c in itertools.product(range(bound), repeat=len(vs)):
            d = dict(ints)
            d.update(zip(vs, c))
            E = D.DEval(0, lambda t: None, d, None, funcs, None)
            if not E.ev(e.pcabs):
                continue
            yield e, E.int(e.loc.args[0].args[1]), E.int(e.loc.args[1]), E.int(e.value)


def copies(ctx, u):
    perm_ = (2, 0, 1)
    code = {(i, j): KINDS[(3 * i + j) % 5] if i >= j else KINDS[(i + 2 * j + 1) % 5] for i in range(3) for j in range(3)}
    code[1, 1] = "Diag"
    for f in fn(u, "symbolic_deep_copy"):
        s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook})
        w = f.where()
        inp, out, pm = cell(f, 0), cell(f, 1), P(f, 2, "o")
        NSo, NSi = mk("init", mk("fld", out, "segments_count"), sort="i"), mk("init", mk("fld", inp, "segments_count"), sort="i")
        for lab, p in (("plain", None), ("permuted", perm_)):
            def more(e, t):
                c = t.args[0]
                if c.op == "idx" and (c.args[0] is cell(f, 2) or c.args[0].op == "deref" or c.args[0] is pm):
                    return Q(p[e.int(c.args[1])])
                if c.op == "idx" and c.args[0].op == "fld" and c.args[0].args[1] == "segment_lens":
                    return Q(10 + e.int(c.args[1]))
                return None

            def kinds(b, i, j):
                if b is not inp:
                    raise No("reads the output")
                return code[i, j]
            d = {NSo: 3, NSi: 3, mk("eqo", *sorted((NULL, pm), key=lambda t: t.id), sort="b"): p is None}
            fu = {"init": table(kinds, more)}
            pp = p or (0, 1, 2)

            def g():
                got = {}
                for e, i, j, v in sweep_stores(list(stores(s, out)), 3, d, fu, 3):
                    got[i, j] = KINDS[v]
                want = {(i, j): code[pp[i], pp[j]] for i in range(3) for j in range(3)}
                return got == want, "%s instead of %s" % (got, want) if got != want else ""
            judge(ctx, "copy/blocks/" + lab, w, g, "every block of the copy is the block it stands for")

            def g():
                got = {}
                for e in s.events:
                    if e.kind == "store" and e.loc.op == "idx" and e.loc.args[0] is mk("fld", out, "segment_lens"):
                        vs = counters(e.loc)
                        for c in itertools.product(range(3), repeat=len(vs)):
                            E = D.DEval(0, lambda t: None, dict(d, **{}) | dict(zip(vs, c)), None, fu, None)
                            if E.ev(e.pcabs):
                                got[E.int(e.loc.args[1])] = E.int(e.value)
                return got == {i: 10 + pp[i] for i in range(3)}, "%s" % got
            judge(ctx, "copy/lengths/" + lab, w, g, "block lengths go with the blocks")
        v = s.value(mk("fld", out, "performed_llt"), "b")
        ctx.same("copy/analysed", w, v, mk("init", mk("fld", inp, "performed_llt"), sort="b"), "the copy is analysed if the original is")
    for f in fn(u, "transpose", 0, SBM):
        s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook}, noinline=("symbolic_deep_copy", "copy"))
        w = f.where()
        ss = list(stores(s))
        bases = {e.loc.args[0].args[0].args[0] for e in ss}
        if len(bases) != 1:
            ctx.ob("transpose/blocks", w, None if ss else False, "transposed blocks")
            continue

        def kinds(b, i, j):
            if b is not THIS:
                raise No("reads the output")
            return code[i, j]
        d = {M("segments_count", so="i"): 3}

        def g():
            got = {}
            for e, i, j, v in sweep_stores(ss, 3, d, {"init": table(kinds)}, 3):
                got[i, j] = KINDS[v]
            want = {(i, j): t_(code[j, i]) for i in range(3) for j in range(3)}
            return got == want, "%s instead of %s" % (got, want) if got != want else ""
        judge(ctx, "transpose/blocks", w, g, "block (i, j) of the transpose")
        bad = [e for e in ss if e.loc.args[0].args[0].args[0] is THIS]
        ctx.ob("transpose/own", w, not bad, "the structure itself is left alone")


# ---------------------------------------------------------------- queries
def structures():
    """symmetric structures (i, j) -> kind with lengths"""
    yield {(0, 0): "Dense"}, (3,)
    for a in KINDS:
        yield {(0, 0): "Dense", (1, 1): "Diag", (1, 0): a, (0, 1): t_(a)}, (2, 2)
    yield {(0, 0): "Diag", (1, 1): "Dense", (1, 0): "Dense", (0, 1): "Dense"}, (2, 3)
    k = {(0, 0): "Dense", (1, 1): "Diag", (2, 2): "Diag", (1, 0): "TriU", (0, 1): "TriL", (2, 0): "Dense", (0, 2): "Dense", (2, 1): "Zero", (1, 2): "Zero"}
    yield k, (2, 2, 4)


def rd_struct(kinds, lens):
    def more(e, t):
        c = t.args[0]
        if c.op == "idx" and c.args[0].op == "fld" and c.args[0].args[1] == "segment_lens":
            return Q(lens[e.int(c.args[1])])
        return None
    return {"init": table(lambda b, i, j: kinds[i, j], more)}


def counting(ctx, u):
    NS = M("segments_count", so="i")
    for f in fn(u, "count_nnz", 0, SBM):
        s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook})
        for q, (k, lens) in enumerate(structures()):
            def g():
                want = sum(inside(k[i, j], a, b) for i in range(len(lens)) for j in range(len(lens)) for a in range(lens[i]) for b in range(lens[j]))
                v = evi(s.ret, {NS: len(lens)}, funcs=rd_struct(k, lens), loops=s.loops)
                return v == want, "%d counted, %d present" % (v, want)
            judge(ctx, "count/%d" % q, f.where(), g, "number of entries the structure holds")
    for f in fn(u, "check_if_symmetric", 0, SBM):
        s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook})
        n = 0
        for q, (k, lens) in enumerate(structures()):
            bad = dict(k)
            if len(lens) > 1:
                bad[1, 0] = "Diag" if bad[1, 0] != "Diag" else "Dense"
            cases = [(k, True)] + ([(bad, False)] if len(lens) > 1 else [])
            if len(lens) > 1 and k[1, 0] in ("TriL", "TriU"):
                cases.append((dict(k, **{}) | {(0, 1): k[1, 0]}, False))
            for kk, want in cases:
                n += 1

                def g():
                    e = D.DEval(0, lambda t: None, {NS: len(lens)}, None, rd_struct(kk, lens), s.loops)
                    v = e.ev(s.ret)
                    return bool(v) == want, "%s for %s" % (bool(v), kk)
                judge(ctx, "symmetric/%d" % n, f.where(), g, "a structure is symmetric if block (i, j) is the transpose of block (j, i)")


# ---------------------------------------------------------------- symbolic elimination
def symbolic(ctx, u):
    for f in fn(u, "llt_in_place", 0, SBM):
        s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook}, noinline=("llt_in_place",))
        w = f.where()
        NS = M("segments_count", so="i")
        rec = [e for e in s.events if e.kind == "call" and e.name == "llt_in_place"]
        rcall = [x for x in subterms(s.ret) if x.op == "call" and x.args[0].endswith("llt_in_place")]
        if len(rec) != 1 or len(rcall) != 1:
            ctx.ob("factor/recursion", w, None if rec else False, "the rest of the structure is factored")
            continue
        sub, ok = rec[0].recv, rcall[0]
        want = mk("addr", mk("idx", mk("idx", mcell("m_data"), ONE), ONE))
        v = field(s, sub, "m_data", "o")
        ctx.ob("factor/rest/data", w, True if v is want else None if v is None else False, "the rest starts at block (1, 1)")
        for name, x in (("segments_count", add(NS, num(-1))), ("outer_stride", M("outer_stride", so="i")), ("segment_lens", add(M("segment_lens", so="o"), ONE))):
            v = field(s, sub, name, "i")
            ctx.ob("factor/rest/" + name, w, None if v is None else v is x, "the rest of the structure: %s" % (v is not None and show(v, 4)))
        ss = list(stores(s, THIS))
        late = [e for e in ss if e.seq > rec[0].seq]
        ctx.ob("factor/order", w, not late, "the rest is factored once it is up to date")
        n = 4
        # what is accepted and reported
        for p in KINDS + ("none",):
            for sub_ok in (True, False):
                e = D.DEval(0, lambda t: None, {NS: 0 if p == "none" else n, ok: sub_ok, M("performed_llt", so="b"): False}, None,
                            {"init": table(lambda b, i, j: p if (i, j) == (0, 0) and p in KINDS else "Dense")}, s.loops)
                exp = True if p == "none" else sub_ok and p in ("Dense", "Diag")

                def g():
                    v = bool(e.ev(s.ret))
                    return v == exp, "pivot %s, rest %s: reports %s" % (p, sub_ok, v)
                judge(ctx, "factor/result/%s-%s" % (p, sub_ok), w, g, "success means every pivot block can be eliminated")

                def g():
                    v = bool(e.ev(s.value(mcell("performed_llt"), "b")))
                    return v == exp, "pivot %s, rest %s: analysed %s" % (p, sub_ok, v)
                judge(ctx, "factor/flag/%s-%s" % (p, sub_ok), w, g, "the structure counts as analysed if and only if that succeeded")
        # the stores of one step: pivot kind x kinds of two blocks of the first column x kind of a trailing block
        for p in ("Dense", "Diag"):
            col = [k for k in KINDS if not (p == "Diag" and k == "TriL")]
            bad, und, seen = [], None, 0
            for a, b, c in itertools.product(col, col, KINDS):
                kinds = {}
                for i in range(n):
                    for j in range(n):
                        kinds[i, j] = "Zero"
                kinds[0, 0] = p
                ks = {1: a, 2: b, 3: a}
                for i in (1, 2, 3):
                    kinds[i, 0], kinds[0, i] = ks[i], t_(ks[i])
                    kinds[i, i] = "Dense" if c in ("TriL", "TriU") else c
                kinds[2, 1], kinds[1, 2] = c, t_(c)
                kinds[3, 1], kinds[1, 3] = t_(c), c
                kinds[3, 2], kinds[2, 3] = c, t_(c)
                got = dict(kinds)
                try:
                    hit = {}
                    for e, i, j, v in sweep_stores(ss, n, {NS: n, M("performed_llt", so="b"): False, ok: True},
                                                   {"init": table(lambda bb, i, j: kinds[i, j])}, n):
                        if not (0 <= i < n and 0 <= j < n):
                            bad.append("block (%d,%d) outside the structure" % (i, j))
                            continue
                        if e.seq >= hit.get((i, j), 0):
                            hit[i, j] = e.seq
                            got[i, j] = KINDS[v]
                        seen += 1
                except No as x:
                    und = x
                    break
                # pattern of the numeric step
                L0 = {i: kinds[i, 0] if p == "Diag" else mul_(kinds[i, 0], "TriU") for i in (1, 2, 3)}
                for i in (1, 2, 3):
                    if not ge(got[i, 0], L0[i]) or got[i, 0] == "TriL":
                        bad.append("pivot %s: block %s below it becomes %s, the factor's is %s" % (p, kinds[i, 0], got[i, 0], L0[i]))
                    if got[0, i] != "Zero":
                        bad.append("block right of the pivot stays %s" % got[0, i])
                    for j in range(1, i + 1):
                        need = add_(kinds[i, j], mul_(L0[i], t_(L0[j])))
                        if not ge(got[i, j], need):
                            bad.append("pivot %s: trailing %s block updated with %s times transposed %s becomes %s, not %s" % (
                                p, kinds[i, j], L0[i], L0[j], got[i, j], need))
                        if got[j, i] != t_(got[i, j]) and i != j:
                            bad.append("trailing blocks (%d,%d), (%d,%d) become %s, %s: not symmetric" % (i, j, j, i, got[i, j], got[j, i]))
                ex = {"Dense": "TriL", "Diag": "Diag"}[p]
                if got[0, 0] != ex:
                    bad.append("a %s pivot becomes %s" % (p, got[0, 0]))
            if und is not None:
                ctx.ob("factor/step/" + p, w, None, "one symbolic elimination step: %s" % und)
            else:
                ctx.ob("factor/step/" + p, w, not bad, "the structure after one step holds the factor and the Schur complement (%d stores): %s" % (seen, "; ".join(bad[:3])))


# ---------------------------------------------------------------- best permutation
def search(ctx, u):
    for f in fn(u, "brute_force_best_permutation", 3, SBM):
        s = summary(ctx, u, f, noinline=("llt_in_place", "symbolic_deep_copy", "count_nnz"))
        w = f.where()
        lp = [lc for lc in s.loops if lc.N is None and cell(f, 2) in lc.phis]
        calls = {k: [e for e in s.events if e.kind == "call" and e.name == k] for k in
                 ("llt_in_place", "symbolic_deep_copy", "count_nnz", "memcpy", "next_permutation", "iota", "copy_n", "copy")}
        if len(lp) != 1 or any(len(calls[k]) != 1 for k in ("llt_in_place", "symbolic_deep_copy", "count_nnz", "next_permutation", "iota")):
            gone = [k for k in ("llt_in_place", "symbolic_deep_copy", "count_nnz") if not calls[k]]
            ctx.ob("search/shape", w, False if gone else None, "each permutation is tried on a copy, factored and counted: %s" % ", ".join(gone))
            continue
        lc = lp[0]
        io, it = P(f, 1, "o"), cell(f, 2)
        c0, dc, ll = calls["iota"][0], calls["symbolic_deep_copy"][0], calls["llt_in_place"][0]
        ctx.ob("search/first", w, True if c0.args[-1] is ZERO else False if is_num(c0.args[-1]) else None, "the search starts from the identity")
        ctx.ob("search/input", w, True if dc.args[0] is P(f, 0, "o") else False if dc.args[0].op in ("phi", "after") or dc.args[0] is M(so="o") else None,
               "each trial permutes the given structure: %s" % show(dc.args[0], 4))
        ctx.ob("search/work", w, True if dc.args[2] is lc.phis.get(it) else False if len(dc.args) > 2 and (root(dc.args[2]) in (cell(f, 1), P(f, 1, "o")) or dc.args[2] in (io, NULL)) else None,
               "with the permutation under trial: %s" % show(dc.args[2], 4))
        r = under(s.ret, TRUE)
        okt = [x for x in subterms(s.ret) if x.op == "call" and x.args[0].endswith("llt_in_place")]
        if len(set(okt)) == 1:
            E = lambda n: mk("enumc", n, sort="i")
            ctx.same("search/status", w, s.ret, ite(okt[0], E("Success"), E("NumericalIssue")), "a permutation that cannot be factored is reported")
            a = okt[0].args[1]
            ctx.ob("search/fresh", w, True if a.op == "with" and a.args[1] == "performed_llt" and a.args[2] is FALSE else None,
                   "trials do not count as analysed before they are")
        else:
            ctx.ob("search/status", w, False if s.ret.op == "enumc" else None, "a permutation that cannot be factored is reported: %s" % show(s.ret, 4))
        # record of the best
        nn = [x for x in subterms(mk("tuple", *[v for v in lc.back.values() if isinstance(v, Term)])) if x.op == "call" and x.args[0].endswith("count_nnz")]
        best = [c for c, v in lc.phis.items() if c.op == "local" and v is not None and v.sort == "i"]
        first = [c for c, v in lc.phis.items() if c.op == "local" and v is not None and v.sort == "b"]
        mv = calls["memcpy"] + calls["copy_n"] + calls["copy"]
        if len(mv) == 1:
            pc = mv[0].pc
            cnt = [x for x in subterms(pc) if x.op == "call" and x.args[0].endswith("count_nnz")]
            kept = [x for x in subterms(pc) if x in set(lc.phis.values()) and x.sort == "i"]
            hidden = any(x.op in ("xcall", "opaque", "maybe", "getf") for x in subterms(pc))
            ctx.ob("search/compared", w, True if cnt and kept else None if hidden else False,
                   "whether a permutation is recorded depends on its number of entries and the fewest so far: %s" % show(pc, 4))
        if len(set(nn)) != 1 or len(best) != 1 or len(first) > 1:
            ctx.ob("search/best", w, None, "fewest entries so far")
            continue
        nnz, bp = nn[0], lc.phis[best[0]]
        fp = lc.phis[first[0]] if first else None
        less = lt(nnz, bp)
        if fp is not None:
            ctx.same("search/best/start", w, lc.entry.store.get(first[0]), TRUE, "nothing found at first")
            b = lc.back.get(first[0])
            if b is not None:
                ctx.same("search/best/later", w, b, FALSE, "something found afterwards")
            better = or_(fp, less)
            for v, what in ((TRUE, "first"), (FALSE, "later")):
                ctx.under("search/best/" + what, w, TRUE, subst(lc.back[best[0]], {fp: v}), nnz if v is TRUE else ite(less, nnz, bp), "the fewest entries found so far")
            if len(mv) == 1:
                e = mv[0]
                def yes(t):
                    for x in [y for y in subterms(t) if y.op == "call" and y.args[0].endswith("llt_in_place")]:
                        t = subst(t, {x: TRUE})
                    return t
                ctx.under("search/record/when", w, TRUE, yes(e.pc), yes(better), "the permutation is recorded when it is the best so far")
                dst, src = (e.args[0], e.args[1]) if e.name == "memcpy" else (e.args[-1], e.args[0])
                ctx.ob("search/record/what", w, True if src is lc.phis.get(it) and dst is io else False if src is io and dst is lc.phis.get(it) else None, "the permutation under trial")
            else:
                ctx.ob("search/record/when", w, None if mv else None, "the best permutation is recorded")
        else:
            ctx.ob("search/best/first", w, None, "fewest entries so far")


# ---------------------------------------------------------------- structure of the KKT matrix
PD, DD = (2, 3), (4, 1, 5)


def sizes(f, pr, du):
    """two primal and three dual blocks"""
    def rd(e, t):
        c = t.args[0]
        if c.op == "idx" and c.args[0] in (cell(f, 0), cell(f, 1)):
            return Q((PD if c.args[0] is cell(f, 0) else DD)[e.int(c.args[1])])
        return e.atom(t)

    def elem(e, t):
        return Q((PD if t.args[0] is pr else DD)[e.int(t.args[1])])
    return {size(pr): 2, size(du): 3}, {"init": rd, "elem": elem}


def kkt(ctx, u):
    for f in u.funcs.values():
        if f.name == "create_default_block_structure" and f.body is not None:
            s = summary(ctx, u, f, intrinsics={"ptr": ptr_hook})
            w = f.where()
            pr, du = P(f, 0, "o"), P(f, 1, "o")
            d, fu = sizes(f, pr, du)
            ss = list(stores(s))

            def g():
                got, seq = {}, {}
                for e, i, j, v in sweep_stores(ss, 5, d, fu, 5):
                    if e.seq >= seq.get((i, j), 0):
                        seq[i, j] = e.seq
                        got[i, j] = KINDS[v]
                bad = []
                for i in range(5):
                    for j in range(5):
                        need = "Dense" if i < 2 or j < 2 else "Diag" if i == j else "Zero"
                        k = got.get((i, j))
                        if k is None or not ge(k, need):
                            bad.append("block (%d,%d) is %s, needs %s" % (i, j, k, need))
                return not bad, "; ".join(bad[:3])
            judge(ctx, "kkt/blocks", w, g, "Hessian and Jacobian blocks dense, multiplier blocks diagonal")

            def g():
                got = {}
                for e in s.events:
                    if e.kind == "store" and e.loc.op == "idx" and not e.loc.args[0].op == "idx" and e.value.sort in ("i", "s", "o"):
                        vs = counters(e.loc) + [x for x in counters(e.pcabs) if x not in counters(e.loc)]
                        for c in itertools.product(range(5), repeat=len(vs)):
                            E = D.DEval(0, lambda t: None, d | dict(zip(vs, c)), None, fu, None)
                            if E.ev(e.pcabs):
                                got[E.int(e.loc.args[1])] = E.int(e.value)
                return (got == dict(enumerate(PD + DD)) if got else None), "%s" % got
            judge(ctx, "kkt/lengths", w, g, "primal blocks first, then one block per constraint")
        if f.name == "get_total_dim_helper" and f.body is not None:
            s = summary(ctx, u, f)
            pr, du = P(f, 0, "o"), P(f, 1, "o")
            d, fu = sizes(f, pr, du)

            def g():
                v = evi(s.ret, d, funcs=fu, loops=s.loops)
                return v == sum(PD + DD), "%s + %s give %d" % (PD, DD, v)
            judge(ctx, "kkt/dimension", f.where(), g, "the dimension is the sum of the blocks'")
        if f.name == "allocate_ldlt_from_sizes" and f.body is not None:
            chosen(ctx, u, f)


def chosen(ctx, u, f):
    s = summary(ctx, u, f, noinline=("create_default_block_structure", "get_total_dim_helper", "findSparsifyingPermutation"))
    w = f.where()
    ch = P(f, 2, "i")
    T = throws(s)
    for c in range(6):
        v = constrain(T, eq(ch, num(c)))
        ctx.ob("choice/%d/exists" % c, w, None if v not in (TRUE, FALSE) else (v is TRUE) == (c > 3), "choice %d is available or refused: %s" % (c, show(v, 4)))
    if s.ret is None:
        return
    pick = lambda c: subst(s.ret, {ch: num(c)})
    named = lambda t, n: [x for x in subterms(t) if x.op == "call" and x.args[0].split("::")[-1] == n]
    pr, du = P(f, 0, "o"), P(f, 1, "o")
    for c in (1, 3):
        d = named(pick(c), "get_total_dim_helper")
        ctx.ob("choice/%d/size" % c, w, None if len(d) != 1 else set(d[0].args[1:]) == {pr, du}, "sized for all blocks")
    t = pick(2)
    st = set(named(t, "create_default_block_structure"))
    ctx.ob("choice/2/structure", w, None if len(st) != 1 else list(st)[0].args[1:] == (pr, du), "the block structure of the problem, variables first")
    sp = [e for e in s.events if e.kind == "call" and e.name == "findSparsifyingPermutation"]
    pcs = or_(*[e.pcabs for e in sp]) if sp else FALSE
    ctx.ob("choice/2/analysed", w, True if constrain(pcs, eq(ch, num(2))) is TRUE else False if not sp else None, "the structure is analysed before use")
