"""Manifolds: the vector space is the flat space, a product acts factor by factor in order, a tangent
bundle is its base together with a flat tangent part, and the base class's conveniences are the primitive
operations they are named after."""
from sa.terms import *
from sa.modlib import *
from sa.interp import pall, root


def sub(a, b):
    return add(a, neg(b))


TITLE = "Manifold products and bundles"
FLOOR = 20
Q = "ManifoldAbstractTpl::"


def run(ctx):
    u = ctx.unit("spaces")
    base(ctx, u)
    flat(ctx, u)
    product(ctx, u)
    bundle(ctx, u)


# ---------------------------------------------------------------- base class
def base(ctx, u):
    r = u.record("ManifoldAbstractTpl")
    for f in r.methods:
        if f.body is None:
            continue
        n, np_ = f.name, len(f.params)
        if (n, np_) not in (("integrate", 3), ("difference", 3), ("interpolate", 4), ("Jintegrate", 4), ("Jdifference", 4), ("integrate", 2),
                            ("difference", 2), ("interpolate", 3), ("interpolate_impl", 4), ("neutral", 0), ("isNormalized", 1), ("tangentSpace", 0), ("rand", 0)):
            continue
        s = summary(ctx, u, f)
        key = "base/%s/%d" % (n, np_)
        a = [P(f, i) for i in range(np_)]
        if n in ("Jintegrate", "Jdifference"):
            arg = P(f, 3, "i")
            want = mk("out", 2, mk("call", Q + n + "_impl", SELF, a[0], a[1], a[2], arg, sort="o"), sort="m")
            ctx.same(key, f.where(), outp(s, 2), want, "forwards to the implementation")
        elif n in ("integrate", "difference"):
            want = vout(2, Q + n + "_impl", SELF, a[0], a[1])
            ctx.same(key, f.where(), outp(s, 2) if np_ == 3 else s.ret, want, "the value of the implementation")
            if np_ == 2:
                allocates(ctx, key + "/size", f, s, 2, (vcall(Q + ("nx" if n == "integrate" else "ndx"), SELF, so="i"),), "a point, or a tangent vector")
        elif n == "interpolate":
            sc = P(f, 2, "s")
            got = outp(s, 3) if np_ == 4 else s.ret
            # what the implementation finds in the output: the caller's output, or fresh memory of the right size
            z = got.args[1].args[-1] if got.op == "out" and got.args[1].op == "call" else mk("slot", 3)
            ok = z is (P(f, 3) if np_ == 4 else None) or z.op == "slot" or z.op == "sized" and z.args[1] is vcall(Q + "nx", SELF, so="i")
            want = mk("out", 3, mk("call", Q + "interpolate_impl", SELF, a[0], a[1], sc, z if ok else mk("slot", 3), sort="o"), sort="m")
            ctx.same(key, f.where(), got, want, "the value of the implementation")
        elif n == "interpolate_impl":
            d = vout(2, Q + "difference_impl", SELF, a[0], a[1])
            ctx.same(key, f.where(), outp(s, 3), vout(2, Q + "integrate_impl", SELF, a[0], mul(P(f, 2, "s"), d)), "x0 moved by u times the difference to x1")
        elif n == "neutral":
            ctx.same(key, f.where(), s.ret, ZERO, "zero vector by default")
            nullary(ctx, key + "/size", f, s, (vcall(Q + "nx", SELF, so="i"),), "representation dimension")
        elif n == "isNormalized":
            ctx.same(key, f.where(), s.ret, TRUE, "every vector of a flat space is a point of it")
        elif n == "tangentSpace":
            got = s.ret
            if got.op == "with" and got.args[1] == "dim_":
                ctx.same(key, f.where(), got.args[2], vcall(Q + "ndx", SELF, so="i"), "flat space of tangent dimension")
            else:
                ctx.ob(key, f.where(), None, "shape not understood")
        # none of them writes the manifold
        unchanged(ctx, key + "/const", f, s, {THIS}, "the manifold itself is not changed")


# ---------------------------------------------------------------- flat space
def flat(ctx, u):
    for r in u.recname["VectorSpaceTpl"]:
        tag = "flat%s/" % ("" if r.targs[1] == "-1" else r.targs[1])
        D = M("dim_", so="i")
        dims = lambda f: (lambda c: (D, D) if c.op == "param" and "Matrix" in (qt(f.params[c.args[0]]) if isinstance(c.args[0], int) else "") else None)
        for f in r.methods:
            if f.body is None:
                continue
            n = f.name
            if n in ("nx", "ndx"):
                ctx.same(tag + n, f.where(), summary(ctx, u, f).ret, D, "dimension of the space")
                continue
            if n not in ("integrate_impl", "difference_impl", "interpolate_impl", "Jintegrate_impl", "Jdifference_impl", "JintegrateTransport"):
                continue
            s = summary(ctx, u, f)
            a = [P(f, i) for i in range(len(f.params))]
            if n == "integrate_impl":
                ctx.same(tag + n, f.where(), outp(s, 2), add(a[0], a[1]), "x + v")
            elif n == "difference_impl":
                ctx.same(tag + n, f.where(), outp(s, 2), sub(a[1], a[0]), "x1 - x0")
            elif n == "interpolate_impl":
                t = P(f, 2, "s")
                ctx.same(tag + n, f.where(), outp(s, 3), add(mul(sub(ONE, t), a[0]), mul(t, a[1])), "(1-u) x0 + u x1")
            else:
                arg = P(f, 3, "i")
                for v in (0, 1):
                    pc = eq(arg, num(v))
                    if n == "JintegrateTransport":
                        ctx.under(tag + "%s/%d" % (n, v), f.where(), pc, outp(s, 2), a[2], "transport is the identity")
                    else:
                        want = EYE if n == "Jintegrate_impl" or v == 1 else neg(EYE)
                        ctx.under(tag + "%s/%d" % (n, v), f.where(), pc, outp(s, 2), want, "derivative of the flat operation")
                    ctx.under(tag + "%s/%d/nothrow" % (n, v), f.where(), pc, throws(s), FALSE, "both arguments are supported")
                if n == "Jdifference_impl":
                    pc = and_(ne(arg, ZERO), ne(arg, ONE))
                    ctx.under(tag + n + "/bad-arg", f.where(), pc, throws(s), TRUE, "any other argument index is refused")
            unchanged(ctx, tag + n + "/const", f, s, {THIS}, "the manifold itself is not changed")
        for f in ctor(u, r, 1):
            if "int" in qt(f.params[0]):
                ctx.same(tag + "ctor", f.where(), outm(summary(ctx, u, f), "dim_", so="i"), P(f, 0, "i"), "dimension kept")


# ---------------------------------------------------------------- product
COMP = mcell("m_components")
NB = size(mk("init", COMP, sort="o"))
J = ranged("j", NB)
INR = and_(not_(lt(J, ZERO)), lt(J, NB))
K = mk("bv", "k", sort="i")


def comp_(k): return mk("init", mk("idx", COMP, k), sort="o")
def NXk(k): return mk("call", Q + "nx", comp_(k), sort="i")
def NVk(k): return mk("call", Q + "ndx", comp_(k), sort="i")


OQ, OV = psum(K, J, NXk(K)), psum(K, J, NVk(K))
TQ, TV = psum(K, NB, NXk(K)), psum(K, NB, NVk(K))


def pdims(f, shapes):
    d = {cell(f, i): s for i, s in enumerate(shapes) if s}
    return lambda c: d.get(c)


SHAPES = {"integrate_impl": ((TQ, ONE), (TV, ONE), (TQ, ONE)), "difference_impl": ((TQ, ONE), (TQ, ONE), (TV, ONE)),
          "Jintegrate_impl": ((TQ, ONE), (TV, ONE), (TV, TV)), "Jdifference_impl": ((TQ, ONE), (TQ, ONE), (TV, TV)),
          "JintegrateTransport": ((TQ, ONE), (TV, ONE), (TV, mk("init", mk("param", 98, "ncols"), sort="i"))), "isNormalized": ((TQ, ONE),),
          "split": ((TQ, ONE),), "split_vector": ((TV, ONE),)}


def product(ctx, u):
    r = u.record("CartesianProductTpl")
    for n, t, q in (("nx", TQ, NXk), ("ndx", TV, NVk)):
        f = method(u, r, n, 0)
        ctx.same("product/" + n, f.where(), summary(ctx, u, f).ret, t, "sum over the factors") if f else None
    inl = {"CartesianProductTpl::nx": lambda *a: TQ, "CartesianProductTpl::ndx": lambda *a: TV}
    for n in ("integrate_impl", "difference_impl", "Jintegrate_impl", "Jdifference_impl", "JintegrateTransport", "isNormalized"):
        f = method(u, r, n)
        if f is None:
            ctx.ob("product/" + n, r.file, None, "missing")
            continue
        s = summary(ctx, u, f, dims=pdims(f, SHAPES[n]))
        a = [P(f, i) for i in range(len(f.params))]
        x, out = seg(a[0], OQ, NXk(J)), None
        if n == "isNormalized":
            want = pall(K, NB, mk("call", Q + n, comp_(K), subst(x, {J: K}), sort="b"))
            ctx.same("product/" + n, f.where(), s.ret, want, "a point of the product iff every part is a point of its factor")
            continue
        out = outp(s, 2)
        y = seg(a[1], OQ, NXk(J)) if "ifference" in n else seg(a[1], OV, NVk(J))
        if n == "integrate_impl":
            got, want = seg(out, OQ, NXk(J)), vout(2, Q + n, comp_(J), x, y)
        elif n == "difference_impl":
            got, want = seg(out, OV, NVk(J)), vout(2, Q + n, comp_(J), x, y)
        elif n == "JintegrateTransport":
            nc = cols(a[2])
            got = blk(out, OV, ZERO, NVk(J), SHAPES[n][2][1])
            want = mk("out", 2, mk("call", Q + n, comp_(J), x, y, blk(a[2], OV, ZERO, NVk(J), SHAPES[n][2][1]), P(f, 3, "i"), sort="o"), sort="m")
        else:
            got = blk(out, OV, OV, NVk(J), NVk(J))
            want = mk("out", 2, mk("call", Q + n, comp_(J), x, y, ZERO, P(f, 3, "i"), sort="o"), sort="m")
        ctx.same("product/" + n, f.where(), constrain(got, INR), want, "block j of the result is factor j's operation on part j")
        if n in ("Jintegrate_impl", "Jdifference_impl"):
            offdiag(ctx, "product/" + n + "/off-diagonal", f, out)
        unchanged(ctx, "product/" + n + "/const", f, s, {THIS}, "the manifold itself is not changed")
    for n, sz, off in (("neutral", NXk, OQ), ("rand", NXk, OQ), ("merge", NXk, OQ), ("merge_vector", NVk, OV)):
        f = method(u, r, n)
        if f is None:
            ctx.ob("product/" + n, r.file, None, "missing")
            continue
        s = summary(ctx, u, f)
        part = mk("init", mk("idx", cell(f, 0), J), sort="m") if f.params else mk("call", Q + n, comp_(J), sort="m")
        ctx.same("product/" + n, f.where(), constrain(seg(s.ret, off, sz(J)), INR), part, "part j of the result belongs to factor j")
        tot = "ndx" if n == "merge_vector" else "nx"
        ctx.ob("product/%s/size" % n, f.where(), True if sized_by(s.ret, (mk("call", "CartesianProductTpl::" + tot, SELF, sort="i"), TQ if tot == "nx" else TV)) else None, "total dimension")
    for n, sz, off, tot in (("split", NXk, OQ, "nx"), ("split_vector", NVk, OV, "ndx")):
        fs = [f for f in r.methods if f.name == n and f.body is not None]
        for i, f in enumerate(sorted(fs, key=lambda f: f.line or 0)):
            s = summary(ctx, u, f)
            key = "product/%s/%d" % (n, i)
            ctx.same(key + "/count", f.where(), size(s.ret), NB, "one part per factor")
            got = elem_of(s.ret, J)
            want = mk("addr", mk("vw", cell(f, 0), mk("vseg", off, sz(J), sort="o"), sort="o"), sort="o")
            if got.op == "addr" and got.args[0].op == "vw" and got.args[0].args[1].op == "vseg":
                v = got.args[0]
                ctx.ob(key + "/of", f.where(), v.args[0] is cell(f, 0), "a part of the vector given")
                ctx.same(key + "/from", f.where(), constrain(v.args[1].args[0], INR), off, "part j starts after the parts before it")
                ctx.same(key + "/len", f.where(), constrain(v.args[1].args[1], INR), sz(J), "part j has factor j's dimension")
            else:
                ctx.ob(key, f.where(), None, "shape not understood")
            D = mk("call", "CartesianProductTpl::" + tot, SELF, sort="i")
            throws_iff(ctx, key + "/throws", f, s, ne(size(P(f, 0)), D), "a vector of another size is refused, and only that")
    members(ctx, u, r)


def elem_of(v, i):
    return inst(v, v.args[1], i) if v.op == "comp" else mk("elem", v, i, sort="o")


def sized_by(v, ds):
    return any(x.op == "sized" and x.args[1] in ds for x in subterms(v))


def offdiag(ctx, key, f, out):
    """outside the diagonal blocks the Jacobian is zero: the value is the zero matrix with only diagonal
    blocks replaced"""
    v = out
    while v.op in ("upd", "updn"):
        view = v.args[1]
        if view.op != "vblk" or view.args[0] is not view.args[1] or view.args[2] is not view.args[3]:
            ctx.ob(key, f.where(), None, "shape not understood")
            return
        v = v.args[0] if v.op == "upd" else v.args[3]
    if v is ZERO:
        ctx.ob(key, f.where(), True, "")
    elif v.op == "init":
        ctx.ob(key, f.where(), False, "keeps what the output held outside the diagonal blocks")
    else:
        ctx.ob(key, f.where(), None, "shape not understood")


def seq_of(v, at=None):
    """the vector value as a flat list of parts: ('one', x) / ('all', v)"""
    if v.op == "emptyvec":
        return []
    if v.op == "app":
        l = seq_of(v.args[0])
        return None if l is None else l + [("one", v.args[1])]
    if v.op == "cat":
        a, b = seq_of(v.args[0]), seq_of(v.args[1])
        return None if a is None or b is None else a + b
    if v.op == "comp":
        n, e = v.args
        e = strip(e)
        if e.op == "init" and e.args[0].op == "idx" and e.args[0].args[1] is binder_var(v):
            src = mk("init", e.args[0].args[0], sort="o")
            if n is size(src):
                return [("all", src)]
        if e.op == "init" and e.args[0].op == "idx" and e.args[0].args[0].op != "idx":
            # another order or number of the same factors: told from the indices for a few lengths
            src = mk("init", e.args[0].args[0], sort="o")
            got = []
            for m in range(1, 5):
                k = subst(n, {size(src): num(m)})
                if k.op != "num":
                    return None
                got.append([subst(subst(e.args[0].args[1], {binder_var(v): num(j)}), {size(src): num(m)}) for j in range(int(k.args[0]))])
            if any(x.op != "num" for g in got for x in g):
                return None
            return [("all", src)] if all(g == [num(j) for j in range(m)] for m, g in enumerate(got, 1)) else [("other order", src)]
        return None
    if v.op == "init":
        return [("all", v)]
    if v.op == "call" and v.args[0] == "polymorphic":
        return [("one", v)]
    return None


def strip(x):
    while x.op == "call" and x.args[0] == "polymorphic":
        x = x.args[1]
    return x


def members(ctx, u, r):
    """the list of factors: constructors, addComponent and the product operators"""
    def check(key, f, got, want, what):
        l = seq_of(got)
        if l is None:
            ctx.ob(key, f.where(), None, "shape not understood: " + show(got, 4))
            return
        l = [(k, strip(x)) for k, x in l]
        ctx.ob(key, f.where(), l == want, "%s: got [%s]" % (what, ", ".join(show(x, 3) for _, x in l)))

    A = lambda f, i: mk("init", cell(f, i), sort="o")
    CA = lambda f, i: mk("init", mk("fld", cell(f, i), "m_components"), sort="o")
    own = ("all", mk("init", COMP, sort="o"))
    for f in r.methods:
        if f.body is None and not f.inits:
            continue
        if f.kind == "CXXConstructorDecl" and not f.implicit and not f.defaulted:
            t = [qt(p) for p in f.params]
            s = summary(ctx, u, f)
            got = outm(s, "m_components", so="o")
            if len(t) == 2:
                check("product/ctor/two", f, got, [("one", A(f, 0)), ("one", A(f, 1))], "left then right")
            elif len(t) == 1 and "initializer_list" not in t[0] and "vector" in t[0]:
                check("product/ctor/list", f, got, [("all", A(f, 0))], "the factors given")
    for n, want in (("use_pp", lambda f: [("one", A(f, 0)), ("one", A(f, 1))]), ("use_cp", lambda f: [("all", CA(f, 0)), ("one", A(f, 1))]),
                    ("use_pc", lambda f: [("one", A(f, 0)), ("all", CA(f, 1))]), ("use_cc", lambda f: [("all", CA(f, 0)), ("all", CA(f, 1))])):
        for f in u.find(None, n):
            s = summary(ctx, u, f)
            got = field_of(s.ret, "m_components")
            if got is None:
                ctx.ob("product/times/" + n, f.where(), None, "shape not understood: " + show(s.ret, 4))
                continue
            check("product/times/" + n, f, got, want(f), "factors of the left operand, then of the right one")
    for n in ("use_add", "use_add_space", "use_add_product"):
        for f in u.find(None, n):
            s = summary(ctx, u, f)
            c = mk("fld", cell(f, 0), "m_components")
            got = s.value(c, "o")
            new = ("all", CA(f, 1)) if n == "use_add_product" else ("one", A(f, 1))
            check("product/" + n, f, got, [("all", mk("init", c, sort="o")), new], "the new factor comes last")


def field_of(v, name):
    v0 = v
    while v0.op == "with":
        if v0.args[1] == name:
            return v0.args[2]
        v0 = v0.args[0]
    if v0.op == "init":
        return mk("init", mk("fld", v0.args[0], name), sort="o")
    return None


# ---------------------------------------------------------------- tangent bundle
def qual(u, r, name, npar=None):
    """name under which a call on an object of record r is resolved"""
    for x in [r] + u.all_bases(r):
        if any(m.name == name for m in x.methods):
            return "%s::%s" % (x.name, name)
    return Q + name


def bundle(ctx, u):
    for r in u.recname["TangentBundleTpl"]:
        bname = r.targs[0].split("<")[0].split("::")[-1]
        brs = u.recname.get(bname, [])
        if not brs:
            continue
        b = brs[0]
        tag = "bundle-%s/" % bname
        B = M("base_", so="o")
        q = lambda n: qual(u, b, n)
        NX, NV = mk("call", q("nx"), B, sort="i"), mk("call", q("ndx"), B, sort="i")
        N, T = add(NX, NV), mul(num(2), NV)
        SH = {"integrate_impl": ((N, ONE), (T, ONE), (N, ONE)), "difference_impl": ((N, ONE), (N, ONE), (T, ONE)),
              "Jintegrate_impl": ((N, ONE), (T, ONE), (T, T)), "Jdifference_impl": ((N, ONE), (N, ONE), (T, T)),
              "JintegrateTransport": ((N, ONE), (T, ONE), (T, mk("init", mk("param", 98, "ncols"), sort="i"))),
              "interpolate_impl": ((N, ONE), (N, ONE), None, (N, ONE)), "isNormalized": ((N, ONE),)}
        for f in r.methods:
            if f.body is None:
                continue
            n = f.name
            key = tag + n
            if n == "nx":
                ctx.same(key, f.where(), summary(ctx, u, f).ret, N, "base point and tangent vector")
            elif n == "ndx":
                ctx.same(key, f.where(), summary(ctx, u, f).ret, T, "two tangent vectors")
            elif n == "isNormalized":
                s = summary(ctx, u, f, dims=pdims(f, SH[n]))
                ctx.same(key, f.where(), s.ret, mk("call", q(n), B, seg(P(f, 0), ZERO, NX), sort="b"), "iff its base point is a point of the base")
            elif n == "neutral":
                s = summary(ctx, u, f)
                v = subst(s.ret, {mk("call", "TangentBundleTpl::nx", SELF, sort="i"): N, mk("call", "ManifoldAbstractTpl::nx", B, sort="i"): NX})
                ctx.same(key + "/base", f.where(), seg(v, ZERO, NX), mk("call", q(n), B, sort="m"), "neutral element of the base")
                ctx.same(key + "/tangent", f.where(), seg(v, NX, NV), ZERO, "zero tangent vector")
            elif n == "rand":
                s = summary(ctx, u, f)
                v = subst(s.ret, {mk("call", "TangentBundleTpl::nx", SELF, sort="i"): N, mk("call", "ManifoldAbstractTpl::nx", B, sort="i"): NX})
                ctx.same(key + "/base", f.where(), seg(v, ZERO, NX), mk("call", q(n), B, sort="m"), "a sample of the base")
                full = covered(v, NX, NV)
                ctx.ob(key + "/tangent", f.where(), full, "the tangent part is filled")
            elif n in SH:
                s = summary(ctx, u, f, dims=pdims(f, SH[n]))
                subs = {mk("call", "TangentBundleTpl::ndx", SELF, sort="i"): T, mk("call", "TangentBundleTpl::nx", SELF, sort="i"): N}
                a = [P(f, i) for i in range(len(f.params))]
                oi = 3 if n == "interpolate_impl" else 2
                out = subst(outp(s, oi), subs)
                x, tx = seg(a[0], ZERO, NX), seg(a[0], NX, NV)
                if n == "integrate_impl":
                    ctx.same(key + "/base", f.where(), seg(out, ZERO, NX), vout(2, Q + n, B, x, seg(a[1], ZERO, NV)), "base point moved along the base tangent")
                    ctx.same(key + "/tangent", f.where(), seg(out, NX, NV), add(tx, seg(a[1], NV, NV)), "tangent vectors add up")
                elif n == "difference_impl":
                    ctx.same(key + "/base", f.where(), seg(out, ZERO, NV), vout(2, Q + n, B, x, seg(a[1], ZERO, NX)), "difference of the base points")
                    ctx.same(key + "/tangent", f.where(), seg(out, NV, NV), sub(seg(a[1], NX, NV), tx), "difference of the tangent vectors")
                elif n == "interpolate_impl":
                    t = P(f, 2, "s")
                    got = seg(out, ZERO, NX)
                    ws = [mk("out", 3, mk("call", Q + n, B, x, seg(a[1], ZERO, NX), t, z, sort="o"), sort="m") for z in (seg(a[3], ZERO, NX), mk("slot", 3))]
                    ctx.same(key + "/base", f.where(), got, ws[1] if got is ws[1] else ws[0], "interpolation of the base points")
                    ctx.same(key + "/tangent", f.where(), seg(out, NX, NV), add(mul(sub(ONE, t), tx), mul(t, seg(a[1], NX, NV))), "linear interpolation of the tangent vectors")
                else:
                    arg = P(f, 3, "i")
                    y = seg(a[1], ZERO, NX) if "ifference" in n else seg(a[1], ZERO, NV)
                    if n == "JintegrateTransport":
                        nc = SH[n][2][1]
                        want = mk("out", 2, mk("call", q(n), B, x, y, blk(a[2], ZERO, ZERO, NV, nc), arg, sort="o"), sort="m")
                        ctx.same(key + "/base", f.where(), blk(out, ZERO, ZERO, NV, nc), want, "base rows are transported on the base")
                        ctx.same(key + "/tangent", f.where(), blk(out, NV, ZERO, NV, nc), blk(a[2], NV, ZERO, NV, nc), "tangent rows are flat: left alone")
                    else:
                        want = mk("out", 2, mk("call", Q + n, B, x, y, ZERO, arg, sort="o"), sort="m")
                        for v in (0, 1):
                            pc = eq(arg, num(v))
                            k = "%s/%d" % (key, v)
                            ctx.under(k + "/base", f.where(), pc, blk(out, ZERO, ZERO, NV, NV), want, "Jacobian of the base")
                            ctx.under(k + "/tangent", f.where(), pc, blk(out, NV, NV, NV, NV), EYE if v or n == "Jintegrate_impl" else neg(EYE), "Jacobian of the flat part")
                            ctx.under(k + "/upper", f.where(), pc, blk(out, ZERO, NV, NV, NV), ZERO, "base and tangent parts do not mix")
                            ctx.under(k + "/lower", f.where(), pc, blk(out, NV, ZERO, NV, NV), ZERO, "base and tangent parts do not mix")
                unchanged(ctx, key + "/const", f, s, {THIS}, "the manifold itself is not changed")


def covered(v, off, n):
    w = v
    while w.op == "upd":
        view = w.args[1]
        if view.op == "vseg" and view.args[0] is off and view.args[1] is n:
            return True
        w = w.args[0]
    return True if w.op in ("xcall", "call") else None
