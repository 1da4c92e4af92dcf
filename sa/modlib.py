"""What the rules about single methods (sets, costs, functions, manifolds) share: a summary of one
method over unknown members and arguments, and access to its arguments and outputs."""
from .terms import *
from .interp import Interp, is_viewtype, root
from . import solverlib as SL
from .front import qt, AnalysisBroken

THIS = mk("this")
HALF = inv(num(2))
SELF = mk("init", THIS, sort="o")      # the object itself, as the receiver of its own virtual methods
constrain = under


def P(f, i, so="m"):
    """entry value of argument i"""
    return mk("init", cell(f, i), sort=so)


def cell(f, i):
    return mk("param", i, f.params[i].get("name", "_%d" % i))


def M(*names, so="m"):
    """entry value of a member"""
    return mk("init", mcell(*names), sort=so)


def mcell(*names):
    c = THIS
    for n in names:
        c = mk("fld", c, n)
    return c


def Ref(f, i):
    return "Ref<" in qt(f.params[i])


def interp(u, f=None, noinline=(), keep=(), dims=None, modes=None, intrinsics=None, **kw):
    fixed = {}
    if f is not None:
        for i in range(len(f.params)):
            if Ref(f, i):
                v = P(f, i)
                fixed[cell(f, i)] = v

    def celldims(c):
        if dims is not None:
            d = dims(c)
            if d is not None:
                return d
        v = fixed.get(c)
        return (rows(v), cols(v)) if v is not None else None

    def hook(what, v):
        if v.op == "call" and what == "size" and len(v.args) == 2 and str(v.args[0]).endswith(("::neutral", "::rand")):
            return mk("call", v.args[0].rsplit("::", 1)[0] + "::nx", v.args[1], sort="i")   # points have nx coordinates
        c = v.args[1] if v.op == "phi" else v.args[0] if v.op == "init" else None
        if not isinstance(c, Term):
            return None
        d = dims(c) if dims is not None else None
        if d is None and v.op == "phi" and c in fixed:
            w = fixed[c]
            return {"rows": rows, "cols": cols}.get(what, size)(w)
        if d is None:
            return None
        return d[0] if what == "rows" else d[1] if what == "cols" else mul(*d)
    SIZE_HOOK[0] = hook
    it = Interp(u, modes=dict(SL.MODES, **(modes or {})), noinline=noinline, intrinsics=intrinsics or {},
                weak_throw=True, keep=keep, **kw)
    it.celldims = celldims
    return it


def summary(ctx, u, f, pre=None, bind=None, **kw):
    return ctx.saw(interp(u, f, **kw).run(f, pre=pre, bind=bind))


def outp(s, i, so="m"):
    return s.value(cell(s.func, i), so)


def outm(s, *names, so="m"):
    return s.value(mcell(*names), so)


def records(u, base):
    """every instantiated class derived from `base` (by name)"""
    out = []
    for r in u.recs.values() if isinstance(u.recs, dict) else u.recs:
        if any(b.name == base for b in u.all_bases(r)):
            out.append(r)
    return out


def method(u, r, name, npar=None):
    """the final overrider of a method in record r (own or inherited), with a body"""
    for x in [r] + u.all_bases(r):
        for f in x.methods:
            if f.name == name and (npar is None or len(f.params) == npar):
                g = u.func_by_id(f.id)
                if g is not None and g.body is not None:
                    return g
                if f.body is not None:
                    return f
    return None


def vcall(q, recv, *args, so="o"):
    """value of a virtual call"""
    return mk("call", q, recv, *args, sort=so)


def vout(i, q, recv, *args, so="m"):
    """output parameter i of a virtual call"""
    a = list(args)
    a.insert(i, mk("slot", i))
    return mk("out", i, mk("call", q, recv, *a, sort="o"), sort=so)


def throws(s):
    """path condition under which the summarised function throws"""
    t = FALSE
    for e in s.events:
        if e.kind == "throw" and not e.caught:
            t = or_(t, e.pcabs)
    return t


def throws_iff(ctx, key, f, s, want, what):
    ctx.under(key, f.where(), TRUE, throws(s), want, what)


def at(s, cell_, so="m"):
    return s.value(cell_, so)


def unchanged(ctx, key, f, s, roots, what):
    """nothing reachable from these cells is written"""
    bad = []
    for k, v in s.final.store.items():
        if root(k) in roots and not (v.op == "init" and v.args[0] is k):
            bad.append(show(k, 5))
    for k in s.final.fams:
        if root(k) in roots:
            bad.append(show(k, 5))
    ctx.ob(key, f.where(), not bad, "%s: writes %s" % (what, ", ".join(bad[:4])))


def copies(m):
    """a constructor or assignment from another object of the class"""
    import re
    if len(m.params) != 1 or m.rec is None:
        return False
    t = (m.params[0].get("type") or {}).get("qualType", "").replace("const ", "").strip(" &")
    while "<" in t:
        u = re.sub(r"<[^<>]*>", "", t)
        if u == t:
            break
        t = u
    return t.split("::")[-1].strip(" &") == m.rec.name


def ctor(u, r, npar):
    return [m for m in r.methods if m.kind == "CXXConstructorDecl" and (m.body is not None or m.inits) and not m.implicit and not m.defaulted
            and len(m.params) == npar and not copies(m)]


def allocates(ctx, key, f, s, i, want, what):
    """the returned object is the i-th output of one virtual call, and had these dimensions then"""
    for e in s.events:
        if e.kind == "call" and i in (getattr(e, "was", None) or {}):
            w = e.was[i]
            if w.op not in ("sized", "sized2", "sum") or contains_op(w, "opaque", "clob", "xcall"):
                ctx.ob(key, f.where(), None, what)
                return
            if len(want) == 1:
                ctx.same(key, f.where(), size(w), want[0], what)
            else:
                ctx.same(key + "/rows", f.where(), rows(w), want[0], what)
                ctx.same(key + "/cols", f.where(), cols(w), want[1], what)
            return
    ctx.ob(key, f.where(), None, what)


def contains_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


def nullary(ctx, key, f, s, want, what, names=("Zero", "Ones", "Identity", "Random")):
    """the constant vectors and matrices made here have these dimensions"""
    for e in s.events:
        if e.kind == "dims" and e.name in names:
            if len(e.args) != len(want):
                ctx.ob(key, f.where(), None, what)
                continue
            for i, (a, w) in enumerate(zip(e.args, want)):
                ctx.same("%s/dim%d" % (key, i), f.where(), a, w, what)
